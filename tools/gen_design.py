"""Assembles DESIGN.md.  Run: PYTHONPATH=/verif:/repo:/verif/tools /opt/venv/bin/python -B tools/gen_design.py"""
import importlib
import json
import os
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
HOW = json.load(open(HERE + '/design_how.json'))
SEEDS = json.load(open(HERE + '/design_seeds.json'))


def main():
    out = [open(HERE + '/design_head.md').read().rstrip('\n') + '\n']
    for line in open(ROOT + '/properties.jsonl'):
        d = json.loads(line)
        m = importlib.import_module('mc.props.' + d['id'].lower())
        out.append(f"\n### {d['id']} - {d['title']}\n")
        out.append(HOW[d['id']] + '\n')
        out.append(f"- *Explored (quick):* {m.BOUNDS['quick']}.")
        out.append(f"- *Thorough:* {m.BOUNDS.get('thorough')}.")
        out.append(f"- *Cases:* {', '.join(m.CASES)}. *Assumptions:* {'; '.join(m.ASSUMPTIONS)}.")
        out.append(f"- *Why not the tests:* {d['why_tests_cant']}.\n")
    out.append(open(HERE + '/design_tail.md').read().rstrip('\n') + '\n')
    out.append('| change | property | what it is | caught by | initially |\n|---|---|---|---|---|')
    for sid in sorted(os.listdir(ROOT + '/seeded')) if os.path.isdir(ROOT + '/seeded') else []:
        meta = json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))
        s = SEEDS.get(sid, {})
        out.append(f"| {sid} | {meta['property']} | {meta['what_it_breaks']} (needs: {meta['needs']}) | {s.get('caught', meta['property'])} | {s.get('first', 'caught')} |")
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
