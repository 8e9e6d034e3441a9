"""python -m mc.run <property> [quick|thorough]       decide one property on /repo's working tree
   python -m mc.run --replay <file>                    re-run the single task of a reported violation"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from mc import core


def load(prop):
    core.import_repo()
    return importlib.import_module('mc.props.' + prop.lower())


def _worker(args):
    prop, case, params, limit = args
    module = sys.modules['mc.props.' + prop.lower()]
    ctx, viol, secs = core.run_task(module, case, params, limit)
    return case, params, ctx, viol, secs


def known_findings(prop):
    path = os.path.join(core.VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == prop]


def main(argv):
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            rep = json.load(f)
        module = load(rep['property'])
        ctx, viol, secs = core.run_task(module, rep['case'], rep['params'], 600)
        print(json.dumps({'property': rep['property'], 'case': rep['case'], 'params': rep['params'], 'violation': viol}, indent=1))
        return 1 if viol else 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    module = load(prop)
    tasks = [(prop, c, p, getattr(module, 'LIMIT', 300)) for c, p in module.tasks(tier)]
    known = known_findings(prop)

    def is_known(case, params):
        for k in known:
            if k['case'] == case and k['params'] == params:
                return k
        return None

    budget = float(os.environ.get('VERIF_BUDGET', '840' if tier == 'quick' else '100000'))
    states = set()
    agg = {'extra': 0, 'transitions': 0, 'traces': 0, 'skipped': 0}
    outcomes = set()
    samples = []
    per_case = {}
    violations = []
    kf_seen = []
    nproc = min(int(os.environ.get('VERIF_PROCS', '8')), os.cpu_count() or 1, max(1, len(tasks)))
    # Interleave expensive cases: the modules list them in a useful order already.
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(nproc, maxtasksperchild=None)
    done = 0
    pending = None
    try:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        while done < len(tasks):
            left = budget - (time.time() - t0)
            try:
                case, params, ctx, viol, secs = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                violations.append({'case': '?', 'params': {}, 'msg': f'exploration did not finish within {budget:.0f} s ({done}/{len(tasks)} tasks)', 'detail': None})
                break
            done += 1
            states |= ctx.states
            outcomes |= ctx.outcomes
            agg['extra'] += ctx.extra_states
            agg['transitions'] += ctx.transitions
            agg['traces'] += ctx.traces
            agg['skipped'] += ctx.skipped
            pc = per_case.setdefault(case, {'tasks': 0, 'states': 0, 'transitions': 0, 'traces': 0, 'cpu_s': 0.0})
            pc['tasks'] += 1
            pc['states'] += len(ctx.states) + ctx.extra_states
            pc['transitions'] += ctx.transitions
            pc['traces'] += ctx.traces
            pc['cpu_s'] = round(pc['cpu_s'] + secs, 2)
            if ctx.samples and sum(1 for s in samples if s['case'] == case) < 2:
                samples.append({'case': case, 'params': params, 'observed': ctx.samples[0]})
            if viol:
                k = is_known(case, params)
                if k is not None:
                    kf_seen.append(k)
                else:
                    violations.append({'case': case, 'params': params, **viol})
                    if len(violations) >= int(os.environ.get('VERIF_STOP', '5')):
                        break
    finally:
        pool.terminate()
        pool.join()

    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states) + agg['extra'],
            'transitions': agg['transitions'],
            'traces_validated_against_impl': agg['traces'],
            'distinct_outcomes': len(outcomes),
            'outside_domain_skipped': agg['skipped'],
            'tasks_completed': done, 'tasks_total': len(tasks),
            'exhaustive': done == len(tasks) and not violations,
            'bounds': getattr(module, 'BOUNDS', {}).get(tier, getattr(module, 'BOUNDS', {}).get('quick', '')),
            'per_case': per_case,
            'samples': samples[:12],
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
        'known_findings': [k['what'] for k in kf_seen],
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in kf_seen:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for k in known:
        if k not in kf_seen and not violations:
            print(f"note: the known finding '{k['what']}' did not reproduce")
    c = ev['coverage']
    print(f"{prop} {tier}: {done}/{len(tasks)} tasks, {c['states']} states, {c['transitions']} transitions, "
          f"{c['traces_validated_against_impl']} traces, {ev['wall_s']} s")
    if violations:
        rd = os.path.join(core.VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rd, f'{prop}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, **v}, f, indent=1, default=str)
            print(f"  case {v['case']} {json.dumps(v['params'])[:300]}: {v['msg']}")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
