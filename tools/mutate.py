"""Mutation campaign (development aid; no check uses it).

python3 tools/mutate.py OUT.jsonl [file-substring ...]: makes every first-order mutant of the library sources in scratch
copies, runs the quick checks mapped to the file (then C25) and, for mutants no check objects to, the stable tests.
A mutant that survives both is listed with status SURVIVED for review."""
import ast
import copy
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'CommDspy/tx/prbs_generator.py': 'C01 C02 C18', 'CommDspy/tx/prbs_iterator.py': 'C02 C18', 'CommDspy/tx/bin2symbol.py': 'C03 C08',
    'CommDspy/rx/symbol2bin.py': 'C03', 'CommDspy/tx/mapping.py': 'C04 C08', 'CommDspy/rx/demapping.py': 'C04 C25',
    'CommDspy/tx/coding.py': 'C05 C06 C07 C09 C10 C08', 'CommDspy/rx/decoding.py': 'C05 C06 C07 C09 C08 C11',
    'CommDspy/misc/help_functions.py': 'C08 C10 C11', 'CommDspy/misc/ml_decoding.py': 'C09 C11 C25',
    'CommDspy/auxiliary.py': 'C20 C19 C04 C05 C01 C09 C15', 'CommDspy/rx/slicer.py': 'C12 C13', 'CommDspy/rx/quantiztion.py': 'C12 C08',
    'CommDspy/rx/ffe_dfe_model.py': 'C13 C08', 'CommDspy/misc/help_classes.py': 'C14 C08', 'CommDspy/channel/pulse_shaping.py': 'C16 C15 C08 C27',
    'CommDspy/channel/additive_noise_functions.py': 'C27 C15', 'CommDspy/rx/ctle_model.py': 'C15', 'CommDspy/rx/lock_pattern.py': 'C17 C18 C24',
    'CommDspy/rx/checker.py': 'C18', 'CommDspy/digital_delay.py': 'C21 C22 C08', 'CommDspy/eye_diagram.py': 'C22',
    'CommDspy/rx/least_mean_squares.py': 'C23', 'CommDspy/rx/clock_data_recovery.py': 'C23', 'CommDspy/misc/least_squares.py': 'C24 C08',
    'CommDspy/channel_estimation.py': 'C24', 'CommDspy/equalization_estimation.py': 'C24', 'CommDspy/psa.py': 'C28',
}
FUNC = {
    'coding_gray': 'C05', 'coding_differential': 'C05 C07', 'coding_manchester': 'C06 C08', 'coding_bipolar': 'C07 C08', 'coding_mlt3': 'C07 C08',
    'coding_differential_manchester': 'C06 C08', 'coding_linear': 'C09 C08', 'coding_conv': 'C10 C08', '_binary_recursion': 'C10',
    'decoding_gray': 'C05', 'decoding_differential': 'C05', 'decoding_manchester': 'C06 C08', 'decoding_bipolar': 'C07', 'decoding_mlt3': 'C07',
    'decoding_differential_manchester': 'C06 C08', 'decoding_linear': 'C09 C08', 'decoding_conv_ml': 'C11 C08', 'decoding_conv_viterbi': 'C11 C08',
    '_trunc_reshape': 'C09 C11', 'check_binary': 'C08', 'check_valid_conv': 'C08', 'get_polynomial': 'C01', 'get_levels': 'C04', 'get_gray_level_vec': 'C05',
    'power': 'C20', 'rms': 'C20', 'buffer': 'C19', 'upsample': 'C20', 'zoh': 'C20', 'get_bin_perm': 'C20', 'hamming': 'C20', 'bin2uint': 'C20', 'uint2bin': 'C20',
    'rect_pulse': 'C16', 'sinc_pulse': 'C16', 'rcos_pulse': 'C16', 'rrc_pulse': 'C16', '_time_vec_pulse': 'C16', '_get_pulse': 'C15 C08', 'pulse_shape': 'C15 C08 C27',
    'prbs_generator': 'C01', 'lock_pattern_to_signal_binary': 'C17', 'lock_pattern_to_signal': 'C17 C24', 'create_trellis_bin': 'C11',
}
SWAP = {'floor': 'ceil', 'ceil': 'floor', 'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'zeros': 'ones', 'ones': 'zeros',
        'any': 'all', 'all': 'any', 'tile': 'repeat', 'conj': 'real', 'abs': 'real', 'sign': 'real', 'zeros_like': 'ones_like', 'fliplr': 'real', 'minimum': 'maximum', 'maximum': 'minimum'}
CMP = {ast.Lt: (ast.LtE, ast.GtE), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.LtE), ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,),
       ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr,
       ast.LShift: ast.RShift}


def mutants(src):
    """Yields (line, description, source)."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
    inraise = set()
    for n in nodes:
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print') or isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                if c is not n:
                    inraise.add(id(c))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('plt', 'ax'):
            for c in ast.walk(n):
                inraise.add(id(c))

    def emit(node, desc, fn):
        # apply fn to the copy of node at the same walk position
        i = idx[id(node)]
        t2 = copy.deepcopy(tree)
        n2 = list(ast.walk(t2))[i]
        fn(n2)
        ast.fix_missing_locations(t2)
        try:
            return getattr(node, 'lineno', 0), desc, ast.unparse(t2)
        except Exception:
            return None

    idx = {id(n): i for i, n in enumerate(nodes)}

    def become(n2, new):
        n2.__class__ = new.__class__
        n2.__dict__.clear()
        n2.__dict__.update(new.__dict__)

    for n in nodes:
        if id(n) in doc or id(n) in inraise:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), ()):
                yield emit(n, f'cmp {type(n.ops[0]).__name__}->{o.__name__} in {ast.unparse(n)}', lambda m, o=o: m.ops.__setitem__(0, o()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            o = BIN[type(n.op)]
            yield emit(n, f'op {type(n.op).__name__}->{o.__name__} in {ast.unparse(n)}', lambda m, o=o: setattr(m, 'op', o()))
        if isinstance(n, ast.BinOp):
            yield emit(n, f'left only of {ast.unparse(n)}', lambda m: become(m, copy.deepcopy(m.left)))
            yield emit(n, f'right only of {ast.unparse(n)}', lambda m: become(m, copy.deepcopy(m.right)))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield emit(n, f'const {v}->{not v}', lambda m, v=v: setattr(m, 'value', not v))
            elif isinstance(v, int):
                for w in {v + 1, v - 1}:
                    yield emit(n, f'const {v}->{w}', lambda m, w=w: setattr(m, 'value', w))
            elif isinstance(v, float):
                yield emit(n, f'const {v}->{v * 1.1 + (v == 0) * .1}', lambda m, v=v: setattr(m, 'value', v * 1.1 + (v == 0) * .1))
        if isinstance(n, ast.BoolOp):
            yield emit(n, f'boolop in {ast.unparse(n)}', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                yield emit(n, f'drop operand {k} of {ast.unparse(n)}', lambda m, k=k: become(m, m.values[1 - k]) if len(m.values) == 2 else m.values.pop(k))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            yield emit(n, f'drop unary of {ast.unparse(n)}', lambda m: become(m, m.operand))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                yield emit(n, f'cond True: {ast.unparse(n.test)}', lambda m: setattr(m, 'test', ast.Constant(True)))
            yield emit(n, f'cond False: {ast.unparse(n.test)}', lambda m: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            yield emit(n, f'delete {ast.unparse(n)[:90]}', lambda m: become(m, ast.Pass()))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield emit(n, f'drop keyword {n.keywords[k].arg} of {ast.unparse(n)[:80]}', lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in SWAP:
                    yield emit(n, f'call {n.func.attr}->{SWAP[n.func.attr]} in {ast.unparse(n)[:80]}', lambda m: setattr(m.func, 'attr', SWAP[m.func.attr]))
                if n.func.attr in ('copy', 'astype') and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'np'):
                    yield emit(n, f'drop .{n.func.attr}() in {ast.unparse(n)[:80]}', lambda m: become(m, m.func.value))
                if n.func.attr in ('array', 'copy', 'asarray', 'abs', 'sqrt', 'conj', 'squeeze', 'round') and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' and len(n.args) >= 1:
                    yield emit(n, f'unwrap np.{n.func.attr} in {ast.unparse(n)[:80]}', lambda m: become(m, m.args[0]))
                if n.func.attr == 'astype':
                    yield emit(n, f'astype int8 in {ast.unparse(n)[:80]}', lambda m: m.args.__setitem__(0, ast.Constant('int8')) if m.args else None)
                    yield emit(n, f'astype float32 in {ast.unparse(n)[:80]}', lambda m: m.args.__setitem__(0, ast.Constant('float32')) if m.args else None)
        if isinstance(n, ast.keyword) and n.arg == 'dtype':
            yield emit(n, 'dtype int8', lambda m: setattr(m, 'value', ast.Constant('int8')))
        if isinstance(n, ast.Slice):
            for part in ('lower', 'upper', 'step'):
                v = getattr(n, part)
                if v is not None:
                    yield emit(n, f'slice drop {part} of {ast.unparse(n)}', lambda m, part=part: setattr(m, part, None))
                    if part != 'step':
                        yield emit(n, f'slice {part}+1 of {ast.unparse(n)}', lambda m, part=part: setattr(m, part, ast.BinOp(getattr(m, part), ast.Add(), ast.Constant(1))))
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            yield emit(n, 'swap returned pair', lambda m: m.value.elts.reverse())


def setup(w):
    root = f'/tmp/mut/{w}'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree('/repo', root + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    shutil.copytree(VERIF, root + '/verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence'))
    return root


def run_one(a):
    file, line, desc, src, props = a
    root = f'/tmp/mut/{os.getpid()}'
    if not os.path.isdir(root):
        setup(os.getpid())
    p = f'{root}/repo/{file}'
    orig = open(p, newline='').read()
    env = dict(os.environ, VERIF_REPO=root + '/repo', VERIF_PROCS='1', VERIF_STOP='1', VERIF_BUDGET='600', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    t0 = time.time()
    res = {'file': file, 'line': line, 'desc': desc}
    try:
        open(p, 'w').write(src)
        for c in props:
            r = subprocess.run(['bash', root + '/verif/check.sh', c, 'quick'], env=env, capture_output=True, text=True)
            if r.returncode == 1:
                res.update(status='killed', by=c)
                break
            if r.returncode != 0:
                res.update(status='error', by=c, err=r.stderr[-300:])
                break
        else:
            sys.path.insert(0, VERIF + '/tools')
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:warnings', '-p', 'fixed_seed', '--timeout=180', '-o', 'junit_family=xunit2',
                                '--deselect', 'test/test_main.py::test_equalization', f'--junitxml={root}/j.xml', '.'], cwd=root + '/repo/test', env=dict(env, PYTHONPATH=root + '/repo:/opt/vp/plugins'), capture_output=True)
            import xml.etree.ElementTree as ET
            ok = set()
            try:
                for c in ET.parse(root + '/j.xml').getroot().iter('testcase'):
                    if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
                        ok.add(c.get('classname') + '::' + c.get('name'))
            except Exception:
                pass
            bad = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok
            res.update(status='TESTONLY' if bad else 'SURVIVED', tests=sorted(bad)[:3])
    finally:
        open(p, 'w', newline='').write(orig)
    res['s'] = round(time.time() - t0, 1)
    return res


def main():
    out = sys.argv[1]
    pats = sys.argv[2:]
    jobs = []
    files = dict(MAP)
    for d, _, fs in os.walk('/repo/example_simulation'):
        for f in fs:
            if f.endswith('.py') and f != '__init__.py':
                files[os.path.relpath(os.path.join(d, f), '/repo')] = 'C26'
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['desc']))
    for f, props in files.items():
        if pats and not any(p in f for p in pats):
            continue
        src = open('/repo/' + f).read()
        seen = {ast.unparse(ast.parse(src))}
        spans = [(n.name, n.lineno, n.end_lineno) for n in ast.walk(ast.parse(src)) if isinstance(n, ast.FunctionDef)]
        for m in mutants(src):
            if m is None or m[2] in seen:
                continue
            seen.add(m[2])
            if (f, m[0], m[1]) in done:
                continue
            try:
                compile(m[2], f, 'exec')
            except Exception:
                continue
            pr = next((FUNC[n] for n, a, b in spans if a <= m[0] <= b and n in FUNC), props)
            jobs.append((f, m[0], m[1], m[2], pr.split()))
    print(len(jobs), 'mutants', flush=True)
    shutil.rmtree('/tmp/mut', ignore_errors=True)
    with mp.Pool(int(os.environ.get('MUT_PROCS', '8'))) as pool, open(out, 'a') as fo:
        for i, r in enumerate(pool.imap_unordered(run_one, jobs)):
            fo.write(json.dumps(r) + '\n')
            fo.flush()
            if i % 50 == 0:
                print(i, flush=True)
    shutil.rmtree('/tmp/mut', ignore_errors=True)


if __name__ == '__main__':
    main()
