#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--file io.py] [--start N] [--every K] [--groups 0,1] [--seed S] [--jobs 8]

Systematic small changes of /repo's sources, each in a scratch copy: those that pass the
repository's stable tests are run against the simulations (a part of the quick budget).
Used during development to find changes that no check notices; not a registered check."""
import ast, json, os, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = '/repo/src/dispersion/'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('tests') or [])
ORDER = {'io.py': 'C09 C07 C08 C10 C02 C01 C04 C21 C20 C22', 'catalogue.py': 'C04 C06 C01 C05 C19 C11 C20 C13 C22 C03 C02',
         'config.py': 'C10 C20 C11', 'material.py': 'C13 C12 C07 C22 C09 C04', 'spectral_data.py': 'C13 C12 C22 C07 C04',
         'spectrum.py': 'C13 C12 C22 C07 C04', 'scripts/setup_dispersion.py': 'C11', 'scripts/catalogue_rebuild.py': 'C11'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def mutants(source):
    tree = ast.parse(source)
    docs = set()
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            child.parent = node
        body = getattr(node, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            docs.add(body[0])
            docs.add(body[0].value)
    def clone(node):
        return ast.parse(ast.unparse(node)).body[0]
    for node in ast.walk(tree):
        if node in docs:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = clone(ast.Expr(node)).value
            new.ops = [CMP[type(node.ops[0])]()]
            yield node, '(' + ast.unparse(new) + ')', 'compare'
        if isinstance(node, ast.BoolOp):
            new = clone(ast.Expr(node)).value
            new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            yield node, '(' + ast.unparse(new) + ')', 'bool'
            for i in range(len(node.values)):
                new = clone(ast.Expr(node)).value
                del new.values[i]
                yield node, '(' + ast.unparse(new.values[0] if len(new.values) == 1 else new) + ')', 'drop-operand'
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            yield node, '(' + ast.unparse(node.operand) + ')', 'drop-unary'
        if isinstance(node, (ast.If, ast.While)):
            if not isinstance(node.test, (ast.Compare, ast.Constant)):
                yield node.test, 'not (' + ast.unparse(node.test) + ')', 'negate'
            if isinstance(node, ast.If):
                yield node.test, '(False and (' + ast.unparse(node.test) + '))', 'never'
                yield node.test, '(True or (' + ast.unparse(node.test) + '))', 'always'
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            new = clone(ast.Expr(node)).value
            new.op = BIN[type(node.op)]()
            yield node, '(' + ast.unparse(new) + ')', 'arith'
        if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None and \
                node.value is not Ellipsis:
            if isinstance(node.value, bool):
                yield node, repr(not node.value), 'bool-const'
            elif isinstance(node.value, int):
                yield node, '(%d)' % (node.value + 1), 'int'
                if node.value > 0:
                    yield node, '(%d)' % (node.value - 1), 'int'
            elif isinstance(node.value, float):
                yield node, repr(node.value * 1.1), 'float'
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and not isinstance(node.parent, (ast.JoinedStr,)):
            inraise = node
            while inraise is not None and not isinstance(inraise, ast.stmt):
                inraise = getattr(inraise, 'parent', None)
            text = ast.unparse(inraise) if inraise is not None else ''
            if isinstance(inraise, ast.Raise) or 'warn(' in text or 'print(' in text:
                continue
            if len(node.value) < 30:
                yield node, repr(node.value + 'x' if node.value else 'x'), 'str'
        if isinstance(node, ast.Call):
            for i, kw in enumerate(node.keywords):
                new = clone(ast.Expr(node)).value
                del new.keywords[i]
                yield node, ast.unparse(new), 'drop-kw'
            name = ast.unparse(node.func)
            if name.split('.')[-1] in ('copy', 'deepcopy', 'array', 'sorted', 'sort', 'strip', 'lower', 'float', 'str', 'list',
                                       'normpath', 'real', 'abspath', 'rstrip', 'lstrip'):
                if node.args:
                    yield node, '(' + ast.unparse(node.args[0]) + ')', 'identity'
                elif isinstance(node.func, ast.Attribute):
                    yield node, '(' + ast.unparse(node.func.value) + ')', 'identity'
            if len(node.args) == 2:
                new = clone(ast.Expr(node)).value
                new.args = [new.args[1], new.args[0]]
                yield node, ast.unparse(new), 'swap-args'
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            yield node.type, 'BaseException', 'except'
            yield node.type, 'ZeroDivisionError', 'except'
            if isinstance(node.type, ast.Tuple):
                for i in range(len(node.type.elts)):
                    yield node.type, '(' + ''.join(ast.unparse(e) + ', ' for j, e in enumerate(node.type.elts) if j != i) + ')', 'except'
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.If,
                                                              ast.For, ast.While, ast.Try, ast.With, ast.Pass)):
            if isinstance(node, ast.Return) and node.value is not None:
                yield node, 'return None', 'return-none'
            else:
                yield node, 'pass', 'delete'
            if isinstance(node, (ast.Continue,)):
                yield node, 'break', 'break'
            if isinstance(node, (ast.Break,)):
                yield node, 'continue', 'continue'
        if isinstance(node, ast.Try) and node.finalbody:
            pass
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            yield node, ast.unparse(node.value), 'no-slice'


def listing(only=None):
    out, seen = [], set()
    for name in ORDER:
        if only and name != only:
            continue
        source = open(SRC + name, encoding='utf-8').read()
        lines = source.splitlines(keepends=True)
        offs = [0]
        for line in lines:
            offs.append(offs[-1] + len(line.encode()))
        raw = source.encode()
        for node, text, kind in mutants(source):
            a = offs[node.lineno - 1] + node.col_offset
            b = offs[node.end_lineno - 1] + node.end_col_offset
            new = raw[:a] + text.encode() + raw[b:]
            if '\n' in raw[a:b].decode() and kind not in ('delete', 'return-none'):
                pass
            key = hashlib.sha1(new).hexdigest()
            if key in seen or new == raw:
                continue
            seen.add(key)
            try:
                tree = ast.parse(new)
            except SyntaxError:
                continue
            if ast.dump(tree) == ast.dump(ast.parse(raw)):
                continue
            out.append({'id': key[:10], 'file': name, 'line': node.lineno, 'kind': kind, 'old': raw[a:b].decode(), 'new': text,
                        'source': new.decode()})
    return out


def judge(item, slot, groups, seed):
    work = '/dev/shm/mut/%s' % slot
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for part in ('src', 'tests', 'setup.py'):
        subprocess.run(['cp', '-a', '/repo/' + part, work + '/' + part])
    with open(work + '/src/dispersion/' + item['file'], 'w', encoding='utf-8') as fpt:
        fpt.write(item['source'])
    env = dict(os.environ, PYTHONPATH='src', PYTHONDONTWRITEBYTECODE='1', HOME=work, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        t = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-v', '-p', 'no:cacheprovider', 'tests'], cwd=work, env=env,
                           capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return {'status': 'tests-hang'}
    got = {l.split()[0].replace('.py::', '::').replace('/', '.') for l in t.stdout.splitlines() if ' PASSED' in l}
    if not STABLE <= got:
        return {'status': 'tests'}
    notes = []
    for group in groups:
        for prop in ORDER[item['file']].split():
            scratch = work + '/scratch'
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch + '/h/.config')
            env = dict(os.environ, SIM_REPO=work, SIM_SCRATCH=scratch, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', SIM_MINIMISE='0',
                       PYTHONHASHSEED=str(group + 1), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=scratch + '/h',
                       PYTHONIOENCODING='utf-8', PYTHONUTF8='1', LC_ALL='C.UTF-8')
            try:
                p = subprocess.run([PY, '-W', 'ignore', '-m', 'sim.driver', 'worker', prop, str(seed), 'quick', str(group), '150'],
                                   cwd=HERE, env=env, capture_output=True, text=True, timeout=400, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                notes.append(prop + ' timeout')
                continue
            try:
                found = json.loads(p.stdout)['found']
            except ValueError:
                notes.append('%s error %s' % (prop, p.stderr[-300:]))
                continue
            if found is None:
                continue
            if found['status'] == 'violation':
                return {'status': 'caught', 'by': prop, 'code': found['code'], 'message': found['message'][:200], 'notes': notes}
            notes.append('%s %s %s' % (prop, found['code'], found['message'][:200]))
    return {'status': 'survived', 'notes': notes}


def main(argv):
    opt = {'--file': None, '--start': 0, '--every': 1, '--groups': '0', '--seed': 1, '--jobs': 8}
    out = argv[0]
    rest = argv[1:]
    while rest:
        opt[rest[0]] = rest[1]
        rest = rest[2:]
    items = listing(opt['--file'])[int(opt['--start'])::int(opt['--every'])]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    items = [i for i in items if i['id'] not in done]
    print(len(items), 'mutants', flush=True)
    import queue, threading
    slots = queue.Queue()
    for s in range(int(opt['--jobs'])):
        slots.put(s)
    lock = threading.Lock()
    groups = [int(g) for g in opt['--groups'].split(',')]

    def job(item):
        slot = slots.get()
        try:
            res = judge(item, slot, groups, opt['--seed'])
        except Exception as exc:
            res = {'status': 'harness', 'notes': [repr(exc)]}
        finally:
            slots.put(slot)
        rec = {k: v for k, v in item.items() if k != 'source'}
        rec.update(res)
        with lock, open(out, 'a', encoding='utf-8') as fpt:
            fpt.write(json.dumps(rec, ensure_ascii=False) + '\n')
    with ThreadPoolExecutor(int(opt['--jobs'])) as pool:
        list(pool.map(job, items))
    shutil.rmtree('/dev/shm/mut', ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
