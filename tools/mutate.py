"""mutate.py FILE... [-n N] [--seed S] [--full]: changes single places of pyulog's files (in scratch copies) and runs the checks on
them until one reports a violation; prints the mutants that no check reports. A way to look for gaps, not a check."""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'core.py': 'C01 C02 C04 C24 C06 C08 C03 C09 C05 C22 C23 C07 C17 C10',
    'db.py': 'C10 C25 C11 C09 C12 C13 C26 C28',
    'migrate_db.py': 'C13 C12 C26 C27', 'extract_gps_dump.py': 'C21 C24', 'extract_message.py': 'C15 C24', 'info.py': 'C17 C24',
    'messages.py': 'C18 C24', 'params.py': 'C16 C24', 'px4.py': 'C23 C19', 'px4_events.py': 'C18', 'ulog2csv.py': 'C14 C24',
    'ulog2kml.py': 'C19 C24', 'ulog2ros2bag.py': 'C20 C24',
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mod: ast.Mult}


def variants(node):
    """[(description, function that changes the copy of the node, or returns its replacement)]"""
    out = []
    if isinstance(node, ast.Compare):
        op = type(node.ops[0])
        if op in CMP:
            out.append(('cmp', lambda n: n.ops.__setitem__(0, CMP[op]())))
    if isinstance(node, ast.BoolOp):
        out.append(('andor', lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        for i in range(len(node.values)):
            out.append(('dropterm%d' % i, lambda n, i=i: n.values.pop(i)))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(('unary', lambda n: n.operand))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        if not (isinstance(node.op, ast.Mod) and isinstance(node.left, (ast.Constant, ast.JoinedStr))):
            out.append(('binop', lambda n: setattr(n, 'op', BIN[type(n.op)]())))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(('bool', lambda n: setattr(n, 'value', not v)))
        elif isinstance(v, int):
            out.append(('int+1', lambda n: setattr(n, 'value', v + 1)))
            if v > 0:
                out.append(('int-1', lambda n: setattr(n, 'value', v - 1)))
        elif isinstance(v, float):
            out.append(('float', lambda n: setattr(n, 'value', v * 1.1 + 0.1)))
        elif isinstance(v, str) and len(v) < 200 and not getattr(node, 'skip', False):
            out.append(('str', lambda n: setattr(n, 'value', v + 'X' if not v else v[:-1] + ('X' if v[-1] != 'X' else 'Y'))))
        elif isinstance(v, bytes):
            out.append(('bytes', lambda n: setattr(n, 'value', v + b'X')))
    if isinstance(node, ast.If):
        out.append(('iftrue', lambda n: setattr(n, 'test', ast.Constant(True))))
        out.append(('iffalse', lambda n: setattr(n, 'test', ast.Constant(False))))
    if isinstance(node, ast.IfExp):
        out.append(('ifexp', lambda n: n.body))
        out.append(('ifexp2', lambda n: n.orelse))
    if isinstance(node, (ast.Continue, ast.Break)):
        out.append(('nojump', lambda n: ast.Pass()))
        if isinstance(node, ast.Continue):
            out.append(('break', lambda n: ast.Break()))
        else:
            out.append(('continue', lambda n: ast.Continue()))
    if isinstance(node, ast.Return) and node.value is not None:
        out.append(('return', lambda n: setattr(n, 'value', ast.Constant(None))))
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        out.append(('nocall', lambda n: ast.Pass()))
    if isinstance(node, (ast.AugAssign, ast.Delete, ast.Raise)):
        out.append(('nostm', lambda n: ast.Pass()))
    if isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
        out.append(('noassign', lambda n: ast.Pass()))
    if isinstance(node, ast.Slice):
        for k in ('lower', 'upper'):
            if getattr(node, k) is not None:
                out.append(('no' + k, lambda n, k=k: setattr(n, k, None)))
    if isinstance(node, ast.Call):
        name = node.func.id if isinstance(node.func, ast.Name) else ''
        if name in ('sorted', 'float', 'int', 'str', 'list', 'bool', 'min', 'max', 'abs', 'bytes', 'bytearray', 'set') and len(node.args) >= 1:
            out.append(('uncall', lambda n: n.args[0]))
        for i in range(len(node.keywords)):
            out.append(('nokw%d' % i, lambda n, i=i: n.keywords.pop(i)))
    return out


def mutants(path):
    with open(path) as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        body = getattr(n, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body[0].value.skip = True
        if isinstance(n, ast.keyword) and n.arg in ('help', 'description', 'metavar', 'prog'):
            for m in ast.walk(n):
                m.skip = True
    nodes = list(ast.walk(tree))
    for i, node in enumerate(nodes):
        if getattr(node, 'skip', False):
            continue
        for j, (what, _) in enumerate(variants(node)):
            yield i, j, what, node.lineno if hasattr(node, 'lineno') else 0


def make(path, i, j):
    with open(path) as f:
        tree = ast.parse(f.read())
    nodes = list(ast.walk(tree))
    node = nodes[i]
    before = ast.unparse(node)
    res = variants(node)[j][1](node)
    if isinstance(res, ast.AST):
        for parent in nodes:
            for field, value in ast.iter_fields(parent):
                if value is node:
                    setattr(parent, field, res)
                elif isinstance(value, list) and any(x is node for x in value):
                    value[[x is node for x in value].index(True)] = res
        after = ast.unparse(res)
    else:
        after = ast.unparse(node)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), before, after


def first(text):
    return text.strip().split('\n')[0][:90]


def try_one(task):
    rel, i, j, what, line, full = task
    src = '/repo/pyulog/' + rel
    try:
        text, before, after = make(src, i, j)
        compile(text, rel, 'exec')
    except Exception as err:
        return task, None, 'invalid %r' % err
    tmp = tempfile.mkdtemp(prefix='mut_')
    desc = '%s:%d %s  [%s] -> [%s]' % (rel, line, what, first(before), first(after))
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        with open(tmp + '/repo/pyulog/' + rel, 'w') as f:
            f.write(text)
        for c in CHECKS[rel].split():
            env = dict(os.environ, VP_REPO=tmp + '/repo', VERIF_SEED='1', VERIF_TIER='quick', VP_EVIDENCE=tmp + '/ev')
            if not full:
                env['VP_SAMPLE'] = '1'
            try:
                r = subprocess.run(['python3-vt', 'run.py', c], cwd=V, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return task, 'TIMEOUT ' + c, desc
            if r.returncode == 1:
                return task, c, desc
            if r.returncode:
                return task, 'ERROR %s: %s' % (c, (r.stdout + r.stderr).strip().split('\n')[-1][:150]), desc
        return task, '', desc
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('-n', type=int)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--full', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--lines', help='only these lines, as 10-20')
    args = ap.parse_args()
    tasks = []
    for rel in args.files:
        ms = list(mutants('/repo/pyulog/' + rel))
        if args.lines:
            a, b = map(int, args.lines.split('-'))
            ms = [m for m in ms if a <= m[3] <= b]
        tasks += [(rel, i, j, what, line, args.full) for i, j, what, line in ms]
    random.Random(args.seed).shuffle(tasks)
    tasks = tasks[:args.n]
    print('%d mutants' % len(tasks), flush=True)
    killed = {}
    n = 0
    with ThreadPoolExecutor(args.j) as ex:
        for task, by, desc in ex.map(try_one, tasks):
            if by is None:
                continue
            n += 1
            killed[by.split(':')[0]] = killed.get(by.split(':')[0], 0) + 1
            if not by or by[:2] not in ('C0', 'C1', 'C2'):
                print('%s %s' % (by or 'SURVIVES', desc), flush=True)
    print(n, killed)


main()
