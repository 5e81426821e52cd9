#!/usr/bin/env python3
'''Systematic small changes of the package: which pass its tests, and do the checks catch those?

usage: mutate.py survivors OUT.json      find the changes that pass the tests
       mutate.py judge OUT.json [K/N]    run the checks of the changed file on each until one reports it
'''
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO, PY = '/repo', '/opt/venv/bin/python'
CHECKS = {
    'segeval/__init__.py': 'C19',
    'segeval/compute.py': 'C11 C22 C20 C23 C21',
    'segeval/format.py': 'C24 C10 C07 C09 C01 C20 C21',
    'segeval/metric.py': 'C11 C03 C08 C09 C22 C20',
    'segeval/util/__init__.py': 'C22 C11 C07 C08 C04 C20 C21',
    'segeval/util/math.py': 'C23 C10 C14 C20',
    'segeval/util/lang.py': 'C14 C22 C17',
    'segeval/window/__init__.py': 'C10 C08 C09 C22 C11 C07 C20',
    'segeval/window/pk.py': 'C08 C07 C22 C11 C20',
    'segeval/window/windowdiff.py': 'C09 C10 C07 C22 C11 C20',
    'segeval/similarity/__init__.py': 'C05 C06 C04 C03 C07 C22 C11 C12 C20',
    'segeval/similarity/boundary.py': 'C04 C03 C07 C22 C12 C11 C20',
    'segeval/similarity/segmentation.py': 'C04 C03 C07 C22 C12 C11 C20',
    'segeval/similarity/weight.py': 'C25 C04 C03 C06',
    'segeval/similarity/distance/__init__.py': 'C05 C04 C03 C12',
    'segeval/similarity/distance/multipleboundary.py': 'C01 C02 C03 C04 C20',
    'segeval/agreement/__init__.py': 'C12 C07 C22 C13 C20',
    'segeval/agreement/bias.py': 'C12 C13 C20',
    'segeval/agreement/kappa.py': 'C12 C13 C20',
    'segeval/agreement/pi.py': 'C12 C13 C20',
    'segeval/ml/__init__.py': 'C14 C15 C22 C20 C06 C21',
    'segeval/data/__init__.py': 'C16 C18 C17 C13 C11 C22 C20',
    'segeval/data/jsonutils.py': 'C17 C18 C13 C20',
    'segeval/data/tsv.py': 'C18 C13',
}
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Pow: ast.Mult,
        ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.And: ast.Or, ast.Or: ast.And}


def variants(node):
    '''Replacement nodes (None: pass) of a node.'''
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        new = copy.deepcopy(node)
        new.ops = [SWAP[type(node.ops[0])]()]
        yield new
        if isinstance(node.ops[0], (ast.Gt, ast.Lt, ast.GtE, ast.LtE)):
            new = copy.deepcopy(node)
            new.ops = [ast.NotEq()]
            yield new
    if isinstance(node, ast.BinOp) and type(node.op) in SWAP and not isinstance(node.left, (ast.Constant, ast.JoinedStr)):
        new = copy.deepcopy(node)
        new.op = SWAP[type(node.op)]()
        yield new
        yield node.left
        yield node.right
    if isinstance(node, ast.BoolOp):
        new = copy.deepcopy(node)
        new.op = SWAP[type(node.op)]()
        yield new
        for value in node.values:
            new = copy.deepcopy(node)
            new.values = [copy.deepcopy(other) for other in node.values if other is not value]
            yield new if len(new.values) > 1 else new.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node.operand
    if isinstance(node, ast.Constant) and isinstance(node.value, bool):
        yield ast.Constant(not node.value)
    elif isinstance(node, ast.Constant) and isinstance(node.value, int):
        yield ast.Constant(node.value + 1)
        if node.value:
            yield ast.Constant(0)
    if isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords:
        name = node.func.id if isinstance(node.func, ast.Name) else getattr(node.func, 'attr', None)
        if name in ('list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'deepcopy', 'str', 'abs', 'int', 'Decimal', 'len'):
            yield node.args[0]
        if name == 'sorted':
            yield ast.Call(ast.Name('reversed'), node.args, [])
    if isinstance(node, ast.IfExp):
        yield node.body
        yield node.orelse
    if isinstance(node, ast.Call) and node.keywords:
        for keyword in node.keywords:
            new = copy.deepcopy(node)
            new.keywords = [k for k in node.keywords if k is not keyword]
            yield new


def mutants(path):
    with open(os.path.join(REPO, path)) as handle:
        text = handle.read()
    lines = text.splitlines(True)
    offsets = [0]
    for line in lines:
        offsets.append(offsets[-1] + len(line))

    def span(node):
        return (offsets[node.lineno - 1] + node.col_offset, offsets[node.end_lineno - 1] + node.end_col_offset)

    tree = ast.parse(text)
    for node in ast.walk(tree):
        if isinstance(node, ast.expr):
            for new in variants(node):
                start, end = span(node)
                source = ast.unparse(ast.fix_missing_locations(new))
                yield text[:start] + '(' + source + ')' + text[end:], node.lineno, '%s -> %s' % (text[start:end], source)
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Delete, ast.Assert)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            if node.col_offset == 0:
                continue
            start, end = span(node)
            yield text[:start] + 'pass' + text[end:], node.lineno, '%s -> pass' % text[start:end]
        elif isinstance(node, ast.If):
            start, end = span(node.test)
            for value in ('True', 'False'):
                yield text[:start] + value + text[end:], node.lineno, 'if %s -> %s' % (text[start:end], value)


def tests(directory):
    try:
        return subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--disable-warnings', '-o',
                               'python_files=*test.py', 'segeval'], cwd=directory, stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL, timeout=120).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def survivors(out):
    pool = [tempfile.mkdtemp(prefix='mutate-') for _ in range(int(os.environ.get('MUTATE_PARALLEL', '4')))]
    for directory in pool:
        shutil.copytree(REPO, directory, dirs_exist_ok=True)
    free = list(pool)
    work, seen = [], set()
    for path in CHECKS:
        for text, line, label in mutants(path):
            if (path, text) not in seen:
                seen.add((path, text))
                work.append((path, text, line, label))

    def one(entry):
        path, text, line, label = entry
        try:
            compile(text, path, 'exec')
        except (SyntaxError, ValueError):
            return None
        directory = free.pop()
        try:
            target = os.path.join(directory, path)
            with open(target, 'w') as handle:
                handle.write(text)
            passed = tests(directory)
            shutil.copy(os.path.join(REPO, path), target)
        finally:
            free.append(directory)
        return dict(path=path, line=line, label=label, text=text) if passed else None
    with ThreadPoolExecutor(len(pool)) as executor:
        found = [entry for entry in executor.map(one, work) if entry]
    with open(out, 'w') as handle:
        json.dump(found, handle, indent=1)
    for directory in pool:
        shutil.rmtree(directory)
    print('%d changes, %d pass the tests' % (len(work), len(found)))


def judge(out, part):
    k, n = map(int, part.split('/'))
    found = json.load(open(out))
    for index, entry in enumerate(found):
        if index % n != k:
            continue
        directory = tempfile.mkdtemp(prefix='mutate-')
        shutil.copytree(REPO, directory, dirs_exist_ok=True)
        with open(os.path.join(directory, entry['path']), 'w') as handle:
            handle.write(entry['text'])
        verdict = 'MISSED'
        for check in CHECKS[entry['path']].split():
            if check in os.environ.get('MUTATE_SKIP', '').split():
                continue
            status = subprocess.run(['bash', 'check.sh', check, 'quick'], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                    env=dict(os.environ, MC_REPO=directory), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if status.returncode:
                verdict = '%s exit %d' % (check, status.returncode)
                break
        shutil.rmtree(directory)
        print('%-12s %s:%d %s' % (verdict, entry['path'], entry['line'], ' '.join(entry['label'].split())[:150]), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'survivors':
        survivors(sys.argv[2])
    else:
        judge(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else '0/1')
