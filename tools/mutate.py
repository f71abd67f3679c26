"""
mutate.py [-n COUNT] [-j JOBS] [-s SEED] PROPERTY...

Makes small changes at random in the code a property is about, each in a scratch copy, and tells which ones its check does
not notice. What is left is looked at by hand: either the change keeps the behaviour, or the check has a gap.
"""
import ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SKIPPED = {'__repr__', '__str__', '__reduce__', 'warn', '__del__', '__hash__'}

def segments(text):
    starts = [0]
    for line in text.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    return starts


COMPARES = {
    ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
    ast.In: 'not in', ast.NotIn: 'in',
}
BINARIES = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Mod: '+'}


def find(path, names):
    with open(path, 'rb') as file:
        data = file.read()
    tree = ast.parse(data)
    starts = segments(data.decode())
    found = []

    def at(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def source(node):
        start, end = at(node)
        return data[start:end].decode()

    def change(node, new, start = None, end = None):
        if start is None:
            start, end = at(node)
        found.append((start, end, new.encode(), node.lineno))

    def visit(node, inside):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in SKIPPED or node.name.startswith('repr'):
                return
            inside = inside or names is None or node.name in names
            for child in node.body:
                visit(child, inside)
            return
        if isinstance(node, ast.ClassDef):
            for child in node.body:
                visit(child, inside or (names is not None and node.name in names))
            return
        if not inside:
            for child in ast.iter_child_nodes(node):
                visit(child, inside)
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            operation = COMPARES.get(type(node.ops[0]))
            if operation is not None:
                change(node, f'({source(node.left)}) {operation} ({source(node.comparators[0])})')
        elif isinstance(node, ast.BoolOp):
            word = ' or ' if isinstance(node.op, ast.And) else ' and '
            change(node, '(' + word.join(f'({source(v)})' for v in node.values) + ')')
            change(node, '(' + source(node.values[0]) + ')')
            change(node, '(' + source(node.values[-1]) + ')')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            change(node, f'bool({source(node.operand)})')
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARIES and not (isinstance(node.right, ast.Constant) and isinstance(node.right.value, str)):
            change(node, f'({source(node.left)}) {BINARIES[type(node.op)]} ({source(node.right)})')
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                change(node, str(not node.value))
            elif isinstance(node.value, int):
                change(node, str(node.value + 1))
                if node.value:
                    change(node, str(node.value - 1))
        elif isinstance(node, ast.Slice):
            pass
        elif isinstance(node, ast.Expr):
            change(node, 'pass')
        elif isinstance(node, (ast.Assign, ast.AugAssign)) and not isinstance(node, ast.AnnAssign):
            change(node, 'pass')
        elif isinstance(node, ast.Delete):
            change(node, 'pass')
        elif isinstance(node, (ast.Break, ast.Continue)):
            change(node, 'pass')
        elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            change(node, 'return None')
        elif isinstance(node, ast.Return):
            change(node, 'pass')
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            if isinstance(node, ast.If) or isinstance(node, ast.IfExp):
                change(node.test, 'True')
            change(node.test, 'False')
        for child in ast.iter_child_nodes(node):
            visit(child, inside)

    visit(tree, False)
    return data, found


def main():
    arguments = sys.argv[1:]
    count, jobs, seed = 30, 6, 1
    only = []
    while arguments:
        argument = arguments.pop(0)
        if argument == '-n':
            count = int(arguments.pop(0))
        elif argument == '-j':
            jobs = int(arguments.pop(0))
        elif argument == '-s':
            seed = int(arguments.pop(0))
        else:
            only.append(argument)
    from mutate_targets import TARGETS
    root = tempfile.mkdtemp(prefix = 'mutate_')
    verif = os.path.join(root, 'verif')
    os.makedirs(verif)
    for name in ('check', 'lib', 'checks', 'specs', 'known_findings.json'):
        path = os.path.join(VERIF, name)
        (shutil.copytree if os.path.isdir(path) else shutil.copy2)(path, os.path.join(verif, name))
    repo = os.path.join(root, 'repo') # it may change meanwhile
    shutil.copytree(REPO, repo, ignore = shutil.ignore_patterns('tests', '.git', '__pycache__', 'docs'), symlinks = True)
    cache = os.path.join(root, 'cache')
    os.makedirs(cache)
    environment = dict(os.environ, VF_CACHE = cache, VF_FIRST = '1', VERIF_SEED = '1', VERIF_TIER = 'quick')

    def copy(name):
        path = os.path.join(root, name)
        shutil.copytree(repo, path, symlinks = True)
        return path

    def attempt(identifier, number, path, data, item):
        start, end, new, line = item
        where = copy(f'{identifier}_{number}')
        try:
            with open(os.path.join(where, path), 'wb') as file:
                file.write(data[:start] + new + data[end:])
            try:
                result = subprocess.run(
                    [os.path.join(verif, 'check'), identifier, 'quick'], env = dict(environment, VERIF_REPO = where),
                    stdout = subprocess.PIPE, stderr = subprocess.STDOUT, timeout = 400,
                )
                code = result.returncode
                output = result.stdout.decode(errors = 'replace')
            except subprocess.TimeoutExpired:
                code, output = 'timeout', ''
        finally:
            shutil.rmtree(where, ignore_errors = True)
        if code != 1:
            old = data[start:end].decode().replace('\n', ' ')[:120]
            context = data.decode().splitlines()[line - 1].strip()
            print(f'{identifier} {code} {path.rpartition("/")[2]}:{line} {old!r} -> {new.decode()[:120]!r} | {context[:120]}', flush = True)
            if code != 0:
                print('   ', output[-300:].replace('\n', ' | '), flush = True)
        return code

    try:
        for identifier in only or TARGETS:
            items = []
            for path, names in TARGETS[identifier].items():
                data, found = find(os.path.join(repo, path), names)
                items.extend((path, data, item) for item in found)
            random.Random(seed).shuffle(items)
            chosen = items[:count]
            # the first run fills the cache
            subprocess.run([os.path.join(verif, 'check'), identifier, 'quick'], env = dict(environment, VERIF_REPO = repo), stdout = subprocess.DEVNULL)
            with ThreadPoolExecutor(jobs) as pool:
                codes = list(pool.map(lambda a: attempt(identifier, a[0], *a[1]), enumerate(chosen)))
            print(f'== {identifier}: {codes.count(1)} of {len(chosen)} noticed ({len(items)} possible)', flush = True)
    finally:
        shutil.rmtree(root, ignore_errors = True)


main()
