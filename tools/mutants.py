""" Mutation testing of the checks (a development aid; no check uses it).

usage: mutants.py list            -> writes WORK/mutants.json
       mutants.py tests           -> which mutants the repository's tests miss
       mutants.py checks [IDS..]  -> which of those the checks miss
Scratch copies live in WORK (default /tmp/mut).  Mutants already in
results.json are not decided again.
"""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import threading

REPO = os.environ.get('MUT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('MUT_WORK', '/tmp/mut')
WORKERS = int(os.environ.get('MUT_WORKERS', '8'))

CHECKS = [
    ('forecaster/utility/timing.py', 'C04 C01 C03 C14 C21'),
    ('forecaster/utility/inflation.py', 'C12 C09 C06 C19 C21'),
    ('forecaster/utility/precision.py', 'C21 C20'),
    ('forecaster/ledger', 'C02 C08 C15'),
    ('forecaster/accounts/base.py', 'C01 C03 C02 C13 C21'),
    ('forecaster/accounts/util.py', 'C03 C01 C07 C14 C21'),
    ('forecaster/accounts/debt.py', 'C17 C01 C03 C21'),
    ('forecaster/accounts/lin', 'C05 C06 C16'),
    ('forecaster/canada/accounts', 'C06 C07 C08 C05 C03 C21'),
    ('forecaster/canada/tax.py', 'C11 C10 C15 C21'),
    ('forecaster/canada/constants.py', 'C11 C06 C07 C20 C21'),
    ('forecaster/canada', 'C22 C20 C21'),
    ('forecaster/tax.py', 'C09 C10 C11 C15 C21'),
    ('forecaster/person.py', 'C13 C02 C10 C15 C21'),
    ('forecaster/scenario.py', 'C12 C18 C22 C09 C21'),
    ('forecaster/settings.py', 'C20 C22'),
    ('forecaster/value_reader.py', 'C20 C21'),
    ('forecaster/forecaster.py', 'C22 C18 C21 C20'),
    ('forecaster/forecast', 'C14 C15 C19 C22 C21'),
    ('forecaster/strategy/transaction', 'C16 C17 C22 C15 C21'),
    ('forecaster/strategy/debt_payment', 'C17 C16 C22 C21'),
    ('forecaster/strategy/allocation.py', 'C18 C21'),
    ('forecaster/strategy/gross_transaction.py', 'C19 C15 C21'),
    ('forecaster/strategy', 'C16 C18 C19'),
    ('forecaster', 'C22')]

BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'),
       ast.Div: ('/', '*'), ast.Pow: ('**', '*'), ast.FloorDiv: ('//', '/'),
       ast.Mod: ('%', '//')}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
TEXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
        ast.Is: 'is', ast.IsNot: 'is not'}
CALLS = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
         'sorted': 'list', 'copy': '', 'deepcopy': '', 'abs': ''}


class Source:
    def __init__(self, text):
        self.text = text
        self.bytes = text.encode()
        self.starts = [0]
        for line in self.bytes.split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)

    def at(self, line, col):
        return self.starts[line - 1] + col

    def span(self, node):
        return (self.at(node.lineno, node.col_offset),
                self.at(node.end_lineno, node.end_col_offset))

    def seg(self, a, b):
        return self.bytes[a:b].decode()


def mutations(text):
    src = Source(text)
    tree = ast.parse(text)
    out = []

    def put(a, b, new, what, line):
        if src.seg(a, b) != new:
            out.append((a, b, new, what, line))

    for node in ast.walk(tree):
        line = getattr(node, 'lineno', 0)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            old, new = BIN[type(node.op)]
            a, b = src.span(node.left)[1], src.span(node.right)[0]
            gap = src.seg(a, b)
            if gap.count(old) == 1:
                put(a, b, gap.replace(old, new), 'binop', line)
        elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            old, new = BIN[type(node.op)]
            a, b = src.span(node.target)[1], src.span(node.value)[0]
            gap = src.seg(a, b)
            put(a, b, gap.replace(old + '=', new + '='), 'augop', line)
            put(a, b, gap.replace(old + '=', '='), 'augassign', line)
        elif isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = src.span(left)[1], src.span(right)[0]
                gap = src.seg(a, b)
                for new in CMP[type(op)]:
                    put(a, b, gap.replace(TEXT[type(op)], new, 1), 'cmp',
                        line)
                left = right
        elif isinstance(node, ast.BoolOp):
            old, new = ('and', 'or') if isinstance(node.op, ast.And) \
                else ('or', 'and')
            a, b = src.span(node.values[0])[1], src.span(node.values[1])[0]
            gap = src.seg(a, b)
            put(a, b, gap.replace(old, new, 1), 'bool', line)
            for i, value in enumerate(node.values):
                x, y = src.span(value)
                put(x, y, 'True' if old == 'and' else 'False', 'clause',
                    value.lineno)
        elif isinstance(node, ast.UnaryOp):
            a, b = src.span(node)
            x, y = src.span(node.operand)
            if isinstance(node.op, (ast.Not, ast.USub)):
                put(a, b, src.seg(x, y), 'unary', line)
        elif isinstance(node, ast.Constant):
            a, b = src.span(node)
            if node.value is True:
                put(a, b, 'False', 'const', line)
            elif node.value is False:
                put(a, b, 'True', 'const', line)
            elif isinstance(node.value, (int, float)):
                put(a, b, repr(node.value + 1), 'const', line)
                if node.value not in (0, 1):
                    put(a, b, repr(node.value * 1.01), 'const', line)
                elif node.value == 1:
                    put(a, b, '0', 'const', line)
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            a, b = src.span(node.test)
            put(a, b, 'not (%s)' % src.seg(a, b), 'negate', line)
            if isinstance(node, (ast.If, ast.IfExp)):
                put(a, b, 'False', 'never', line)
                put(a, b, 'True', 'always', line)
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in CALLS:
                a, b = src.span(node.func)
                put(a, b, CALLS[node.func.id], 'call', line)
            for keyword in node.keywords:
                if keyword.arg is None:
                    continue
                a, b = src.span(keyword)
                tail = src.seg(b, b + 1)
                if tail == ',':
                    put(a, b + 1, '', 'kwarg', line)
                elif tail == ')':
                    put(a, b, '', 'kwarg', line)
            args = node.args
            if len(args) == 2 and not any(
                    isinstance(x, ast.Starred) for x in args):
                a, b = src.span(args[0])
                c, d = src.span(args[1])
                put(a, d, src.seg(c, d) + src.seg(b, c) + src.seg(a, b),
                    'swap', line)
        elif isinstance(node, ast.Return) and node.value is not None:
            a, b = src.span(node.value)
            put(a, b, 'None', 'return', line)
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign,
                             ast.Delete, ast.Raise)) \
                and not (isinstance(node, ast.Expr) and isinstance(
                    node.value, ast.Constant)):
            a, b = src.span(node)
            put(a, b, 'pass', 'drop', line)
        if isinstance(node, (ast.Break, ast.Continue)):
            a, b = src.span(node)
            put(a, b, 'pass', 'drop', line)
    return [m for m in out]


def listing():
    files = subprocess.check_output(
        ['git', '-C', REPO, 'ls-files', 'forecaster/*.py'], text=True).split()
    found = []
    for name in files:
        if name.endswith('__init__.py'):
            continue
        with open(os.path.join(REPO, name)) as file:
            text = file.read()
        src = Source(text)
        seen = set()
        for a, b, new, what, line in mutations(text):
            changed = (src.bytes[:a] + new.encode() + src.bytes[b:])
            if changed in seen:
                continue
            seen.add(changed)
            try:
                compile(changed, name, 'exec')
            except (SyntaxError, ValueError):
                continue
            found.append({
                'file': name, 'line': line, 'what': what, 'a': a, 'b': b,
                'old': src.seg(a, b), 'new': new})
    for i, m in enumerate(found):
        m['id'] = i
    return found


local = threading.local()
slots = list(range(WORKERS))
lock = threading.Lock()


def slot():
    if not hasattr(local, 'path'):
        with lock:
            k = slots.pop()
        local.path = os.path.join(WORK, 'w%d' % k)
        if os.path.exists(local.path):
            shutil.rmtree(local.path)
        shutil.copytree(REPO, local.path, ignore=shutil.ignore_patterns(
            '.git', 'docs', '__pycache__'))
    return local.path


def apply(path, m):
    name = os.path.join(path, m['file'])
    with open(os.path.join(REPO, m['file']), 'rb') as file:
        data = file.read()
    assert data[m['a']:m['b']].decode() == m['old'], m
    with open(name, 'wb') as file:
        file.write(data[:m['a']] + m['new'].encode() + data[m['b']:])


def restore(path, m):
    shutil.copy(os.path.join(REPO, m['file']), os.path.join(path, m['file']))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           VERIF_SEED='1', VERIF_NOSHRINK='1')


def run(cmd, cwd, limit, env=ENV):
    try:
        done = subprocess.run(
            cmd, cwd=cwd, env=env, timeout=limit, text=True,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return done.returncode, done.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def survives(m):
    path = slot()
    apply(path, m)
    try:
        code, _ = run(
            ['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-x',
             '-p', 'no:cacheprovider'], path, 90)
        return code == 0
    finally:
        restore(path, m)


def decide(m, only):
    path = slot()
    apply(path, m)
    ids = next(ids for prefix, ids in CHECKS
               if m['file'].startswith(prefix)).split()
    got = {}
    try:
        for check in ids:
            if only and check not in only:
                continue
            code, out = run(
                [os.path.join(VERIF, 'check'), check, '--jobs', '1',
                 '--scale', os.environ.get('MUT_SCALE', '0.5')], VERIF, 900,
                dict(ENV, FORECASTER_REPO=path))
            got[check] = code
            if code == 1:
                got['why'] = [
                    l for l in out.splitlines()
                    if not l.startswith(' ')][-2:][:1]
                break
    finally:
        restore(path, m)
    return got


def save(name, data):
    with open(os.path.join(WORK, name), 'w') as file:
        json.dump(data, file, indent=0)


def load(name):
    with open(os.path.join(WORK, name)) as file:
        return json.load(file)


def main():
    os.makedirs(WORK, exist_ok=True)
    what = sys.argv[1]
    if what == 'list':
        found = listing()
        save('mutants.json', found)
        print(len(found))
        return
    if what == 'tests':
        todo = load('mutants.json')
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
            alive = [m for m, ok in zip(todo, pool.map(survives, todo)) if ok]
        save('alive.json', alive)
        print(len(todo), len(alive))
        return
    todo, only = load('alive.json'), sys.argv[2:]
    results = []
    if os.path.exists(os.path.join(WORK, 'results.json')):
        results = load('results.json')
        done = {m['id'] for m in results}
        todo = [m for m in todo if m['id'] not in done]
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        futures = {pool.submit(decide, m, only): m for m in todo}
        for future in concurrent.futures.as_completed(futures):
            m = futures[future]
            try:
                m['got'] = future.result()
            except Exception as exc:  # pylint: disable=broad-except
                m['got'] = {'error': repr(exc)}
            results.append(m)
            save('results.json', results)
    caught = sum(1 in m['got'].values() for m in results)
    print(len(results), caught)


main()
