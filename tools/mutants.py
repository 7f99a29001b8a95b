#!/usr/bin/env python3
"""Development tool: syntactic mutants of the library against the scenarios of the checks.

    mutants.py list                        number of mutants per file
    mutants.py tests OUT.json              which mutants pass the stable tests (works on copies under /tmp/mut)
    mutants.py scenarios IN.json OUT.json [N]   which properties' scenarios give other answers for the survivors

The answers of the unchanged library stand for those of the specification here (the checks compare the two).
Not used by the checks.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'harness'))
ROOT = '/repo/spylls/hunspell'
FILES = ['algo/lookup.py', 'algo/suggest.py', 'algo/permutations.py', 'algo/ngram_suggest.py', 'algo/phonet_suggest.py',
         'algo/capitalization.py', 'algo/string_metrics.py', 'algo/trie.py', 'data/aff.py', 'data/dic.py', 'readers/aff.py',
         'readers/dic.py', 'readers/file_reader.py', 'dictionary.py']
SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}
ATTRS = {'startswith': 'endswith', 'endswith': 'startswith', 'lower': 'upper', 'upper': 'lower', 'islower': 'isupper', 'isupper': 'islower',
         'union': 'intersection', 'find': 'rfind', 'search': 'match', 'match': 'search', 'fullmatch': 'match', 'suffix': 'prefix',
         'prefix': 'suffix', 'stem': 'text', 'text': 'stem', 'BEGIN': 'MIDDLE', 'MIDDLE': 'END', 'END': 'BEGIN', 'INIT': 'ALL', 'ALL': 'HUH',
         'HUHINIT': 'INIT', 'HUH': 'HUHINIT', 'NO': 'INIT', 'strip': 'add', 'add': 'strip', 'flags': 'flag', 'start': 'end', 'end': 'start'}


def variants(node):
    """Replacements for one node: (description, new node)."""
    c = copy.deepcopy
    if isinstance(node, ast.Compare):
        for k, op in enumerate(node.ops):
            for new in SWAP.get(type(op), []):
                n = c(node)
                n.ops[k] = new()
                yield n
    if isinstance(node, ast.BoolOp):
        n = c(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield n
        for k in range(len(node.values)):
            vs = node.values[:k] + node.values[k + 1:]
            yield c(vs[0]) if len(vs) == 1 else ast.BoolOp(op=node.op, values=c(vs))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield c(node.operand)
    if isinstance(node, ast.Constant) and type(node.value) is int:
        for v in (node.value + 1, node.value - 1):
            yield ast.Constant(v)
    if isinstance(node, ast.Constant) and type(node.value) is bool:
        yield ast.Constant(not node.value)
    if isinstance(node, ast.Constant) and isinstance(node.value, str) and 0 < len(node.value) < 12:
        yield ast.Constant('')
    if isinstance(node, (ast.If, ast.While)) and isinstance(node, ast.If):
        for v in (True, False):
            n = c(node)
            n.test = ast.Constant(v)
            yield n
    if isinstance(node, ast.IfExp):
        yield c(node.body)
        yield c(node.orelse)
    if isinstance(node, (ast.Continue, ast.Break, ast.Return)) or (isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant)) \
            or isinstance(node, ast.AugAssign):
        yield ast.Pass()
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        n = c(node)
        n.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield n
        yield c(node.left)
        yield c(node.right)
    if isinstance(node, ast.Call):
        for k in range(len(node.keywords)):
            n = c(node)
            del n.keywords[k]
            yield n
        if isinstance(node.func, ast.Name) and node.func.id in NAMES:
            n = c(node)
            n.func.id = NAMES[node.func.id]
            yield n
        if isinstance(node.func, ast.Name) and node.func.id in ('reversed', 'sorted', 'set', 'list', 'abs', 'bool') and len(node.args) == 1:
            yield c(node.args[0])
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('lower', 'upper', 'strip', 'rstrip', 'replace', 'translate', 'copy'):
            yield c(node.func.value)
    if isinstance(node, ast.Attribute) and node.attr in ATTRS and isinstance(node.ctx, ast.Load):
        n = c(node)
        n.attr = ATTRS[node.attr]
        yield n
    if isinstance(node, (ast.List, ast.Tuple)) and isinstance(node.ctx, ast.Load) and len(node.elts) > 1:
        for k in range(len(node.elts)):
            n = c(node)
            del n.elts[k]
            yield n
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            n = c(node)
            n.lower = None
            yield n
        if node.upper is not None:
            n = c(node)
            n.upper = None
            yield n
    if isinstance(node, ast.comprehension) and node.ifs:
        n = c(node)
        n.ifs = []
        yield n


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target = target
        self.new = new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


SKIP = ('__repr__',)


def mutants():
    """[(file, line, description, source)]"""
    res = []
    for f in FILES:
        src = open(os.path.join(ROOT, f)).read()
        tree = ast.parse(src)
        for n in ast.walk(tree):
            for ch in ast.iter_child_nodes(n):
                ch.up = n
        for n in ast.walk(tree):
            up = n
            skip = False
            while hasattr(up, 'up'):
                if isinstance(up, ast.FunctionDef) and up.name in SKIP:
                    skip = True
                if isinstance(up, (ast.AnnAssign,)) and up.annotation is n:
                    skip = True
                if isinstance(up, ast.arg) or (isinstance(up, ast.FunctionDef) and n is up.returns):
                    skip = True
                up = up.up
            if skip or isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            # annotations
            p = n
            ann = False
            while hasattr(p, 'up'):
                if isinstance(p.up, ast.AnnAssign) and p.up.annotation is p:
                    ann = True
                if isinstance(p.up, ast.FunctionDef) and p.up.returns is p:
                    ann = True
                if isinstance(p.up, ast.arg):
                    ann = True
                p = p.up
            if ann:
                continue
            for new in variants(n):
                if ast.dump(new) == ast.dump(n):
                    continue
                old_text = ast.unparse(n) if not isinstance(n, (ast.comprehension,)) else 'comprehension'
                try:
                    new_text = ast.unparse(new) if not isinstance(new, ast.comprehension) else 'no if'
                except Exception:       # pylint: disable=broad-except
                    continue
                if isinstance(n, ast.If):
                    old_text = 'if ' + ast.unparse(n.test)
                    new_text = 'if ' + ast.unparse(new.test)
                res.append((f, getattr(n, 'lineno', getattr(getattr(n, 'up', None), 'lineno', 0)), f'{old_text}  =>  {new_text}'[:160], n, new, tree))
    return res


def source(m):
    _f, _l, _d, n, new, tree = m
    saved = {}
    # transform a copy: find the node by position in walk order
    order = list(ast.walk(tree))
    idx = next(i for i, x in enumerate(order) if x is n)
    for x in order:
        saved[id(x)] = getattr(x, 'up', None)
        if hasattr(x, 'up'):
            del x.up
    t2 = copy.deepcopy(tree)
    for x in order:
        if saved[id(x)] is not None:
            x.up = saved[id(x)]
    target = list(ast.walk(t2))[idx]
    new = copy.deepcopy(new)
    for x in ast.walk(new):
        if hasattr(x, 'up'):
            del x.up
    t2 = ast.fix_missing_locations(Replace(target, new).visit(t2))
    return ast.unparse(t2)


def copy_repo(k):
    d = f'/tmp/mut/w{k}'
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs', 'ru.dic', '*.pyc'))
    return d


def env_for(d):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(HOME='/root', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED='0', PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX='/opt/vp/no-pycache', VP_REPO=d)
    return e


def run_tests(d, out):
    e = env_for(d)
    py = '/opt/venv/bin/python'
    r = out + '.d'
    os.makedirs(r, exist_ok=True)
    try:
        for s in ('lookup', 'suggest'):
            subprocess.run([py, '/opt/vp/run_integrational.py', f'tests/integrational/test_{s}.py', f'{r}/{s}.txt'], cwd=d, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, check=False)
        subprocess.run([py, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors', '-o',
                        'junit_family=xunit2', f'--junitxml={r}/unit.xml', '--tb=line', '--ignore=tests/integrational', 'tests'], cwd=d, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90, check=False)
        subprocess.run([py, '/opt/vp/results.py', out, f'lines:{r}/*.txt', f'junit:{r}/unit.xml'], cwd=d, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30, check=False)
        passed = set(json.load(open(out))['passed'])
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return False
    finally:
        shutil.rmtree(r, ignore_errors=True)
        if os.path.exists(out):
            os.unlink(out)
    return STABLE <= passed


STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def test_part(args):
    k, items = args
    d = copy_repo(k)
    res = []
    for i, f, text in items:
        path = os.path.join(d, 'spylls/hunspell', f)
        old = open(path).read()
        open(path, 'w').write(text)
        ok = run_tests(d, f'/tmp/mut/o{k}.json')
        open(path, 'w').write(old)
        if ok:
            res.append(i)
    shutil.rmtree(d)
    return res


def tests(out):
    ms = mutants()
    items = []
    seen = set()
    for i, m in enumerate(ms):
        try:
            t = source(m)
            compile(t, 'x', 'exec')
        except Exception:       # pylint: disable=broad-except
            continue
        if (m[0], t) in seen:
            continue
        seen.add((m[0], t))
        items.append((i, m[0], t))
    print(len(items), 'mutants', flush=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    parts = [(k, items[k::8]) for k in range(8)]
    survivors = []
    with cf.ProcessPoolExecutor(8) as ex:
        for r in ex.map(test_part, parts):
            survivors += r
    texts = {i: t for i, _f, t in items}
    json.dump([{'i': i, 'file': ms[i][0], 'line': ms[i][1], 'what': ms[i][2], 'text': texts[i]} for i in sorted(survivors)], open(out, 'w'))
    print(len(survivors), 'pass the tests')


def scenarios(inp, out, n):
    import check
    import core
    job = core.Job()
    owner = []
    for prop, (gen, count) in check.PLAN.items():
        before = len(job.runs)
        b0 = len(job.bundled)
        gen(job, random.Random(f'{prop}/1/1'), 40 if prop == 'C19' else n)
        owner += [prop] * (len(job.runs) - before)
        del b0
    # without the distributed dictionaries
    keep = [i for i, note in enumerate(job.notes) if not note.startswith('distributed') and not any(ev.get('timeout') for ev in job.runs[i])]
    job.runs = [job.runs[i] for i in keep]
    owner = [owner[i] for i in keep]

    def results(repo):
        core.REPO = repo
        os.environ['VP_OP_TIMEOUT'] = '6'
        with core.Scratch() as s:
            return core.run_library(job, s, limit=100)
    base = results('/repo')
    assert None not in base
    print('scenarios', len(job.runs), flush=True)
    ms = json.load(open(inp))
    done = json.load(open(out)) if os.path.exists(out) else []
    seen = {d['i'] for d in done}
    d = copy_repo(0)
    for m in ms:
        if m['i'] in seen:
            continue
        path = os.path.join(d, 'spylls/hunspell', m['file'])
        old = open(path).read()
        open(path, 'w').write(m['text'])
        caught = {}
        try:
            got = results(d)
            for o, a, b in zip(owner, base, got):
                if a != b:
                    caught[o] = caught.get(o, 0) + 1
        except core.CheckError as e:
            caught = {'driver': str(e)[-100:]}
        except subprocess.TimeoutExpired:
            caught = {'driver': 'timeout'}
        open(path, 'w').write(old)
        done.append({k: m[k] for k in ('i', 'file', 'line', 'what')} | {'caught': caught})
        json.dump(done, open(out, 'w'))
        print(m['file'], m['line'], m['what'], '->', caught or 'NOTHING', flush=True)
    shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        ms = mutants()
        for f in FILES:
            print(f, sum(m[0] == f for m in ms))
    elif sys.argv[1] == 'tests':
        tests(sys.argv[2])
    else:
        scenarios(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 150)
