"""Systematic mutation of the library, to find what the checks miss (a tool, not a check).

    mutate.py list                         the mutants, one json object per line
    mutate.py run WORK OUT [options]       builds every mutant in copies below WORK, keeps those the tests of the
                                           repository pass, runs the checks against them and appends the outcome to OUT

Options: --jobs N, --seconds F (per check and mutant), --only REGEX (file:line), --sample N, --seed N
"""

import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
PYTHON = '/opt/venv-pypy/bin/python'
sys.path.insert(0, HERE)

COMPARE = {'Eq': '!=', 'NotEq': '==', 'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Is': 'is not', 'IsNot': 'is', 'In': 'not in',
    'NotIn': 'in'}
BINARY = {'Add': '-', 'Sub': '+', 'Mult': '//', 'FloorDiv': '*', 'Div': '*', 'Mod': '*'}


class Source(object):
    def __init__(self, path):
        self.path = path
        self.text = open(os.path.join(REPO, path), encoding='utf-8').read()
        self.starts = [0]
        for line in self.text.encode().splitlines(True):
            self.starts.append(self.starts[-1] + len(line))
        self.bytes = self.text.encode()

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def piece(self, node):
        a, b = self.span(node)
        return self.bytes[a:b].decode()


def mutants(path):
    source = Source(path)
    tree = ast.parse(source.text)
    found = []

    def add(node, new, kind):
        if path == 'scheme/timezone.py' and kind == 'text' or source.piece(node).startswith(('__all__', 'basetype')):
            return
        a, b = source.span(node)
        old = source.bytes[a:b].decode()
        if old != new and not re.match(r'(raise )?(\w*Error|Exception)\((.(?!identity|field=))*$', old):
            found.append({'file': path, 'line': node.lineno, 'a': a, 'b': b, 'old': old, 'new': new, 'kind': kind})

    def doc(node):
        return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)

    skip = set()
    for node in ast.walk(tree):
        if doc(node):
            skip.add(node.value)
        if isinstance(node, ast.JoinedStr):
            skip.update(ast.walk(node))
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            name = type(node.ops[0]).__name__
            left, right = source.piece(node.left), source.piece(node.comparators[0])
            add(node, '(%s %s %s)' % (left, COMPARE[name], right), 'compare')
            if name in ('Lt', 'LtE', 'Gt', 'GtE'):
                add(node, '(%s %s %s)' % (right, {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[name], left), 'compare-swap')
            if name in ('Is', 'IsNot', 'Eq', 'NotEq') and right == 'None':
                add(node, '(%s%s)' % ('not ' if name in ('Is', 'Eq') else '', left), 'none-falsy')
        elif isinstance(node, ast.BoolOp):
            for i, value in enumerate(node.values):
                rest = [source.piece(v) for j, v in enumerate(node.values) if j != i]
                add(node, '(%s)' % (' and ' if isinstance(node.op, ast.And) else ' or ').join('(%s)' % r for r in rest), 'drop-operand')
            swapped = ' or ' if isinstance(node.op, ast.And) else ' and '
            add(node, '(%s)' % swapped.join('(%s)' % source.piece(v) for v in node.values), 'and-or')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, '(%s)' % source.piece(node.operand), 'not')
        elif isinstance(node, ast.BinOp) and type(node.op).__name__ in BINARY:
            if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            add(node, '(%s %s %s)' % (source.piece(node.left), BINARY[type(node.op).__name__], source.piece(node.right)), 'arithmetic')
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                add(node, repr(not node.value), 'boolean')
            elif isinstance(node.value, int):
                add(node, str(node.value + 1), 'number')
            elif isinstance(node.value, str) and node.value and '\n' not in source.piece(node):
                if not (' ' in node.value or node.value in ('invalid value',)):
                    add(node, repr(node.value + 'x'), 'text')
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            add(node.test, 'True' if not isinstance(node, ast.While) else 'False', 'condition-true')
            if not isinstance(node, ast.While):
                add(node.test, 'False', 'condition-false')
        elif isinstance(node, ast.Call):
            for argument in list(node.args) + [k for k in node.keywords]:
                pieces = [source.piece(x) for x in node.args + node.keywords if x is not argument]
                if not any(isinstance(x, ast.GeneratorExp) for x in node.args):
                    add(node, '%s(%s)' % (source.piece(node.func), ', '.join(pieces)), 'drop-argument')
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
                add(node, source.piece(node.func.value), 'drop-call')
            if isinstance(node.func, ast.Name) and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
                add(node, '(%s)' % source.piece(node.args[0]), 'drop-call')
        elif isinstance(node, ast.Return) and node.value is not None and source.piece(node.value) != 'None':
            add(node.value, 'None', 'return-none')
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)) and not doc(node):
            add(node, 'pass', 'drop-statement')
        if isinstance(node, ast.Return):
            add(node, 'pass', 'drop-statement')
        if isinstance(node, ast.ExceptHandler) and node.type is not None and isinstance(node.type, ast.Tuple):
            for item in node.type.elts:
                rest = [source.piece(x) for x in node.type.elts if x is not item]
                add(node.type, '(%s,)' % ', '.join(rest), 'drop-exception')
    seen, result = set(), []
    for m in found:
        key = (m['a'], m['b'], m['new'])
        if key not in seen:
            seen.add(key)
            m['id'] = '%s:%d:%d:%s' % (path, m['line'], len(result), m['kind'])
            result.append(m)
    return result


def everything():
    result = []
    for root, dirs, names in os.walk(os.path.join(REPO, 'scheme')):
        for name in sorted(names):
            path = os.path.relpath(os.path.join(root, name), REPO)
            if name.endswith('.py') and not path.startswith('scheme/doc'):
                result += mutants(path)
    return result


def everything_of(m):
    known = [k for k in mutants(m['file']) if mark(k)[0] == m['file'] and k['old'] == m['old'] and k['new'] == m['new'] and abs(k['line'] - m['line']) < 5]
    for k in known[:1]:
        m.update(k)
    return [m] if known else []


RELEVANT = {
    'csv.py': 'P13 P33 P34 P09', 'xml.py': 'P12 P33 P34 P09', 'yaml.py': 'P11 P33 P34 P09', 'json.py': 'P10 P33 P34 P09',
    'urlencoded.py': 'P14 P33 P34', 'structuredtext.py': 'P14 P33 P34', 'exceptions.py': 'P35 P08 P28', 'element.py': 'P25',
    'surrogate.py': 'P27', 'interpolation.py': 'P23 P22', 'timezone.py': 'P29', 'datetime.py': 'P29', 'util.py': 'P31', 'format.py': 'P15 P30',
    'field.py': 'P17 P19 P20 P21 P24 P30 P32 P08 P04', 'structure.py': 'P05 P06 P16 P20 P24 P32', 'map.py': 'P06 P07 P20', 'union.py': 'P07 P20',
}


LAST = ('P15', 'P28', 'P29', 'P31', 'P33', 'P34', 'P27', 'P25', 'P18', 'P30')


def mark(m):
    return (m['file'], m['a'], m['b'], m['new'])


class Worker(object):
    def __init__(self, base, number, seconds):
        self.repo = os.path.join(base, 'repo%d' % number)
        self.verif = os.path.join(base, 'verif%d' % number)
        self.seconds = seconds
        for path in (self.repo, self.verif):
            shutil.rmtree(path, ignore_errors=True)
        shutil.copytree(REPO, self.repo, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(HERE, self.verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        self.env = dict(os.environ, HOME='/root', LANG='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
            PYTHONPYCACHEPREFIX='/nonexistent', VMON_REPO=self.repo)
        self.options = []
        self.stable, failing = self.passing()
        self.options = ['-x'] + ['--deselect=' + name for name in sorted(failing)]

    def passing(self):
        try:
            done = subprocess.run([PYTHON, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-W', 'ignore', '-rA',
                '--continue-on-collection-errors'] + self.options, cwd=self.repo, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return set(), set()
        text = done.stdout.decode('utf-8', 'replace')
        return set(re.findall(r'^PASSED (\S+)', text, re.M)), set(re.findall(r'^(?:FAILED|ERROR) (\S+)', text, re.M))

    def decide(self, m, checks):
        target = os.path.join(self.repo, m['file'])
        original = open(target, 'rb').read()
        mutated = original[:m['a']] + m['new'].encode() + original[m['b']:]
        try:
            compile(mutated, m['file'], 'exec')
        except (SyntaxError, ValueError):
            return 'invalid', None
        try:
            with open(target, 'wb') as f:
                f.write(mutated)
            if not self.stable <= self.passing()[0]:
                return 'tests', None
            try:
                env = dict(self.env, TZ='America/New_York' if 'time' in m['file'] else 'UTC')
                done = subprocess.run([PYTHON, '-W', 'ignore', 'tools/sweep.py', str(self.seconds), '2000'] + checks, cwd=self.verif, env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90 + 36 * self.seconds)
            except subprocess.TimeoutExpired:
                return 'timeout', None
            text = done.stdout.decode('utf-8', 'replace').strip().split('\n')[-1]
            if text.startswith('caught'):
                return 'caught', text[7:]
            if text != 'quiet':
                return 'no answer', text
            return 'missed', None
        finally:
            with open(target, 'wb') as f:
                f.write(original)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('mode')
    parser.add_argument('work', nargs='?')
    parser.add_argument('out', nargs='?')
    parser.add_argument('--jobs', type=int, default=6)
    parser.add_argument('--seconds', type=float, default=1.5)
    parser.add_argument('--only', default='')
    parser.add_argument('--sample', type=int)
    parser.add_argument('--seed', type=int, default=1)
    args = parser.parse_args()
    if args.mode == 'again':
        # the mutants another run missed
        todo = [m for m in map(json.loads, open(args.only)) if m['outcome'] not in ('caught', 'tests', 'invalid') and m in everything_of(m)]
    else:
        todo = [m for m in everything() if re.search(args.only, m['id'])]
    if args.mode == 'list':
        for m in todo:
            print(json.dumps(m))
        return
    import props_meta
    quick = sorted(props_meta.META, key=lambda p: (p in LAST, p))
    if args.sample:
        todo = random.Random(args.seed).sample(todo, min(args.sample, len(todo)))
    done = set()
    if os.path.exists(args.out):
        done = set(mark(json.loads(line)) for line in open(args.out))
    todo = [m for m in todo if mark(m) not in done]
    workers = Queue()
    for number in range(args.jobs):
        workers.put(Worker(args.work, number, args.seconds))
    out = open(args.out, 'a')

    def one(m):
        worker = workers.get()
        try:
            first = RELEVANT.get(os.path.basename(m['file']), '').split()
            order = [p for p in first if p in quick] + ['P36'] + [p for p in quick if p not in first and p != 'P36']
            m['outcome'], m['by'] = worker.decide(m, order)
        except Exception as error:
            m['outcome'], m['by'] = 'failed', repr(error)
        finally:
            workers.put(worker)
        out.write(json.dumps(m) + '\n')
        out.flush()

    with ThreadPoolExecutor(args.jobs) as pool:
        list(pool.map(one, todo))


if __name__ == '__main__':
    main()
