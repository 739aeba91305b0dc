#!/usr/bin/env python3
"""usage: mutate.py PID|auto N SEED FILE[:FUNC,...] ...   sample single-site mutants of repository files and list those the check of PID misses
(development aid: surviving mutants are either equivalent, outside the property, or gaps to close)"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

SWAP = {ast.Lt: ('<', ['<=', '>']), ast.LtE: ('<=', ['<', '>=']), ast.Gt: ('>', ['>=', '<']), ast.GtE: ('>=', ['>', '<=']), ast.Eq: ('==', ['!=']),
        ast.NotEq: ('!=', ['==']), ast.Is: ('is', ['is not']), ast.IsNot: ('is not', ['is'])}
BIN = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['/', '+']), ast.Div: ('/', ['*'])}


def seg(lines, a, b):
    return lines[a[0] - 1][a[1]:b[1]] if a[0] == b[0] else None


def sites(src, funcs):
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []

    def add(node_a, node_b, op, alts):
        # operator text between two nodes on one line
        if node_a.end_lineno != node_b.lineno:
            return
        ln = node_a.end_lineno - 1
        b = lines[ln].encode()
        mid = b[node_a.end_col_offset:node_b.col_offset].decode()
        if mid.count(op) != 1 or mid.strip(' ()') != op:
            return
        for alt in alts:
            out.append((ln, node_a.end_col_offset, node_b.col_offset, mid.replace(op, alt)))

    def visit(n, active):
        for c in ast.iter_child_nodes(n):
            act = active
            if isinstance(c, (ast.FunctionDef,)):
                act = active or not funcs or c.name in funcs
                if c.name in ('__repr__', '__str__'):
                    continue
            elif isinstance(c, ast.ClassDef):
                act = active or (c.name in funcs)
            if act and isinstance(n, (ast.FunctionDef, ast.stmt, ast.expr)):
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in SWAP:
                    add(c.left, c.comparators[0], *SWAP[type(c.ops[0])])
                if isinstance(c, ast.BinOp) and type(c.op) in BIN:
                    add(c.left, c.right, *BIN[type(c.op)])
                if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool) and c.lineno == c.end_lineno:
                    v = c.value
                    for alt in ([repr(v + 1), repr(v * 2)] if v else ['1']):
                        out.append((c.lineno - 1, c.col_offset, c.end_col_offset, alt))
                if isinstance(c, ast.Constant) and isinstance(c.value, bool):
                    out.append((c.lineno - 1, c.col_offset, c.end_col_offset, repr(not c.value)))
                if isinstance(c, ast.Attribute) and c.attr in ('x', 'y', 'z', 'pMin', 'pMax', 'mint', 'maxt', 'dpdu', 'dpdv', 'dndu', 'dndv', 'w2o', 'o2w') and c.end_lineno == c.lineno:
                    alt = {'x': 'y', 'y': 'z', 'z': 'x', 'pMin': 'pMax', 'pMax': 'pMin', 'mint': 'maxt', 'maxt': 'mint', 'dpdu': 'dpdv', 'dpdv': 'dpdu',
                           'dndu': 'dndv', 'dndv': 'dndu', 'w2o': 'o2w', 'o2w': 'w2o'}[c.attr]
                    out.append((c.lineno - 1, c.end_col_offset - len(c.attr), c.end_col_offset, alt))
                if isinstance(c, ast.BoolOp) and len(c.values) == 2:
                    add(c.values[0], c.values[1], 'and' if isinstance(c.op, ast.And) else 'or', ['or' if isinstance(c.op, ast.And) else 'and'])
                if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
                    out.append((c.lineno - 1, c.col_offset, c.operand.col_offset, '') if c.lineno == c.operand.lineno else None)
                if isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr)) and c.lineno == c.end_lineno and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                    out.append((c.lineno - 1, c.col_offset, c.end_col_offset, 'pass'))
            visit(c, act)
    visit(tree, not funcs)
    return [x for x in out if x]


def owners(repo):
    """function -> (file, first line, last line), and the properties whose last run analysed it"""
    where, props = {}, {}
    for d, _, fs in os.walk(os.path.join(repo, 'pytracer')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                mod = rel[:-3].replace(os.sep, '.')
                mod = mod[:-9] if mod.endswith('.__init__') else mod

                def visit(n, q):
                    for c in ast.iter_child_nodes(n):
                        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                            if isinstance(c, ast.FunctionDef):
                                where.setdefault(rel, []).append((c.lineno, c.end_lineno, q + '.' + c.name))
                            visit(c, q + '.' + c.name)
                        else:
                            visit(c, q)
                visit(ast.parse(open(p).read()), mod)
    for f in glob.glob('/verif/evidence/*.json'):
        d = json.load(open(f))
        if d['property'] in ('P25', 'P26', 'P27'):
            continue
        for q in d['coverage']['functions']:
            props.setdefault(q, set()).add(d['property'])
    return where, props


def main():
    pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    allm = []
    for a in sys.argv[4:]:
        f, _, fs = a.partition(':')
        src = open('/repo/' + f).read()
        for s in sites(src, set(fs.split(',')) if fs else set()):
            allm.append((f,) + s)
    random.Random(seed).shuffle(allm)
    print('%d mutants, sampling %d' % (len(allm), n))
    tmp = tempfile.mkdtemp(prefix='mut_')
    repo = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    k = c = 0
    where, props = owners('/repo') if pid == 'auto' else ({}, {})
    try:
        for f, ln, a, b, alt in allm[:n]:
            p = os.path.join(repo, f)
            src = open(p).read()
            lines = src.split('\n')
            raw = lines[ln].encode()
            lines[ln] = (raw[:a] + alt.encode() + raw[b:]).decode()
            new = '\n'.join(lines)
            try:
                compile(new, p, 'exec')
            except SyntaxError:
                continue
            open(p, 'w').write(new)
            if pid == 'auto':
                fn = [q for x, y, q in where.get(f, []) if x <= ln + 1 <= y]
                todo = sorted(set().union(*[props.get(q, set()) for q in fn[-1:]])) if fn else []
                todo = sorted(todo, key=lambda q: abs(int(q[1:]) - 0))[:5] + ['P27']
                if len(todo) == 1:
                    print('UNCOVERED %s' % fn, flush=True)
                    open(p, 'w').write(src)
                    continue
            else:
                todo = [pid]
            for q in todo:
                r = subprocess.run(['python3', '-W', 'ignore', '-m', 'sa', q], cwd='/verif', env=dict(os.environ, SA_REPO=repo), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, universal_newlines=True, timeout=1200)
                if r.returncode:
                    break
            open(p, 'w').write(src)
            k += 1
            if r.returncode == 1:
                c += 1
            else:
                print('MISSED rc=%d %s:%d  %s   ->   %s   [%s %s]' % (r.returncode, f, ln + 1, src.split('\n')[ln].strip(), lines[ln].strip(), ' '.join(todo), r.stdout.split('\n')[0][:90]), flush=True)
        print('%d/%d caught' % (c, k))
    finally:
        shutil.rmtree(tmp)


main()
