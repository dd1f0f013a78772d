"""mutate.py FILE... [--only REGEX] [--workers N] [--list] [--sample N]

Makes every small change of a few kinds to the given source files, runs on each
changed copy the checks of the properties that encode the changed function (as
recorded in evidence/), and lists the changes no check noticed."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CMP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'Is': 'is not', 'IsNot': 'is',
       'In': 'not in', 'NotIn': 'in'}
MAIN = {'io/traversal': 'C02 C03 C01 C25', 'io/lightning_ellipse': 'C08', 'grid/accumulate': 'C12', 'grid/split_events': 'C11 C23', 'io/convert_lcfa': 'C20',
        'io/ccd': 'C10', 'grid/clipping': 'C09 C11 C23', 'io/glm': 'C07 C06 C08 C05 C25 C21 C22 C02 C04 C03', 'io/imagery': 'C16 C18 C15 C13 C17',
        'grid/make_grids': 'C13 C14 C12 C17', 'io/mimic_lma': 'C19 C23 C11 C13 C24'}
BIN = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'FloorDiv': '/', 'Mod': '*', 'BitAnd': '|', 'BitOr': '&',
       'Pow': '*'}
SWAPS = [('flash', 'group'), ('group', 'event'), ('group', 'flash'), ('event', 'group'), ('lon', 'lat'), ('lat', 'lon'),
         ('min', 'max'), ('max', 'min'), ('start', 'end'), ('end', 'start'), ('xi', 'yi'), ('yi', 'xi'),
         ('_x', '_y'), ('_y', '_x'), ('x_', 'y_'), ('y_', 'x_'), ('floor', 'ceil'), ('sum', 'mean'), ('ceil', 'floor'),
         ('left', 'right'), ('any', 'all'), ('all', 'any'), ('parent', 'child'), ('child', 'parent'), ('upper', 'lower')]


def off(src_lines, line, col):
    # ast columns are in utf-8 bytes
    text = src_lines[line - 1].encode()[:col].decode()
    return sum(len(l) for l in src_lines[:line - 1]) + len(text)


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []

    def span(n):
        return off(lines, n.lineno, n.col_offset), off(lines, n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return src[a:b]

    def add(n, a, b, new, what, fn):
        m = src[:a] + new + src[b:]
        try:
            compile(m, path, 'exec')
        except Exception:
            return
        if m != src:
            out.append((n.lineno, fn, what, m))

    def names(n):
        return set(x.id for x in ast.walk(fnode.get(id(n), tree)) if isinstance(x, ast.Name)) if 0 else set()
    allnames = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Name):
            allnames.add(x.id)
        elif isinstance(x, ast.arg):
            allnames.add(x.arg)
        elif isinstance(x, ast.Attribute):
            allnames.add(x.attr)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
            allnames.add(x.value)
    fnode = {}

    def visit(n, fn, skip):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            inner = (fn + '.' if fn else '') + n.name
            body = n.body
            for d in (n.args.defaults + [k for k in n.args.kw_defaults if k] if isinstance(n, ast.FunctionDef) else []):
                visit(d, inner, skip)
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                visit(s, inner, skip)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr):
            t = seg(n)
            if re.match(r'(log|logging|print|warn)\b', t):
                return
            if isinstance(n.value, ast.Constant):
                return
            a, b = span(n)
            add(n, a, b, 'pass', 'drop: ' + t[:60], fn)
        if isinstance(n, ast.AugAssign):
            a, b = span(n)
            add(n, a, b, 'pass', 'drop: ' + seg(n)[:60], fn)
        if isinstance(n, ast.Assign) and fn:
            a, b = span(n)
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                add(n, a, b, 'pass', 'drop: ' + seg(n)[:60], fn)
            elif isinstance(n.value, ast.Call) and n.value.args and isinstance(n.targets[0], ast.Name):
                # x = f(x) -> nothing
                tn = n.targets[0].id
                if any(isinstance(x, ast.Name) and x.id == tn for x in ast.walk(n.value)):
                    add(n, a, b, 'pass', 'drop: ' + seg(n)[:60], fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            k = type(n.ops[0]).__name__
            a, b = span(n)
            l, r = seg(n.left), seg(n.comparators[0])
            if k in CMP:
                add(n, a, b, '(%s) %s (%s)' % (l, CMP[k], r), '%s %s -> %s' % (seg(n)[:50], k, CMP[k]), fn)
        if isinstance(n, ast.BinOp):
            k = type(n.op).__name__
            a, b = span(n)
            isstr = any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))
            if k in BIN and not isstr:
                add(n, a, b, '((%s) %s (%s))' % (seg(n.left), BIN[k], seg(n.right)), '%s %s -> %s' % (seg(n)[:50], k, BIN[k]), fn)
        if isinstance(n, ast.BoolOp):
            a, b = span(n)
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, a, b, '(' + j.join('(%s)' % seg(v) for v in n.values) + ')', 'boolop ' + seg(n)[:50], fn)
        if isinstance(n, ast.UnaryOp):
            a, b = span(n)
            add(n, a, b, '(%s)' % seg(n.operand), 'unary dropped: ' + seg(n)[:50], fn)
        if isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if isinstance(v, bool):
                add(n, a, b, repr(not v), '%r -> %r' % (v, not v), fn)
            elif isinstance(v, int):
                add(n, a, b, repr(v + 1), '%r -> %r' % (v, v + 1), fn)
            elif isinstance(v, float):
                add(n, a, b, repr(v * 1.25 if v else 1.0), '%r -> *1.25' % v, fn)
            elif isinstance(v, str):
                for x, y in SWAPS:
                    if x in v and v.replace(x, y) in allnames:
                        add(n, a, b, repr(v.replace(x, y)), '%r -> %r' % (v, v.replace(x, y)), fn)
                        break
                if v in ('x', 'y'):
                    add(n, a, b, repr('xy'['yx'.index(v)]), '%r swapped' % v, fn)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            a, b = span(n)
            for x, y in SWAPS:
                if x in n.id and n.id.replace(x, y) in allnames:
                    add(n, a, b, n.id.replace(x, y), '%s -> %s' % (n.id, n.id.replace(x, y)), fn)
                    break
            if n.id in ('x', 'y'):
                add(n, a, b, 'xy'['yx'.index(n.id)], '%s swapped' % n.id, fn)
        if isinstance(n, ast.Attribute):
            a, b = span(n)
            for x, y in SWAPS:
                if x in n.attr and n.attr.replace(x, y) in allnames:
                    add(n, a, b, seg(n.value) + '.' + n.attr.replace(x, y), '.%s -> .%s' % (n.attr, n.attr.replace(x, y)), fn)
                    break
        if isinstance(n, ast.Call):
            t = seg(n)
            if re.match(r'(log|logging|print|warn)\b', t):
                return
            for k in n.keywords:
                if k.arg:
                    rest = [seg(x) for x in n.args] + ['%s=%s' % (o.arg, seg(o.value)) if o.arg else '**' + seg(o.value)
                                                       for o in n.keywords if o is not k]
                    a, b = span(n)
                    add(n, a, b, '%s(%s)' % (seg(n.func), ', '.join(rest)), 'drop keyword %s of %s' % (k.arg, seg(n.func)[:40]), fn)
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = span(n)
                sw = [n.args[1], n.args[0]] + n.args[2:]
                rest = [seg(x) for x in sw] + ['%s=%s' % (o.arg, seg(o.value)) if o.arg else '**' + seg(o.value) for o in n.keywords]
                add(n, a, b, '%s(%s)' % (seg(n.func), ', '.join(rest)), 'swap args of %s' % seg(n.func)[:40], fn)
        if isinstance(n, ast.If):
            a, b = span(n.test)
            add(n.test, a, b, 'True', 'if True: ' + seg(n.test)[:50], fn)
            add(n.test, a, b, 'False', 'if False: ' + seg(n.test)[:50], fn)
        if isinstance(n, (ast.Break, ast.Continue)):
            a, b = span(n)
            add(n, a, b, 'pass', 'drop ' + seg(n), fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn, skip)

    visit(tree, '', False)
    return out


def properties_of():
    m = {}
    for p in sorted(os.listdir(os.path.join(VERIF, 'evidence'))):
        if re.fullmatch(r'C\d+\.json', p):
            e = json.load(open(os.path.join(VERIF, 'evidence', p)))
            for f in e['coverage']['functions_encoded']:
                m.setdefault(f, []).append((e['wall_s'], p[:-5]))
    return {k: [p for _, p in sorted(v)] for k, v in m.items()}


def run_one(job):
    path, line, fn, what, text, props, k = job
    d = tempfile.mkdtemp(prefix='mut', dir='/dev/shm')
    try:
        shutil.copytree(os.path.join(REPO, 'glmtools'), d + '/repo/glmtools',
                        ignore=shutil.ignore_patterns('*.nc', '__pycache__', 'plot'))
        shutil.copytree(os.path.join(REPO, 'examples'), d + '/repo/examples', ignore=shutil.ignore_patterns('*.nc', '*.ipynb', '*.png'))
        for f in ('glmtools/test/data', 'glmtools/plot'):
            s = os.path.join(REPO, f)
            if not os.path.exists(d + '/repo/' + f) and os.path.exists(s):
                os.symlink(s, d + '/repo/' + f)
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        open(os.path.join(d, 'repo', path), 'w').write(text)
        env = dict(os.environ, VERIF_REPO=d + '/repo', TMPDIR=d)
        errs = []
        for p in props:
            try:
                r = subprocess.run([d + '/verif/check', p, '--jobs', '2'], cwd=d + '/verif', env=env, capture_output=True, text=True,
                                   timeout=700)
            except subprocess.TimeoutExpired:
                errs.append(p + ':timeout')
                continue
            if r.returncode == 1:
                return job, 'killed ' + p, errs
            if r.returncode != 0:
                errs.append(p + ':' + ' '.join(re.findall(r'^ERROR.*', r.stdout, re.M))[:300])
        return job, 'errors' if errs else 'SURVIVED', errs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=5)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--props')
    ap.add_argument('--all', action='store_true', help='every property that encodes the function')
    ap.add_argument('--skip', help='log of earlier runs')
    ap.add_argument('--out', default='/root/mutants.log')
    a = ap.parse_args()
    pm = properties_of()
    jobs, uncovered = [], {}
    for f in a.files:
        for k, (line, fn, what, text) in enumerate(mutants(os.path.join(REPO, f))):
            if a.only and not re.search(a.only, '%s:%d:%s:%s' % (f, line, fn, what)):
                continue
            key = f.replace('glmtools/', '', 1) + ':' + fn
            props = a.props.split(',') if a.props else pm.get(key)
            if props and not a.props and not a.all:
                main = MAIN.get(f.replace('glmtools/', '', 1)[:-3], ' '.join(props)).split()
                props = [p for p in main if p in props] or props
            if not props:
                uncovered.setdefault(key, 0)
                uncovered[key] += 1
                continue
            jobs.append((f, line, fn, what, text, props, k))
    print(len(jobs), 'mutants; in functions no check encodes:', uncovered)
    if a.skip and os.path.exists(a.skip):
        done = set(l.rsplit(' | ', 1)[0] for l in open(a.skip))
        jobs = [j for j in jobs if '%s:%d %s | %s' % (j[0], j[1], j[2], j[3].replace('\n', ' ')) not in done]
    if a.sample:
        random.Random(1).shuffle(jobs)
        jobs = jobs[:a.sample]
    if a.list:
        for j in jobs:
            print('%s:%d %s | %s | %s' % (j[0], j[1], j[2], j[3].replace('\n', ' '), ','.join(j[5])))
        return
    with cf.ThreadPoolExecutor(a.workers) as ex, open(a.out, 'a') as log:
        for fut in cf.as_completed([ex.submit(run_one, j) for j in jobs]):
            j, res, errs = fut.result()
            s = '%s:%d %s | %s | %s %s' % (j[0], j[1], j[2], j[3].replace('\n', ' '), res, '; '.join(errs))
            print(s, file=log, flush=True)
            if not res.startswith('killed') or errs:
                print(s, flush=True)


if __name__ == '__main__':
    main()
