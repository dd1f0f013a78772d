"""Explores every path of every scenario of one property, in parallel, and
decides the property."""
import collections
import importlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

from . import harness
from .harness import run_concrete

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


# ------------------------------------------------------- concrete server ----

def concrete_server(conn, modname, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        from . import loader
        loader.setup_concrete()
        scns = load_scenarios(modname, tier)
    except BaseException:
        traceback.print_exc()
        os._exit(3)
    signal.signal(signal.SIGALRM, _alarm)
    while True:
        try:
            msg = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        i, inputs, limit = msg
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            r = run_concrete(scns[i], inputs)
        except Hang:
            r = {'status': 'exception', 'label': 'Hang', 'detail': 'no answer within %ss' % limit}
        except BaseException as e:
            r = {'status': 'exception', 'label': type(e).__name__, 'detail': str(e)[:300]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            conn.send(r)
        except (BrokenPipeError, OSError):
            os._exit(0)


def load_scenarios(modname, tier):
    m = importlib.import_module(modname)
    return [s for s in m.R if tier == 'thorough' or s.tier == 'quick']


# ------------------------------------------------------- symbolic worker ----

class Worker:
    def __init__(self, conn, cconn, modname, tier, opts):
        self.conn, self.cconn, self.opts = conn, cconn, opts
        from . import loader
        loader.setup_symbolic()
        self.scns = load_scenarios(modname, tier)
        self.functions = set()
        self.validated = collections.Counter()

    def concrete(self, i, inputs, limit=40):
        self.cconn.send((i, inputs, limit))
        return self.cconn.recv()

    def model_inputs(self, eng, model):
        from .core import z3
        out = {}
        for name, (kind, var) in eng.inputs.items():
            if kind == 'nan':
                out[name] = 'nan'
                continue
            v = model.eval(var, model_completion=True)
            if kind == 'bool':
                out[name] = z3.is_true(v)
            elif kind == 'int':
                out[name] = str(v.as_long())
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(15)
                out[name] = str(v.as_fraction())
        return out

    def nice_models(self, eng, extra):
        """Input assignments for the path condition plus `extra`, preferring
        values that floating point represents exactly."""
        from .core import z3
        for den in (4, 64, 4096, None):
            s = z3.Solver()
            s.set('timeout', 4000 if den else 20000)
            s.add(eng.solver.assertions())
            s.add(extra)
            if den:
                for name, (kind, var) in eng.inputs.items():
                    if kind == 'real':
                        s.add(z3.IsInt(var * den))
            t0 = time.time()
            r = s.check()
            eng.stats.solver_s += time.time() - t0
            eng.stats.queries += 1
            if r == z3.sat:
                yield self.model_inputs(eng, s.model())

    def spread_models(self, eng, extra, n):
        """Further models of the path condition, with inputs spread over their
        ranges instead of the solver's favourite corner."""
        from .core import z3
        for k in range(n):
            rng = random.Random('%s/%s/%s' % (self.opts['seed'], k, len(eng.trace)))
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(eng.solver.assertions())
            s.add(extra)
            if s.check() != z3.sat:
                return
            m = s.model()
            s.set('timeout', 300)
            names = list(eng.inputs)
            rng.shuffle(names)
            t0 = time.time()
            for name in names[:24]:
                kind, var = eng.inputs[name]
                lo, hi = eng.ranges.get(name, (None, None))
                if kind not in ('int', 'real') or lo is None or hi is None or time.time() - t0 > 3:
                    continue
                if kind == 'int':
                    v = z3.IntVal(rng.randint(int(lo), int(hi)))
                else:
                    f = Fraction(float(lo)) + (Fraction(float(hi)) - Fraction(float(lo))) * rng.randint(1, 255) / 256
                    v = z3.RealVal(f.limit_denominator(1 << 20))
                s.push()
                s.add(var == v)
                eng.stats.queries += 1
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
            eng.stats.solver_s += time.time() - t0
            yield self.model_inputs(eng, m)

    def run_path(self, i, prefix, stats):
        from . import core, loader
        from .core import z3, Engine, PathEnd, Divergence
        scn = self.scns[i]
        eng = Engine(prefix, stats, query_ms=self.opts['query_ms'],
                     deadline=self.opts['deadline'])
        core.activate(eng)
        loader.forget()       # nothing an earlier path left in a module
        ctx = harness.SymCtx(eng)
        outcome, exc = 'done', None
        prof = scn.name not in self.validated or self.validated[scn.name] < 2
        if prof:
            sys.setprofile(self._profile)
        signal.setitimer(signal.ITIMER_REAL, self.opts['path_s'])
        try:
            scn.fn(ctx, **scn.params)
        except PathEnd as e:
            outcome = 'ended'
        except Divergence:
            outcome = 'diverged'
        except Hang:
            outcome = 'hang'
        except Exception as e:
            outcome, exc = 'exception', e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if prof:
                sys.setprofile(None)
        if 'diverged' in eng.flags:
            outcome = 'diverged'
        if eng.dead or 'truncated' in eng.flags:
            outcome = 'ended' if outcome != 'diverged' else outcome
        stats.paths += 1
        if 'truncated' in eng.flags:
            stats.truncated += 1
        res = dict(scn=i, outcome=outcome, pending=eng.pending, covered=set(), flags=set(eng.flags))
        if outcome == 'ended':
            stats.ended_early += 1
            return res
        res['covered'] = ctx.covered
        if outcome == 'diverged':
            # the decisions recorded for this path did not recur; what is left
            # of it is sampled on the real code
            for inputs in self.spread_models(eng, [], 3):
                conf = self.concrete(i, inputs)
                if conf['status'] in ('violation', 'exception'):
                    res['violation'] = dict(inputs=inputs, **conf)
                    return res
            res['degraded'] = 'decisions did not recur'
            return res
        if outcome in ('exception', 'hang'):
            label = type(exc).__name__ if exc else 'Hang'
            detail = '%s @ %s' % (str(exc)[:200], harness._where(exc)) if exc else ''
            if os.environ.get('SYMX_DEBUG') and exc:
                traceback.print_exception(exc)
            if eng.ensure_model() == z3.unsat:
                stats.ended_early += 1
                return res
            conf = None
            for inputs in itertools.chain(itertools.islice(self.nice_models(eng, []), 2),
                                          self.spread_models(eng, [], 3)):
                conf = self.concrete(i, inputs)
                if conf['status'] in ('violation', 'exception'):
                    res['violation'] = dict(inputs=inputs, **conf)
                    return res
            res['degraded'] = '%s: %s (%s)' % (label, detail, (conf or {}).get('status'))
            # obligations recorded before the failure still count
        # discharge this path's obligations
        obs = [(l, t, d) for l, t, d in ctx.obligations]
        stats.obligations += len(obs)
        todo = []
        for l, t, d in obs:
            t = z3.simplify(t)
            if z3.is_true(t):
                stats.discharged += 1
            else:
                todo.append((l, t, d))
        if todo:
            neg = z3.Not(z3.And([t for _, t, _ in todo]))
            r = eng._check(neg)
            if r == z3.unsat:
                stats.discharged += len(todo)
            else:
                # one by one: isolates the failing obligation, and copes with unknown
                for l, t, d in todo:
                    r = eng._check(z3.Not(t))
                    if r == z3.unsat:
                        stats.discharged += 1
                        continue
                    if r == z3.unknown:
                        res.setdefault('inconclusive', []).append(l)
                        continue
                    last = None
                    for inputs in self.nice_models(eng, z3.Not(t)):
                        last = self.concrete(i, inputs)
                        if last['status'] in ('violation', 'exception'):
                            res['violation'] = dict(inputs=inputs, symbolic_label=l, **last)
                            return res
                    if 'realised' in eng.flags or d == 'soft':
                        res.setdefault('inconclusive', []).append(l)
                        continue
                    res['unreproduced'] = dict(label=l, detail=d, last=last)
                    if os.environ.get('SYMX_DEBUG'):
                        print('UNREPRODUCED', scn.name, l, d, last, inputs, flush=True)
                    return res
        # validate the encoding: run the real code on a model of this path
        n = self.validated[scn.name]
        self.validated[scn.name] += 1
        if outcome == 'done' and (n < self.opts['validate_first'] or n % self.opts['validate_every'] == 0):
            for inputs in itertools.chain(self.spread_models(eng, [], 1 if n % 3 else 0), self.nice_models(eng, [])):
                conf = self.concrete(i, inputs)
                if conf['status'] in ('violation', 'exception'):
                    res['violation'] = dict(inputs=inputs, **conf)
                    return res
                if conf['status'] == 'assume':
                    continue
                bad = self.compare(ctx, eng, inputs, conf)
                res['validated'] = (bad is None)
                res['sample'] = dict(scenario=scn.name, inputs=inputs, decisions=len(eng.trace))
                if bad is not None:
                    res['mismatch'] = '%s: %s inputs=%s' % (scn.name, bad, json.dumps(inputs)[:600])
                    if os.environ.get('SYMX_DEBUG'):
                        print('MISMATCH', res['mismatch'], flush=True)
                break
        return res

    def compare(self, ctx, eng, inputs, conf):
        """Symbolic observations under the chosen inputs vs the real run."""
        from .core import z3, is_sym, term_of, bool_term, SymBool
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(eng.solver.assertions())
        for name, (kind, var) in eng.inputs.items():
            if kind == 'nan':
                continue
            v = inputs[name]
            s.add(var == (z3.BoolVal(v) if kind == 'bool' else
                          (z3.IntVal(v) if kind == 'int' else z3.RealVal(v))))
        if s.check() != z3.sat:
            return None
        m = s.model()

        def ev(v):
            if is_sym(v):
                if isinstance(v, SymBool):
                    return z3.is_true(m.eval(v.e, model_completion=True))
                r = m.eval(term_of(v), model_completion=True)
                if z3.is_algebraic_value(r):
                    r = r.approx(15)
                try:
                    return float(r.as_fraction())
                except Exception:
                    return None
            import numpy as np
            if isinstance(v, np.ndarray):
                return [ev(x) for x in v.reshape(-1).tolist()]
            if isinstance(v, (list, tuple)):
                return [ev(x) for x in v]
            return harness._obs(v)

        def same(a, b):
            if a is None or b is None:
                return True
            if isinstance(a, list) or isinstance(b, list):
                return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
                    all(same(x, y) for x, y in zip(a, b))
            if isinstance(a, str) or isinstance(b, str):
                return True
            a, b = float(a), float(b)
            if a != a or b != b:
                return (a != a) == (b != b)
            if a in (float('inf'), -float('inf')):
                return a == b
            return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
        co = conf.get('observed', [])
        if len(co) != len(ctx.observed):
            return 'observation count %d vs %d' % (len(ctx.observed), len(co))
        for (l, sv), (cl, cv) in zip(ctx.observed, co):
            e = ev(sv)
            if not same(e, cv):
                return 'observation %s: encoded %r, real %r' % (l, str(e)[:160], str(cv)[:160])
        return None

    def _profile(self, frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_name.startswith('<'):
                return
            if '/glmtools/' in c.co_filename:
                self.functions.add(c.co_filename.split('/glmtools/', 1)[1] + ':' + c.co_qualname)
            elif '/examples/' in c.co_filename:
                self.functions.add('examples/' + c.co_filename.split('/examples/', 1)[1] + ':' + c.co_qualname)

    def loop(self):
        from .core import Stats
        signal.signal(signal.SIGALRM, _alarm)
        while True:
            try:
                task = self.conn.recv()
            except (EOFError, OSError):
                return
            if task is None:
                return
            i, prefix = task
            stats = Stats()
            stack = [prefix]
            out = dict(scn=i, done=[], stats=None, left=[])
            t0 = time.time()
            agg = collections.Counter()
            samples, covered, problems = [], set(), []
            viol = None
            while stack:
                p = stack.pop()
                try:
                    res = self.run_path(i, p, stats)
                except Hang:
                    agg['hang'] += 1
                    continue
                except BaseException as e:
                    agg['engine_error'] += 1
                    problems.append(('engine', ''.join(traceback.format_exception(e))[-1500:]))
                    continue
                stack.extend(res['pending'])
                agg[res['outcome']] += 1
                covered |= res['covered']
                if 'realised' in res['flags']:
                    agg['realised_paths'] += 1
                if 'clip-bound' in res['flags']:
                    agg['clip_bound'] += 1
                if res.get('violation'):
                    viol = res['violation']
                    break
                for k in ('degraded', 'unreproduced', 'mismatch', 'inconclusive'):
                    if res.get(k):
                        agg[k] += 1
                        problems.append((k, res[k]))
                if 'validated' in res:
                    agg['validated'] += 1
                    samples.append(res['sample'])
                if time.time() - t0 > self.opts['slice_s'] or time.time() > self.opts['deadline']:
                    break
            out.update(stats=stats.as_dict(), left=stack, agg=dict(agg), samples=samples[:2],
                       covered=covered, problems=problems[:5], violation=viol,
                       functions=sorted(self.functions))
            self.conn.send(out)


def worker_main(conn, cconn, modname, tier, opts):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    try:
        w = Worker(conn, cconn, modname, tier, opts)
        conn.send('ready')
        w.loop()
    except BaseException:
        traceback.print_exc()
        try:
            conn.send(('failed', traceback.format_exc()[-2000:]))
        except Exception:
            pass
    os._exit(0)


# ------------------------------------------------------------- master -------

def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def run_property(pid, tier='quick', seed=1, budget=None, only=None, jobs=None):
    t_start = time.time()
    modname = 'symx.props.' + pid.lower()
    # heavy libraries are imported once, before forking
    import numpy, pandas, xarray, scipy, pyclipper  # noqa
    from .z3load import z3  # noqa
    budget = budget or (600 if tier == 'quick' else 3000)
    deadline = t_start + budget
    opts = dict(query_ms=15000 if tier == 'quick' else 60000, deadline=deadline,
                slice_s=1.0, path_s=120 if tier == 'quick' else 600,
                validate_first=3, validate_every=40, seed=seed)
    n = jobs or NPROC
    ctx = mp.get_context('fork')
    workers = []
    for _ in range(n):
        a, b = ctx.Pipe()
        c, d = ctx.Pipe()
        ps = ctx.Process(target=concrete_server, args=(d, modname, tier), daemon=True)
        ps.start()
        pw = ctx.Process(target=worker_main, args=(b, c, modname, tier, opts), daemon=True)
        pw.start()
        d.close()
        b.close()
        c.close()
        workers.append((a, pw, ps))
    # the master needs names and bounds only
    from . import loader
    loader.setup_concrete()
    scns = load_scenarios(modname, tier)
    mod = importlib.import_module(modname)
    queue = collections.deque()
    for i, s in enumerate(scns):
        if only is None or re.search(only, s.name):
            queue.append((i, []))
    per = {i: collections.Counter() for i in range(len(scns))}
    covered = {i: set() for i in range(len(scns))}
    problems, samples, functions = [], [], set()
    idle, busy = [], {}
    violation = None
    known_hits = collections.Counter()
    known = [k for k in known_findings() if k[0] == pid]
    error = None
    alive = {w[0]: w for w in workers}
    starting = set(alive)
    outstanding = 0
    while True:
        while idle and queue:
            conn = idle.pop()
            t = queue.popleft() if len(queue) < 200 else queue.pop()
            busy[conn] = t
            conn.send(t)
        if not queue and not busy and not (starting and False):
            if not (starting and per and outstanding == 0 and sum(p['paths'] for p in per.values()) == 0):
                break
        if time.time() > deadline + 60:
            break
        ready = mpc.wait(list(alive), timeout=5)
        for conn in ready:
            try:
                msg = conn.recv()
            except (EOFError, OSError):
                t = busy.pop(conn, None)
                alive.pop(conn)
                starting.discard(conn)
                if t is not None:
                    per[t[0]]['lost'] += 1
                    problems.append(('lost', 'worker died on %s' % scns[t[0]].name))
                if not alive:
                    error = error or 'all workers died'
                continue
            if msg == 'ready':
                starting.discard(conn)
                idle.append(conn)
                continue
            if isinstance(msg, tuple) and msg[0] == 'failed':
                error = msg[1]
                alive.pop(conn)
                continue
            busy.pop(conn)
            idle.append(conn)
            i = msg['scn']
            outstanding += 1
            for k, v in msg['stats'].items():
                per[i][k] += v
            for k, v in msg['agg'].items():
                per[i]['n_' + k] += v
            covered[i] |= msg['covered']
            problems.extend((k, scns[i].name, v) for k, v in msg['problems'])
            samples.extend(msg['samples'])
            functions.update(msg['functions'])
            if msg['violation']:
                v = msg['violation']
                sig = '%s|%s|%s' % (scns[i].name, v.get('label'), v.get('detail'))
                for _, pat, text in known:
                    if re.search(pat, sig):
                        known_hits[text] += 1
                        break
                else:
                    violation = (i, v)
            if time.time() < deadline:
                for p in msg['left']:
                    queue.append((i, p))
            elif msg['left']:
                per[i]['unexplored'] += len(msg['left'])
        if violation or error:
            break
        if time.time() > deadline:
            for i, p in queue:
                per[i]['unexplored'] += 1
            queue.clear()
    for conn, pw, ps in workers:
        for p in (pw, ps):
            if p.is_alive():
                p.terminate()
    for conn, pw, ps in workers:
        for p in (pw, ps):
            p.join(timeout=2)
            if p.is_alive():
                p.kill()
    return report(pid, mod, scns, tier, seed, per, covered, problems, samples, functions,
                  violation, known_hits, error, time.time() - t_start, only)


def report(pid, mod, scns, tier, seed, per, covered, problems, samples, functions,
           violation, known_hits, error, wall, only):
    tot = collections.Counter()
    for c in per.values():
        tot.update(c)
    selected = [i for i, s in enumerate(scns) if only is None or re.search(only, s.name)]
    missing, vac = [], []
    if not violation and not error:
        for i in selected:
            if (per[i]['obligations'] == 0 and not per[i]['n_degraded']) or \
                    per[i]['n_done'] + per[i]['n_exception'] == 0:
                vac.append(scns[i].name)
            for c in scns[i].covers:
                if c not in covered[i]:
                    missing.append('%s:%s' % (scns[i].name, c))
    cov = dict(
        functions_encoded=sorted(functions),
        bounds={scns[i].name: scns[i].bounds for i in selected},
        scenarios={scns[i].name: dict(paths=per[i]['paths'], completed=per[i]['n_done'],
                                      assumptions_unsatisfied=per[i]['ended_early'],
                                      obligations=per[i]['obligations'], discharged=per[i]['discharged'],
                                      branch_decisions=per[i]['decisions'], queries=per[i]['queries'],
                                      solver_s=round(per[i]['solver_s'], 3),
                                      unexplored=per[i]['unexplored'],
                                      covered=sorted(covered[i]))
                   for i in selected},
        queries_discharged=int(tot['queries']), solver_unknown=int(tot['unknown']),
        solver_time_s=round(tot['solver_s'], 3),
        obligations=int(tot['obligations']), discharged=int(tot['discharged']),
        states=int(tot['paths']), transitions=int(tot['decisions']),
        traces_validated_against_impl=int(tot['n_validated']),
        encoding_mismatches=int(tot['n_mismatch']),
        paths_realised=int(tot['n_realised_paths']), paths_degraded=int(tot['n_degraded']),
        inconclusive=int(tot['n_inconclusive']),
        exhausted=bool(tot['unexplored'] == 0 and tot['truncated'] == 0 and tot['n_lost'] == 0
                       and not violation),
        reachability_missing=missing, vacuous=vac,
        known_findings_hit=dict(known_hits),
        problems=[str(p)[:400] for p in problems[:12]],
        samples=samples[:6] or ['none'])
    ev = dict(property=pid, tier=tier, seed=int(seed), level='model_checking',
              coverage=cov, wall_s=round(wall, 2),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              violations=0)
    rc = 0
    out = []
    if violation:
        i, v = violation
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, scenario=scns[i].name, tier=tier, inputs=v['inputs'],
                       label=v.get('label'), detail=v.get('detail'),
                       how='cd /verif && ./check --replay evidence/replay/%s.json' % pid),
                  open(path, 'w'), indent=1)
        ev['violations'] = 1
        cov['counterexample'] = dict(scenario=scns[i].name, label=str(v.get('label')),
                                     detail=str(v.get('detail')), inputs=v['inputs'])
        out.append('counterexample in %s: %s %s' % (scns[i].name, v.get('label'), v.get('detail')))
        out.append('inputs: ' + json.dumps(v['inputs'])[:800])
        out.append('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif error:
        out.append('ERROR ' + error)
        rc = 3
    else:
        for t, k in known_hits.items():
            out.append('KNOWN-FINDING: property=%s %s' % (pid, t))
        if tot['n_unreproduced']:
            out.append('ERROR counterexample did not reproduce on the real code')
            rc = 2
        if vac:
            out.append('ERROR vacuous scenarios: %s' % vac)
            rc = 2
        if missing and tot['unexplored']:
            out.append('note: time ran out before these witnesses were reached: %s' % missing)
        elif missing and not tot['n_degraded']:
            out.append('ERROR reachability witnesses missing: %s' % missing)
            rc = 2
        if tot['n_mismatch'] > max(1, 0.05 * tot['n_validated']):
            out.append('ERROR encoding disagrees with the real code')
            rc = 2
        if tot['n_engine_error']:
            out.append('ERROR engine failure')
            rc = 2
        for p in problems[:8]:
            out.append('note: ' + str(p)[:700])
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    out.append('%s %s tier=%s paths=%d decisions=%d queries=%d obligations=%d/%d validated=%d '
               'realised=%d degraded=%d inconclusive=%d unexplored=%d solver=%.1fs wall=%.1fs' % (
                   pid, {0: 'held', 1: 'VIOLATED'}.get(rc, 'ERROR'), tier, tot['paths'], tot['decisions'],
                   tot['queries'], tot['discharged'], tot['obligations'], tot['n_validated'],
                   tot['n_realised_paths'], tot['n_degraded'], tot['n_inconclusive'], tot['unexplored'],
                   tot['solver_s'], wall))
    return rc, out


def replay(path):
    from . import loader
    loader.setup_concrete()
    d = json.load(open(path))
    scns = load_scenarios('symx.props.' + d['property'].lower(), 'thorough')
    for s in scns:
        if s.name == d['scenario']:
            r = run_concrete(s, d['inputs'])
            return r
    raise SystemExit('scenario not found: ' + d['scenario'])
