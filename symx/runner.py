"""Explores every harness of a property with a pool of worker processes and writes the evidence."""
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = '/opt/venv/bin/python'


class RealServer:
    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        py = REALPY if os.path.exists(REALPY) else sys.executable
        self.p = subprocess.Popen([py, os.path.join(HERE, 'symx', 'real_run.py'), self.prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get('SYMX_DEBUG') else None,
                                  text=True, env=env)
        if not self._read(60):
            raise RuntimeError('replay process did not start')

    def _read(self, timeout):
        t = time.time()
        while time.time() - t < timeout:
            r, _, _ = select.select([self.p.stdout], [], [], 0.5)
            if r:
                return self.p.stdout.readline()
            if self.p.poll() is not None:
                return None
        return None

    def ask(self, harness, cfg, inputs, tier, timeout=60):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps({'harness': harness, 'cfg': cfg, 'inputs': inputs, 'tier': tier}) + '\n')
                self.p.stdin.flush()
                line = self._read(timeout)
            except (BrokenPipeError, OSError):
                line = None
            if line:
                return json.loads(line)
            self.close()
        return {'exc': None, 'checks': [], 'msg': 'no answer from the replay process', 'dead': True, 'invalid': True,
                'ambiguous': False, 'in_repo': False, 'observed': [], 'missing': []}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


def plain(v):
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 and abs(v) < 2 ** 53 else float(v)
    if isinstance(v, bool) or isinstance(v, int):
        return v
    return float(v)


class Worker:
    def __init__(self, prop, harnesses, tier, seed, record_first):
        from . import core, api, syms, stubs, loader
        self.core, self.api, self.syms, self.stubs, self.loader = core, api, syms, stubs, loader
        self.prop, self.hs, self.tier, self.seed = prop, harnesses, tier, seed
        self.server = RealServer(prop)
        self.task = None
        self.validated = {}
        self.findings = api.listed_findings(prop)
        self.hits = set()
        self.outside_tried = {}

    def clear(self):
        c = self.core
        c.ATOMS.clear()
        c.ATOM_BY_KEY.clear()
        keep = {k: f for k, f in c.Fm.table.items() if f is c.TRUE or f is c.FALSE}
        c.Fm.table.clear()
        c.Fm.table.update(keep)
        c.MONO.clear()
        c.MONO_VAR.clear()
        c._PSD.clear()
        c.ATAN2_CS.clear()
        c._CC.clear()
        c.CTX.memo.clear()

    # -- results of one slice
    def fresh(self):
        return dict(paths=0, infeasible=0, inconclusive=[], checks=0, trivial=0, discharged=0, boundary=0, undecided=[],
                    violation=None, labels={}, spurious=[], samples=[], validate=[], errors=[], vacuous_ok=0, replayed_ok=0, hits=[])

    def slice(self, hi, ci, work, seconds, deadline):
        h = self.hs[hi]
        cfg = h.configs(self.tier)[ci]
        out_key = '%d.%d' % (hi, ci)
        if self.task != (hi, ci):
            self.clear()
            self.task = (hi, ci)
            self.core.Env.rng = random.Random(self.seed * 1000 + hi * 17 + ci)
        out = self.fresh()
        out['harness_cfg'] = out_key
        self.core.STATS.clear()
        self.loader.reset_recording()
        t0 = time.time()
        work = list(work)
        while work and time.time() - t0 < seconds and time.time() < deadline and not out['violation']:
            prefix, wit = work.pop()
            self.path(h, cfg, prefix, wit, out)
            tr = self.core.CTX.trace
            for k in range(len(prefix), len(tr)):
                e = tr[k]
                if e[3]:
                    flipped = (e[0], e[1], not e[2], False)
                    work.append(([x[:4] for x in tr[:k]] + [flipped], e[4] if len(e) > 4 else None))
            if len(self.core.ATOMS) > 150000:
                self.clear()
        out['stats'] = dict(self.core.STATS)
        out['functions'] = dict(self.loader.EXECUTED)
        out['left'] = work
        out['wall'] = time.time() - t0
        return out

    def path(self, h, cfg, prefix, wit, out):
        core, api = self.core, self.api
        C = core.CTX
        C.reset(prefix, wit)
        C.deadline = time.time() + (40 if self.tier == 'quick' else 200)
        self.stubs.LOG[:] = []
        self.stubs.HOOKS.clear()
        self.stubs.STORE.clear()
        state = dict(checked=0)

        def on_check(name, f, known):
            self.check(h, cfg, name, f, out, state)
        S = api.set_s(self.syms.SymS(cfg, self.tier, on_check))
        S.findings = self.findings
        S.on_known = lambda finding, good: self.known(h, cfg, finding, good, out)
        from .scratch import Scratch
        S.scratch = Scratch()
        try:
            h.fn(S, **cfg)
            out['paths'] += 1
            if state['checked']:
                out['vacuous_ok'] += 1
            self.sample(h, cfg, S, out)
        except core.PathStop:
            out['infeasible'] += 1
        except core.CheckFailed:
            out['paths'] += 1
        except core.Inconclusive as e:
            out['inconclusive'].append(('%s: %s' % (h.name, e), self.where()))
            if 'time limit' not in str(e):
                self.outside(h, cfg, out)
        except Exception as e:
            tb = sys.exc_info()[2]
            msg = '%s: %s: %s' % (h.name, type(e).__name__, str(e)[:200])
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            if not api.in_repo(tb, self.loader.REPO) and not (type(e).__name__ in UNUSABLE and api.in_harness(tb, self.loader.REPO)):
                out['errors'].append((msg, ''.join(traceback.format_tb(tb)[-2:])))
                self.outside(h, cfg, out)
            else:
                self.exception(h, cfg, e, msg, tb, out)
        finally:
            S.scratch.close()

    def outside(self, h, cfg, out):
        """the path left what can be encoded: nothing is decided for it, but inputs that take it are tried on the real code"""
        core = self.core
        C = core.CTX
        if self.outside_tried.get((h.name, out['harness_cfg']), 0) >= 6:
            return
        self.outside_tried[(h.name, out['harness_cfg'])] = self.outside_tried.get((h.name, out['harness_cfg']), 0) + 1
        try:
            if C.samples is None:
                C.start_samples()
            cands = [self.inputs_from(None, s) for s in (C.samples or [])[:3]]
            if len(cands) < 2:
                r, m = core.raw_solve(C.relevant(C.pc), core.CHECK_PLAN[:3], True) if C.pc else ('sat', {})
                if r == 'sat':
                    cands.append(self.inputs_from(m))
        except Exception:
            return
        failing = {}
        for i in cands:
            r = self.replay(h, cfg, i)
            if r['invalid'] or r['ambiguous']:
                continue
            bad = [n for n, v in r['checks'] if v is False]
            if r['exc'] and r['in_repo']:
                bad.append('exception ' + r['exc'] + ': ' + r['msg'])
            if not bad and not r['exc'] and r['checks']:
                out['replayed_ok'] += 1
            for n in dict.fromkeys(bad):
                failing.setdefault(n, []).append(i)
        for n, inputs in failing.items():       # one failing input could be a matter of rounding
            if len(inputs) > 1 or len(cands) == 1:
                self.confirm(h, cfg, inputs[0], out, n)
                return

    def where(self):
        tb = sys.exc_info()[2]
        fs = [f for f in traceback.extract_tb(tb) if '/symx/' not in f.filename]
        return '%s:%d' % (os.path.basename(fs[-1].filename), fs[-1].lineno) if fs else ''

    def inputs_from(self, model, env=None):
        """complete input assignment: model values, otherwise a sample of the path"""
        core = self.core
        C = core.CTX
        vals = core.input_values(model or {})
        if env is None:
            if C.samples is None:
                C.start_samples()
            env = C.samples[0] if C.samples else core.Env()
        res = {}
        for name, a, kind in C.inputs:
            v = vals.get(a.id)
            if v is None:
                v = env.atom(a.id)
            res[name] = plain(v)
        return res

    def replay(self, h, cfg, inputs):
        self.core.STATS.add('replays')
        return self.server.ask(h.name, cfg, inputs, self.tier)

    def confirm(self, h, cfg, inputs, out, name, want_exc=None):
        r = self.replay(h, cfg, inputs)
        bad = [n for n, v in r['checks'] if v is False]
        if r['exc'] and r['in_repo']:
            bad.append('exception ' + r['exc'] + ': ' + r['msg'])
        elif r['exc'] and r.get('in_harness') and (want_exc is None or r['exc'] == want_exc):
            bad.append('unusable result, %s: %s' % (r['exc'], r['msg']))
        if r['invalid'] and not [n for n, v in r['checks'] if v is False]:
            bad = []
        if r['exc'] and not r['in_repo'] and not bad:
            out['errors'].append(('replay: %s %s' % (r['exc'], r['msg']), r.get('tb', '')))
        if bad:
            out['violation'] = dict(property=self.prop, harness=h.name, cfg=cfg, inputs=inputs, failing=bad,
                                    symbolic_check=name, tier=self.tier, traceback=r.get('tb', ''))
            return True
        return False

    def exception(self, h, cfg, e, msg, tb, out):
        core = self.core
        C = core.CTX
        name = 'no unexpected %s' % type(e).__name__
        cands = []
        if C.samples is None:
            C.start_samples()
        for s in (C.samples or [])[:2]:
            cands.append(self.inputs_from(None, s))
        r, m = core.raw_solve(C.relevant(C.pc), core.CHECK_PLAN, True) if C.pc else ('sat', {})
        if r == 'unsat':
            out['infeasible'] += 1
            return
        if r == 'sat':
            cands.append(self.inputs_from(m))
        for i in cands[:3]:
            if self.confirm(h, cfg, i, out, name, type(e).__name__):
                return
        out['errors'].append((msg, ''.join(traceback.format_tb(tb)[-3:])))

    def check(self, h, cfg, name, f, out, state):
        core = self.core
        C = core.CTX
        out['checks'] += 1
        state['checked'] += 1
        out['labels'][name] = out['labels'].get(name, 0) + 1
        if f is core.TRUE or C.known.get(f) is True:
            out['trivial'] += 1
            out['discharged'] += 1
            return
        nf = core.f_not(f)
        if C.samples is None:
            C.start_samples()
        if f is not core.FALSE:
            for s in list(C.samples):
                if core.f_eval(f, s) is False:
                    if self.confirm(h, cfg, self.inputs_from(None, s), out, name):
                        raise core.CheckFailed()
                    break
        if f is core.FALSE or C.known.get(f) is False:
            r, m = (core.raw_solve(C.relevant(C.pc), core.CHECK_PLAN, True) if C.pc else ('sat', {}))
        else:
            r, m = C.solve([nf], core.CHECK_PLAN, True)
        if os.environ.get('SYMX_DEBUG') and r != 'unsat':
            print('CHECK', name, r, nf.show()[:600], file=sys.stderr)
        if r == 'unsat':
            out['discharged'] += 1
            return
        cand = 0
        if r == 'sat':
            cand += 1
            if self.confirm(h, cfg, self.inputs_from(m), out, name):
                raise core.CheckFailed()
        if f is core.FALSE or C.known.get(f) is False:
            for s in C.samples[:3]:
                cand += 1
                if self.confirm(h, cfg, self.inputs_from(None, s), out, name):
                    raise core.CheckFailed()
        # robust counterexamples only
        verdicts = []
        for eps in (Fraction(1, 20), Fraction(1, 1000), Fraction(1, 10 ** 6)):
            rob = core.f_margin(f, eps, False)
            if rob is core.FALSE:
                verdicts.append('unsat')
                continue
            rel = C.relevant([nf] + C.pc)       # the whole path: it may be feasible on a boundary only
            pcs = set(C.pc)
            fs = [core.f_margin(g, eps, True) if g in pcs else g for g in rel if g is not nf]
            extra = [rob]
            _, defs = core.closure(set().union(*[g.atoms() for g in fs + extra]))
            fs = list(dict.fromkeys(fs + extra + defs))
            if any(g is core.FALSE for g in fs):
                verdicts.append('unsat')
                continue
            rr, mm = core.raw_solve(fs, core.CHECK_PLAN, True)
            verdicts.append(rr)
            if rr == 'sat':
                cand += 1
                if self.confirm(h, cfg, self.inputs_from(mm), out, name):
                    raise core.CheckFailed()
        where = (h.name, name, json.dumps(cfg, default=repr))
        if os.environ.get('SYMX_DEBUG'):
            print('MARGINS', name, r, verdicts, file=sys.stderr)
        if verdicts and verdicts[-1] == 'unsat':
            out['boundary'] += 1
        elif 'sat' in verdicts or r == 'sat':
            out['spurious'].append(where + (str(verdicts),))
        else:
            out['undecided'].append(where + (str(verdicts),))

    def known(self, h, cfg, finding, good, out):
        """shows that a listed finding still occurs"""
        core = self.core
        C = core.CTX
        if finding in self.hits or good is core.TRUE:
            return
        r, m = C.solve([core.f_not(good)], core.CHECK_PLAN, True) if good is not core.FALSE else ('sat', {})
        if r == 'sat' and finding in self.replay(h, cfg, self.inputs_from(m)).get('hits', ()):
            self.hits.add(finding)
            out['hits'].append(finding)

    # -- path samples, some of them pushed through the real code
    def sample(self, h, cfg, S, out):
        core = self.core
        C = core.CTX
        key = (h.name, json.dumps(cfg, default=repr))
        n = self.validated.get(key, 0)
        if n >= 2 or len(out['validate']) >= 2:
            return
        if C.samples is None:
            C.start_samples()
        if not C.samples:
            return
        env = C.samples[-1]
        inputs = self.inputs_from(None, env)
        obs = []
        for nm, v in S.observed:
            obs.append((nm, self.evaluate(v, env, S)))
        self.validated[key] = n + 1
        out['validate'].append((h.name, cfg, inputs, obs))
        out['samples'].append(dict(harness=h.name, cfg=cfg, path_condition=[g.show()[:160] for g in C.pc[:12]], inputs=inputs))

    def evaluate(self, v, env, S):
        core = self.core
        s = S._seq(v)
        if s is not None:
            return [self.evaluate(x, env, S) for x in s]
        if isinstance(v, core.SymBool):
            return core.f_eval(v.f, env)
        if S._isnum(v):
            n = S._n(v)
            return env.poly(n.p)[0] if isinstance(n, core.SymNum) else float(n)
        return repr(v)


# what a harness meets when the code leaves out a result, or gives one of another shape or type
UNUSABLE = ('KeyError', 'IndexError', 'AttributeError', 'TypeError', 'ValueError', 'StopIteration')


def worker_main(conn, prop, harnesses, tier, seed):
    from .core import end_with_parent
    end_with_parent()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    if not os.environ.get('SYMX_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    w = Worker(prop, harnesses, tier, seed, True)
    from . import loader
    loader.start_recording()
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            hi, ci, work, seconds, deadline = msg
            try:
                r = w.slice(hi, ci, work, seconds, deadline)
            except MemoryError:
                r = w.fresh()
                r.update(left=[], stats={}, functions={}, wall=0)
                r['inconclusive'].append(('out of memory', ''))
            conn.send(r)
    except EOFError:
        pass
    finally:
        w.server.close()


def close_enough(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close_enough(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return True
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= 1e-6 + 1e-5 * max(abs(a), abs(b))


def loader_findings(prop):
    from . import api
    return api.listed_findings(prop)


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('only='):
            only = a[5:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t_start = time.time()
    budget = float(os.environ.get('SYMX_BUDGET', '150' if tier == 'quick' else '780'))
    deadline = t_start + budget
    nproc = int(os.environ.get('SYMX_PROCS', '8'))
    from . import loader
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    loader.install_sym()
    from . import core, reg
    core.SEED = seed
    harnesses = reg.load(prop)
    tasks = [(hi, ci) for hi, h in enumerate(harnesses) for ci in range(len(h.configs(tier)))
             if only is None or h.name == only]
    ctx = mp.get_context('fork')
    conns, procs = [], []
    n = min(nproc, max(1, len(tasks) * 4))
    for _ in range(n):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, prop, harnesses, tier, seed), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    queue = [(hi, ci, [([], None)]) for hi, ci in tasks]
    pending = {}
    idle = list(conns)
    agg = {t: dict(paths=0, infeasible=0, checks=0, trivial=0, discharged=0, boundary=0, vacuous_ok=0, replayed_ok=0, wall=0.0, left=0)
           for t in tasks}
    inconclusive, undecided, spurious, errors, samples, validate = [], [], [], [], [], []
    stats = {}
    functions = {}
    hits = set()
    violation = None
    labels = {}
    unfinished = 0
    while (queue or pending) and not violation:
        while queue and idle and time.time() < deadline:
            hi, ci, work = queue.pop(0)
            c = idle.pop()
            # hand out part of the frontier when others wait
            if len(work) > 1 and len(idle) > len(queue):
                k = max(1, len(work) // (len(idle) - len(queue) + 1))
                for i in range(k, len(work), k):
                    queue.append((hi, ci, work[i:i + k]))
                work = work[:k]
            c.send((hi, ci, work, 1.0 if time.time() - t_start < 10 else 3.0, deadline))
            pending[c] = (hi, ci, time.time())
        if not pending:
            break
        ready = mpc.wait(list(pending), timeout=1.0)
        for c in ready:
            hi, ci, _ = pending.pop(c)
            try:
                r = c.recv()
            except EOFError:
                inconclusive.append(('worker ended unexpectedly in %s' % harnesses[hi].name, ''))
                continue
            idle.append(c)
            g = agg[(hi, ci)]
            for k in ('paths', 'infeasible', 'checks', 'trivial', 'discharged', 'boundary', 'vacuous_ok', 'replayed_ok', 'wall'):
                g[k] += r[k]
            for k, v in r['stats'].items():
                stats[k] = stats.get(k, 0) + v
            functions.update(r['functions'])
            for k, v in r['labels'].items():
                labels[harnesses[hi].name + ': ' + k] = labels.get(harnesses[hi].name + ': ' + k, 0) + v
            inconclusive += r['inconclusive']
            undecided += r['undecided']
            spurious += r['spurious']
            errors += r['errors']
            samples += r['samples']
            validate += r['validate']
            hits.update(r['hits'])
            if r['violation']:
                violation = r['violation']
                break
            if r['left']:
                if time.time() < deadline:
                    queue.append((hi, ci, r['left']))
                else:
                    unfinished += len(r['left'])
                    g['left'] += len(r['left'])
        now = time.time()
        for c, (hi, ci, t) in list(pending.items()):
            if now > deadline + 60:
                unfinished += 1
                pending.pop(c)
        if now >= deadline:
            for hi, ci, work in queue:
                unfinished += len(work)
                agg[(hi, ci)]['left'] += len(work)
            queue = []
    for c in conns:
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    if violation or pending:
        for p in procs:
            subprocess.run(['pkill', '-9', '-P', str(p.pid)], check=False)
            p.kill()
    # -- validation of the encoding: sampled paths through the real code
    nval = 0
    mismatches = []
    concrete_failures = []
    if not violation:
        srv = RealServer(prop)
        rng = random.Random(seed)
        rng.shuffle(validate)
        cap = 24 if tier == 'quick' else 150
        vend = time.time() + (12 if tier == 'quick' else 60)
        for hn, cfg, inputs, obs in validate[:cap]:
            if time.time() > vend:
                break
            try:
                r = srv.ask(hn, cfg, inputs, tier)
            except RuntimeError as e:
                errors.append((str(e), ''))
                break
            if r['invalid'] or r['ambiguous']:
                continue
            nval += 1
            for n_, v in r['checks']:
                if v is False:
                    concrete_failures.append((hn, n_, cfg, inputs))
            if r['exc']:
                mismatches.append((hn, 'exception ' + r['exc'] + ' ' + r['msg'], cfg, inputs))
            ro = r['observed']
            if not r['exc'] and len(ro) == len(obs):
                for (n1, a), (n2, b) in zip(obs, ro):
                    if not close_enough(a, b):
                        mismatches.append((hn, n1, cfg, inputs, a, b))
        srv.close()
    wall = time.time() - t_start
    tot = {k: sum(g[k] for g in agg.values()) for k in ('paths', 'infeasible', 'checks', 'trivial', 'discharged', 'boundary')}
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        violations=1 if violation else 0,
        assumptions=sorted({a for h in harnesses for a in h.assumes}) + [
            'floating point is modelled by exact real arithmetic; counterexamples count only if they reproduce in floating point',
            'NumPy is represented by symx.snp, numba-compiled functions run as plain Python, other libraries by symx.stubs'],
        coverage=dict(
            states=tot['paths'], transitions=stats.get('branches', 0), traces_validated_against_impl=nval,
            samples=samples[:6],
            exhaustive=(unfinished == 0 and not inconclusive and not undecided and not spurious and not errors and not violation),
            infeasible_paths=tot['infeasible'], frontier_left=unfinished,
            obligations=tot['checks'], obligations_discharged=tot['discharged'], syntactically_true=tot['trivial'],
            boundary_only=tot['boundary'], undecided=len(undecided), unreproduced=len(spurious),
            inconclusive_paths=len(inconclusive), inputs_tried_on_inconclusive_paths=sum(g['replayed_ok'] for g in agg.values()), known_findings=sorted(hits),
            solver_queries=stats.get('queries', 0), solver_seconds=round(stats.get('solver_s', 0), 2),
            cvc5_queries=stats.get('cvc5_queries', 0), branch_sides_settled_by_a_sample_point=stats.get('hints', 0),
            replays=stats.get('replays', 0), encoding_mismatches=len(mismatches),
            functions_encoded=sorted(functions),
            obligations_by_label=labels,
            bounds={h.name: dict(text=h.bounds, configs=h.configs(tier)) for h in harnesses},
            per_harness={'%s%s' % (harnesses[t[0]].name, json.dumps(harnesses[t[0]].configs(tier)[t[1]], default=repr)):
                         dict(paths=g['paths'], obligations=g['checks'], left=g['left'], cpu_s=round(g['wall'], 2)) for t, g in agg.items()},
            unfinished_notes=[str(x) for x in (inconclusive + undecided + spurious + errors)[:20]],
        ))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    print('%s %s: %d paths, %d obligations (%d discharged, %d trivially), %d queries, %.1f s solver, %d validated, %.1f s' % (
        prop, tier, tot['paths'], tot['checks'], tot['discharged'], tot['trivial'], stats.get('queries', 0),
        stats.get('solver_s', 0), nval, wall))
    verbose = bool(os.environ.get('SYMX_VERBOSE'))
    if verbose:
        for k, v in ev['coverage']['per_harness'].items():
            print('   ', k, v)
    for x in mismatches[:3]:
        print('MISMATCH', str(x)[:1500])
    for x in concrete_failures[:3]:
        print('CONCRETE-FAILURE (floating point only)', str(x)[:1500])
    for kind, xs in (('INCONCLUSIVE', inconclusive), ('UNDECIDED', undecided), ('UNREPRODUCED', spurious), ('ERROR', errors)):
        seen = set()
        for x in xs:
            k = str(x)[:900]
            if k not in seen and len(seen) < 4:
                seen.add(k)
                print(kind, k)
        if xs:
            print('%s total %d' % (kind, len(xs)))
    for k, v in sorted(loader_findings(prop).items()):
        if k in hits:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k, v))
    if unfinished:
        print('NOTE: time limit, %d open branches not explored' % unfinished)
    if violation:
        d = os.path.join(HERE, 'out')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1, default=repr)
        print('failing: %s in %s%s' % ('; '.join(violation['failing'][:3]), violation['harness'], json.dumps(violation['cfg'], default=repr)))
        if verbose:
            print(json.dumps(violation, default=repr)[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    bad = [harnesses[t[0]].name for t, g in agg.items() if g['vacuous_ok'] + g['replayed_ok'] == 0]
    sys.stdout.flush()
    if bad:
        print('no path of %s reached a check' % ', '.join(sorted(set(bad))))
        sys.stdout.flush()
        os._exit(2)
    os._exit(0)
