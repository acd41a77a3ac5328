"""
Exploration of one harness configuration: symbolic execution of every path, a solver query per check and
path, replay of path witnesses and of counterexamples on the real package.
"""
import math
import itertools
import os
import sys
import time
import traceback

import numpy as np

from . import ctx as cx, terms as tm, load, num
from .ctx import Ctx, CTX, PathEnd, BudgetEnd, SB
from .terms import EngineUnsupported, T
from .world import SymWorld, RealWorld, Tie, Abort


class Report:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.checks = {}          # name -> dict(proved, unknown, violated, cex_unconfirmed)
        self.violations = []      # dicts
        self.unsupported = {}
        self.mismatch = []
        self.modelonly = {}
        self.replays = 0
        self.replay_ties = 0
        self.witnessed = 0
        self.complete = True
        self.cuts = {}
        self.stats = {}
        self.error = None
        self.functions = set()
        self.lemmas = {}
        self.time = 0.0
        self.fallback = 0
        self.notes = []
        self.decisions = 0
        self.sample = None

    def c(self, name):
        return self.checks.setdefault(name, dict(proved=0, unknown=0, violated=0, unconfirmed=0))


class Explorer:
    def __init__(self, harness, cfg, name, repo, deadline, seed=1, opts=None):
        self.h = harness
        self.cfg = cfg
        self.repo = repo
        self.seed = seed
        self.rep = Report(name)
        o = dict(opts or {})
        self.max_viol = o.pop('max_violations', 2)
        self.hazard_max = o.pop('hazard_max', 12)
        self.fallback_n = o.pop('fallback_n', 24)
        self.nwit = o.pop('witnesses', 2)
        setters = {k: o.pop(k) for k in list(o) if k in ('ite', 'linspace_cut', 'poisson_max', 'int_limit', 'acos_quad', 'acos_lens', 'draw_max')}
        self.ctx = Ctx(seed=seed, deadline=deadline, **o)
        for k, v in setters.items():
            setattr(self.ctx, k, v)
        self.lemma_cache = {}
        self.hz = 0

    # ------------------------------------------------------------- real runs
    def real_run(self, values, choices):
        w = RealWorld(values, dict(choices), self.cfg, self.repo, self.seed)
        self.rep.replays += 1
        exc = None
        status = 'ok'
        import warnings
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                self.h(w)
            except Tie:
                status = 'tie'
                self.rep.replay_ties += 1
            except Abort:
                status = 'abort'
            except Exception as e:
                status = 'raise'
                exc = e
            finally:
                w.close()
        w.status, w.exc = status, exc
        return w

    def confirm(self, values, choices, want=None, kind=''):
        """does the real code fail? returns a violation dict or None"""
        w = self.real_run(values, choices)
        if w.status == 'abort':
            return None
        bad = [(n, i) for n, ok, i in w.results if not ok]
        if w.status == 'raise':
            tb = traceback.extract_tb(w.exc.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(self.repo)]
            if not inrepo:
                # the harness itself broke on the value returned: report only what failed before
                if not bad:
                    self.rep.notes.append(f'harness error on real code: {w.exc!r} at {tb[-1].filename}:{tb[-1].lineno}')
                    tbl = tb[-1]
                    bad = [('defined-result', f'{type(w.exc).__name__}: {w.exc} ({os.path.basename(tbl.filename)}:{tbl.lineno})')]
            else:
                f = inrepo[-1]
                bad.append(('no-exception', f'{type(w.exc).__name__}: {w.exc} at {os.path.basename(f.filename)}:{f.name}'))
        if not bad:
            return None
        if want is not None and want not in [b[0] for b in bad]:
            pass
        return dict(config=self.rep.name, check=bad[0][0], all=[b[0] for b in bad],
                    info=str(bad[0][1]) if bad[0][1] is not None else None, kind=kind,
                    values={k: v for k, v in values.items()}, choices=dict(choices))

    def add_violation(self, v):
        if any(x['check'] == v['check'] for x in self.rep.violations):
            return
        self.rep.violations.append(v)

    # ---------------------------------------------------------------- sink
    def lemma(self, w, name, c):
        from .ctx import bnot
        r = self.lemma_cache.get(c)
        if r is None:
            res, _ = self.ctx.solve([bnot(c)], self.ctx.t_goal)
            r = res == 'unsat'
            self.lemma_cache[c] = r
            self.rep.lemmas[name] = 'proved' if r else 'not proved'
        if not r and c is not True and c is not False and self.ctx.prove(c)[0] == 'proved':
            # holds on this path
            r = True
            self.rep.lemmas[name] = 'proved on its path'
        if r:
            self.use_lemma(c)

    def use_lemma(self, c):
        self.ctx.user_lemmas.append(c)
        self.ctx.add_fact(c)

    def certificate(self, name, target, terms, side):
        """target >= 0 because target*k == sum of terms, each a product of squares and of non-negative factors"""
        from .ctx import bnot
        key = (name, target)
        r = self.lemma_cache.get(key)
        if r is None:
            tot = tm.ZERO
            for t in terms:
                tot = tm.padd(tot, t)
            d = tm.psub(target, tot)
            r = not d.t or (lambda q: q is not None and not q.t)(tm.clear_den(d))
            keep = True
            for c in side:
                if r and c is not True:
                    if c is not False and self.ctx.by_fact(c) is True:
                        # by a fact of this path
                        keep = False
                        continue
                    r = c is not False and self.ctx.solve([bnot(c)], self.ctx.t_goal)[0] == 'unsat'
            if keep:
                self.lemma_cache[key] = r
            self.rep.lemmas[name] = 'certificate checked' if r else 'certificate fails'
        if r:
            c = cx.cmp0(tm.pneg(target), '<=')
            if c is not True and c is not False:
                self.use_lemma(c)

    def check(self, w, name, c, info):
        rec = self.rep.c(name)
        r, cands = self.ctx.prove(c)
        if r == 'proved':
            rec['proved'] += 1
            return
        if r == 'unknown':
            rec['unknown'] += 1
            self.pending_fallback = True
            return
        if len(self.rep.violations) >= self.max_viol and rec['violated']:
            rec['violated'] += 1
            return
        for vals in (cands or [])[:8]:
            v = self.confirm(self.used(vals), self.ctx.choices, name, 'solver counterexample')
            if v:
                rec['violated'] += 1
                self.add_violation(v)
                return
        if r == 'cex' and rec['unconfirmed'] < 3:
            for vals in itertools.islice(self.ctx.interior(c), 10):
                v = self.confirm(self.used(vals), self.ctx.choices, name, 'solver counterexample')
                if v:
                    rec['violated'] += 1
                    self.add_violation(v)
                    return
        rec['unconfirmed'] += 1
        self.pending_fallback = True
        if len(self.rep.notes) < 40:
            self.rep.notes.append(f'unconfirmed counterexample for {name}: goal {str(c)[:300]}'
                                  + (f' PC {[str(x)[:300] for x in self.ctx.pc]}' if os.environ.get('VSYM_PC') else ''))

    def used(self, vals):
        return {k: float(v) for k, v in vals.items()}

    # ---------------------------------------------------------------- main
    def run(self):
        t0 = time.time()
        ctx = self.ctx
        CTX.cur = ctx
        try:
            self._run()
        except BudgetEnd:
            self.rep.complete = False
        finally:
            CTX.cur = None
        if ctx.work:
            self.rep.complete = False
        self.rep.cuts = ctx.cuts
        self.rep.stats = ctx.stats.asdict()
        self.rep.time = time.time() - t0
        return self.rep

    def _run(self):
        ctx = self.ctx
        while ctx.work:
            if self.rep.paths >= ctx.max_paths:
                self.rep.complete = False
                break
            if len(self.rep.violations) >= self.max_viol:
                break
            prefix = ctx.work.pop()
            if self.rep.paths >= 4:
                sys.setprofile(None)
            ctx.start_path(prefix)
            self.pending_fallback = False
            w = None
            status, exc = 'ok', None
            try:
                w = SymWorld(ctx, load.Loader, self.cfg, self, self.repo)
                self.h(w)
            except PathEnd:
                self.rep.infeasible += 1
                continue
            except BudgetEnd:
                self.rep.complete = False
                self.fallback()
                return
            except EngineUnsupported as e:
                status = 'unsupported'
                k = str(e)
                if k not in self.rep.unsupported and os.environ.get('VSYM_TB'):
                    traceback.print_exc()
                self.rep.unsupported[k] = self.rep.unsupported.get(k, 0) + 1
            except RecursionError as e:
                status = 'unsupported'
                self.rep.unsupported['recursion'] = self.rep.unsupported.get('recursion', 0) + 1
            except Exception as e:
                status, exc = 'raise', e
                if os.environ.get('VSYM_TB'):
                    traceback.print_exc()
            self.rep.paths += 1
            self.rep.decisions += len(ctx.trace)
            ctx.check_deadline() if False else None
            self.finish_path(w, status, exc)

    def witnesses(self, n):
        ctx = self.ctx
        ok = ctx.alive.copy()
        for c in ctx.pc:
            t, f = c.ev3(ctx.chunk)
            ok &= t
        idx = list(np.nonzero(ok)[0])
        out = []
        if idx:
            step = max(1, len(idx) // n)
            for j in idx[::step][:n]:
                out.append((j, {k: float(ctx.chunk.vars[k][j]) for k in ctx.chunk.vars}))
            return out
        if not ctx.pc:
            return out
        r, model = ctx.solve(ctx.pc, ctx.t_feas)
        if r == 'unsat':
            return None
        if r == 'sat' and model:
            for vals in ctx.concretise(model, 1):
                out.append((None, vals))
        return out

    def finish_path(self, w, status, exc):
        ctx = self.ctx
        try:
            wit = self.witnesses(self.nwit)
        except BudgetEnd:
            wit = []
        if wit is None:
            self.rep.infeasible += 1
            self.rep.paths -= 1
            return
        if status == 'raise':
            key = f'{type(exc).__name__}: {str(exc)[:160]}'
            done = False
            for j, vals in wit + [(None, v) for v in self.columns(6)]:
                v = self.confirm(self.used(vals), ctx.choices, None, 'exception on symbolic path')
                if v:
                    self.add_violation(v)
                    done = True
                    break
            if not done:
                self.rep.modelonly[key] = self.rep.modelonly.get(key, 0) + 1
                if wit:
                    self.fallback()
            return
        if status == 'unsupported':
            self.fallback()
            return
        seen = False
        for j, vals in wit:
            rw = self.real_run(self.used(vals), ctx.choices)
            if rw.status in ('tie', 'abort'):
                continue
            bad = [n for n, ok, i in rw.results if not ok]
            if bad or rw.status == 'raise':
                v = self.confirm(self.used(vals), ctx.choices, None, 'path witness')
                if v:
                    self.add_violation(v)
                    self.rep.c(v['check'])['violated'] += 1
                continue
            if self.rep.sample is None:
                self.rep.sample = dict(config=self.rep.name, path=self.rep.paths, input={k: float(v) for k, v in list(vals.items())[:24]}, choices={str(k): v for k, v in ctx.choices.items()})
            if j is not None and w is not None:
                mm = self.compare(w, rw, j)
                if mm and self.on_boundary(j):
                    self.rep.replay_ties += 1
                elif mm:
                    if os.environ.get("VSYM_PC"):
                        mm += f" {self.used(vals)} {dict(ctx.choices)}"
                    if len(self.rep.mismatch) < 10:
                        self.rep.mismatch.append(mm)
                    self.pending_fallback = True
                else:
                    seen = True
        if seen:
            self.rep.witnessed += 1
        if ctx.hazards and self.hz < self.hazard_max:
            self.hazard_runs()
        if self.pending_fallback:
            self.fallback()

    def on_boundary(self, j):
        """does the sample lie on the boundary of a condition of this path, where rounding decides?"""
        for c in self.ctx.pc:
            for q in c.cmps():
                d, sc = self.ctx.chunk.poly2(q.a[0])
                if abs(d[j]) <= 1e-9 * sc[j]:
                    return True
        return False

    def compare(self, w, rw, j):
        a, b = w.obs, rw.obs
        if len(a) != len(b):
            return f'observations differ: {len(a)} symbolic, {len(b)} real: {[x[0] for x in a][:6]} vs {[x[0] for x in b][:6]}'
        for (n, x), (n2, y) in zip(a, b):
            if isinstance(x, num.SF):
                xv = float(self.ctx.chunk.poly(x.p)[j])
            elif isinstance(x, SB):
                xv = float(bool(x.ev(self.ctx.chunk)[j]))
            elif isinstance(x, str) or isinstance(y, str):
                continue
            elif x is None or y is None:
                if x is not y:
                    return f'{n}: {x} vs {y}'
                continue
            else:
                xv = float(x)
            try:
                yv = float(y)
            except Exception:
                return f'{n}: {x} vs {y!r}'
            if math.isnan(xv) and math.isnan(yv):
                continue
            if xv == yv:
                continue
            tol = float(self.cfg.get('obs_tol', 1e-6))
            if not abs(xv - yv) <= tol * max(1e-6, abs(xv), abs(yv), self.cfg.get('obs_scale', 1.0)):
                return f'{n}: symbolic {xv!r} real {yv!r}'
        return None

    def columns(self, n):
        ctx = self.ctx
        idx = list(np.nonzero(ctx.alive)[0]) or list(range(min(n, ctx.chunk.size)))
        step = max(1, len(idx) // n)
        return [{k: float(ctx.chunk.vars[k][j]) for k in ctx.chunk.vars} for j in idx[::step][:n]]

    def fallback(self):
        """no verdict on this path: evaluate the checks on the real code for sample inputs of the path"""
        ctx = self.ctx
        if self.rep.fallback > 20 * self.fallback_n:
            return
        for vals in self.columns(self.fallback_n):
            self.rep.fallback += 1
            v = self.confirm(self.used(vals), ctx.choices, None, 'concrete run (no symbolic verdict)')
            if v:
                self.add_violation(v)
                self.rep.c(v['check'])['violated'] += 1
                return

    def hazard_runs(self):
        """inputs where an inverse trig argument is exactly +-1, for which rounding matters"""
        ctx = self.ctx
        for p in ctx.hazards:
            for s in (1, -1):
                if self.hz >= self.hazard_max:
                    return
                g = cx.cmp0(tm.psub(p, tm.const(s)), '==')
                if g is False or g is True:
                    continue
                vals = ctx.chunk.poly(p)
                near = np.nonzero(ctx.alive & (np.abs(vals - s) < 1e-12))[0]
                cands = [{k: float(ctx.chunk.vars[k][j]) for k in ctx.chunk.vars} for j in near[:8]]
                if not cands:
                    r, model = ctx.solve(ctx.slice(g) + [g], ctx.t_feas)
                    if r == 'sat' and model:
                        cands = ctx.concretise(model, 6)
                if cands:
                    self.hz += 1
                for vals in cands:
                    v = self.confirm(self.used(vals), ctx.choices, None, 'rounding at an inverse-trig boundary')
                    if v:
                        self.add_violation(v)
                        self.rep.c(v['check'])['violated'] += 1
                        return
