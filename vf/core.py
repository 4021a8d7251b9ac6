"""Verdict discipline shared by all monitors.

A check is a module vf.checks.<id> with
    RULE      how cases are made and what makes one non-trivial (text for the evidence)
    NEED      {counter: minimum}: events the deciding monitor must have seen, else inconclusive
    PLAN      {"quick": [(precision, shards)], "thorough": [...]}   (optional)
    run(ctx)  drives the workload; calls ctx.each(name, n, body) for every family of cases

The body of a case drives the real library and calls case.close / case.true / case.raises: each
call is one oracle evaluation on an observed execution.  A body that fails an oracle, or in which
the library raises on valid input, is a violation; it carries all that is needed to replay it.
"""
import hashlib, json, os, time, traceback, zlib
import numpy as np


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


def _short(v, n=400):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Case:
    def __init__(self, ctx, family, index):
        self.ctx, self.family, self.index = ctx, family, index
        key = [ctx.seed, zlib.crc32(ctx.prop.encode()), zlib.crc32(family.encode()), index]
        self.rng = np.random.default_rng(key)
        self.desc = []

    # -- description of what the case does (evidence, replay, distinctness)
    def note(self, *parts):
        self.desc.append(" ".join(p if isinstance(p, str) else _short(p, 160) for p in parts))

    def event(self, name, n=1):
        self.ctx.counters[name] = self.ctx.counters.get(name, 0) + n

    # -- oracles
    def true(self, cond, msg, **detail):
        self.ctx.evaluations += 1
        if not cond:
            raise Violation(msg, **{k: _short(v) for k, v in detail.items()})

    def equal(self, got, want, msg):
        self.true(got == want, msg, got=got, want=want)

    def close(self, got, want, tol, msg, points=None):
        """got (from the library) equals want (from the oracle) within tol (scalar or array), at
        every entry; shape included; NaN and infinity never match unless want has them too."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.ctx.evaluations += 1
        if got.shape != want.shape:
            raise Violation(msg + ": wrong shape", got=got.shape, want=want.shape)
        if got.size == 0:
            return
        tol = np.broadcast_to(np.asarray(tol, dtype=float), want.shape)
        self.event("points_compared", int(got.size))
        with np.errstate(all="ignore"):
            err = np.abs(got.astype(np.complex128) - want.astype(np.complex128))
            bad = ~(err <= tol)
            same = (got == want) | (np.isnan(got) & np.isnan(want))
        bad &= ~same & ~np.isinf(tol)
        if bad.any():
            k = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err), -1))), err.shape)
            raise Violation(msg, at=tuple(int(i) for i in k), got=got[k], want=want[k], tol=tol[k],
                            bad=int(bad.sum()), of=int(bad.size),
                            point=None if points is None else [_short(np.broadcast_to(p, want.shape)[k]) for p in points])

    def same(self, got, want, msg):
        """bit for bit the same array: shape, dtype, values"""
        got, want = np.asarray(got), np.asarray(want)
        self.ctx.evaluations += 1
        if got.shape != want.shape or got.dtype != want.dtype:
            raise Violation(msg + ": wrong shape or type", got=(got.shape, str(got.dtype)), want=(want.shape, str(want.dtype)))
        self.event("points_compared", int(got.size))
        eq = (got == want) | ((got != got) & (want != want))
        if not eq.all():
            k = np.unravel_index(int(np.argmax(~eq)), eq.shape) if eq.ndim else ()
            raise Violation(msg, at=tuple(int(i) for i in k), got=got[k], want=want[k], bad=int((~eq).sum()), of=int(eq.size))

    def raises(self, exc, fn, msg):
        """fn() must raise (an instance of exc); returns the exception"""
        self.ctx.evaluations += 1
        try:
            r = fn()
        except exc as e:
            self.event("expected_exceptions")
            return e
        except Exception as e:
            raise Violation(msg + ": wrong exception", got=f"{type(e).__name__}: {_short(str(e), 200)}", want=str(exc))
        raise Violation(msg + ": no exception", got=_short(r))


class Ctx:
    def __init__(self, prop, tier, seed, prec, shard=0, nshards=1, only=None, soft=600.0):
        self.prop, self.tier, self.seed, self.prec = prop, tier, seed, prec
        self.shard, self.nshards, self.only = shard, nshards, only
        self.evaluations = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.truncated = []
        self.t0 = time.time()
        self.soft = soft
        self.eps = 2.0 ** -23 if prec == 32 else 2.0 ** -52
        self.rdtype = np.float32 if prec == 32 else np.float64
        self.cdtype = np.complex64 if prec == 32 else np.complex128
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def event(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def each(self, family, count, body, shard=True):
        """run body(case) for case 0..count-1 of this family (this worker's share of them)"""
        for index in range(count):
            if self.only is not None:
                if (family, index) != self.only:
                    continue
            elif shard and index % self.nshards != self.shard:
                continue
            if time.time() - self.t0 > self.soft:
                self.truncated.append(f"{family} at {index} of {count}")
                break
            if len(self.violations) >= 12:
                break
            case = Case(self, family, index)
            try:
                body(case)
            except Violation as e:
                self._violation(case, str(e), e.detail)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                self._violation(case, f"unexpected {type(e).__name__}: {_short(str(e), 300)}",
                                {"traceback": [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-12:]]})
            else:
                self.event("cases")
                self.event("family:" + family)
                key = hashlib.sha1(repr((family, case.desc)).encode()).hexdigest()[:16]
                if case.desc:
                    self.distinct.add(key)
                    if len([s for s in self.samples if s.startswith(family + "[")]) < 2:
                        self.samples.append(f"{family}[{index}] {self.prec}bit: " + "; ".join(case.desc)[:500])

    def _violation(self, case, msg, detail):
        self.violations.append({"family": case.family, "index": case.index, "prec": self.prec, "message": msg,
                                "detail": {k: (v if isinstance(v, list) else _short(v)) for k, v in detail.items() if v is not None},
                                "case": case.desc})

    def result(self):
        return {"prec": self.prec, "shard": self.shard, "evaluations": self.evaluations, "counters": self.counters,
                "distinct": sorted(self.distinct), "samples": self.samples, "violations": self.violations,
                "truncated": self.truncated, "wall_s": time.time() - self.t0}
