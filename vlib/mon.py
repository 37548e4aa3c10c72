"""Monitor object handed to every case: counts what was observed and records violations."""
import numpy as np


class Mon(object):
    MAXFAIL = 6

    def __init__(self):
        self.counts = {}
        self.covers = {}
        self.fails = []
        self.sigs = set()
        self.findings = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + float(n)

    def cover(self, dim, value):
        self.covers.setdefault(dim, set()).add(str(value))

    def nontrivial(self, sig):
        """Declares the current execution distinct (by sig) and non-trivial."""
        self.sigs.add(str(sig))

    def fail(self, what, **detail):
        if len(self.fails) < self.MAXFAIL:
            self.fails.append(dict(what=what, detail={k: _short(v) for k, v in detail.items()}))
        return False

    def finding(self, fid, what):
        """The execution shows the known finding with this id."""
        self.findings.append((fid, what))

    def check(self, cond, what, **detail):
        self.count('assertions')
        if not cond:
            self.fail(what, **detail)
        return bool(cond)

    def equal(self, what, got, want, **detail):
        g = np.asarray(got)
        w = np.asarray(want)
        self.count('values_compared', w.size)
        if g.shape != w.shape:
            return self.fail(what + ': shape %s != %s' % (g.shape, w.shape), **detail)
        bad = ~((g == w) | ((g != g) & (w != w)))
        if np.any(bad):
            i = np.unravel_index(np.flatnonzero(np.ravel(bad))[0], g.shape) if g.ndim else ()
            return self.fail(what, at=i, got=g[i], want=w[i], nbad=int(np.sum(bad)), **detail)
        return True

    def close(self, what, got, want, atol, rtol=0., **detail):
        """|got-want| <= atol + rtol*|want| elementwise; NaN only matches NaN."""
        g = np.asarray(got)
        w = np.asarray(want)
        self.count('values_compared', w.size)
        if g.shape != w.shape:
            return self.fail(what + ': shape %s != %s' % (g.shape, w.shape), **detail)
        tol = np.asarray(atol) + rtol * np.abs(w)
        with np.errstate(invalid='ignore'):
            ok = (np.abs(g - w) <= tol) | (g == w) | ((g != g) & (w != w))
        if not np.all(ok):
            bad = ~ok
            k = np.flatnonzero(np.ravel(bad))[0]
            i = np.unravel_index(k, g.shape) if g.ndim else ()
            t = np.broadcast_to(tol, g.shape)[i] if g.ndim else tol
            return self.fail(what, at=i, got=g[i], want=w[i], tol=t, nbad=int(np.sum(bad)),
                             **detail)
        return True

    def between(self, what, got, lo, hi, **detail):
        g = np.asarray(got)
        lo = np.asarray(lo)
        hi = np.asarray(hi)
        self.count('values_compared', g.size)
        if g.shape != lo.shape:
            return self.fail(what + ': shape %s != %s' % (g.shape, lo.shape), **detail)
        ok = (g >= lo) & (g <= hi)
        if not np.all(ok):
            k = np.flatnonzero(np.ravel(~ok))[0]
            i = np.unravel_index(k, g.shape) if g.ndim else ()
            return self.fail(what, at=i, got=g[i], lo=lo[i], hi=hi[i], nbad=int(np.sum(~ok)),
                             **detail)
        return True

    def raises(self, what, exc, fn):
        """fn() must raise one of the exception types exc."""
        self.count('rejections_checked')
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            return self.fail(what + ': wrong exception', got=repr(e))
        return self.fail(what + ': no exception')

    def result(self):
        return dict(counts=self.counts, covers={k: sorted(v) for k, v in self.covers.items()},
                    fails=self.fails, sigs=sorted(self.sigs), findings=self.findings)


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + '...'
