"""Reference semantics, written from the textbook definitions and independent of the code.

Works on any numbers (exact symbolic values or floats).  The span containing a parameter is
always known structurally, so no comparisons are made here.
"""

def span_basis(U, p, k, t):
    """{i: N_{i,p}(t)} for t in the non-empty span [U[k], U[k+1]) (Cox-de Boor recursion)."""
    N = {k: 1}
    for d in range(1, p+1):
        M = {}
        for i in range(k-d, k+1):
            if i < 0: continue
            v = None
            if i in N:
                v = (t - U[i]) / (U[i+d] - U[i]) * N[i]
            if i+1 in N:
                w = (U[i+d+1] - t) / (U[i+d+1] - U[i+1]) * N[i+1]
                v = w if v is None else v + w
            M[i] = v
        N = M
    return N


class Jet(object):
    """Truncated multivariate Taylor polynomial: {multi-index: coefficient}, total order <= order."""
    __slots__ = ('c', 'nv', 'order')
    def __init__(self, c, nv, order): self.c, self.nv, self.order = c, nv, order
    @staticmethod
    def var(x, i, nv, order):
        e = tuple(1 if j == i else 0 for j in range(nv))
        z = (0,)*nv
        c = {z: x}
        if order >= 1: c[e] = 1
        return Jet(c, nv, order)
    def _co(self, o):
        return o if isinstance(o, Jet) else Jet({(0,)*self.nv: o}, self.nv, self.order)
    def __add__(self, o):
        o = self._co(o)
        c = dict(self.c)
        for k, v in o.c.items(): c[k] = c[k] + v if k in c else v
        return Jet(c, self.nv, self.order)
    __radd__ = __add__
    def __neg__(self): return Jet({k: -v for k, v in self.c.items()}, self.nv, self.order)
    def __sub__(self, o): return self + (-self._co(o))
    def __rsub__(self, o): return self._co(o) + (-self)
    def __mul__(self, o):
        if not isinstance(o, Jet): return Jet({k: v*o for k, v in self.c.items()}, self.nv, self.order)
        c = {}
        for a, x in self.c.items():
            sa = sum(a)
            for b, y in o.c.items():
                if sa + sum(b) > self.order: continue
                k = tuple(i+j for i, j in zip(a, b))
                v = x*y
                c[k] = c[k] + v if k in c else v
        return Jet(c, self.nv, self.order)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if not isinstance(o, Jet): return Jet({k: v/o for k, v in self.c.items()}, self.nv, self.order)
        z = (0,)*self.nv
        d = o.c[z]
        q = {}
        idx = multi_indices(self.nv, self.order)
        for k in idx:
            s = self.c.get(k, 0)
            for b, y in o.c.items():
                if b == z or any(i > j for i, j in zip(b, k)): continue
                r = tuple(j-i for i, j in zip(b, k))
                if r in q: s = s - y*q[r]
            q[k] = s/d
        return Jet(q, self.nv, self.order)
    def __rtruediv__(self, o): return self._co(o)/self
    def deriv(self, alpha):
        f = 1
        for a in alpha:
            for i in range(2, a+1): f *= i
        return self.c.get(tuple(alpha), 0)*f

def multi_indices(nv, order):
    out = []
    def rec(pre, left):
        if len(pre) == nv: out.append(tuple(pre)); return
        for i in range(left+1): rec(pre+[i], left-i)
    rec([], order)
    out.sort(key=lambda a: (sum(a), a))
    return out


def tensor_eval(knots, ps, spans, ts, P):
    """sum over the tensor basis of P[i,j,..] (P: function of a multi-index -> number or list)."""
    bas = [span_basis(U, p, k, t) for U, p, k, t in zip(knots, ps, spans, ts)]
    def rec(d, idx):
        if d == len(bas): return P(idx)
        tot = None
        for i, n in bas[d].items():
            v = rec(d+1, idx+(i,))
            v = [n*x for x in v] if isinstance(v, (list, tuple)) else n*v
            if tot is None: tot = v
            elif isinstance(v, list): tot = [a+b for a, b in zip(tot, v)]
            else: tot = tot + v
        return tot
    return rec(0, ())

def homog_eval(knots, ps, spans, ts, Pw):
    """Homogeneous value at a point: Pw is an object with shape (n0.., d) indexable by tuples."""
    d = Pw.shape[-1]
    return tensor_eval(knots, ps, spans, ts, lambda i: [Pw[i+(c,)] for c in range(d)])
