"""(De)serialisation of terms and formulas, and canonical numbering of random draws."""
from .terms import *
from . import terms as TM


class Dump(object):
    def __init__(self):
        self.nodes = []
        self.ix = {}

    def term(self, t):
        # iterative post-order to stay clear of the recursion limit
        return self._d(t)

    def _d(self, x):
        if isinstance(x, (T, F)):
            k = x
            r = self.ix.get(k)
            if r is not None:
                return {"n": r}
            if isinstance(x, T):
                if x.op == "poly":
                    items = sorted(x.a[0], key=lambda mc: TM.mono_str(mc[0]))
                    body = ["P", [[c, [[self._d(a)["n"], p] for a, p in sorted(m, key=lambda q: show(q[0]))]] for m, c in items]]
                elif x.op == "phi":
                    body = ["T", "phi", [[self._d(c), self._d(v)] for c, v in sorted(x.a[0], key=lambda cv: (show(cv[1]), fshow(cv[0])))]]
                elif x.op == "eq":
                    p, q = sorted(x.a, key=show)
                    body = ["T", "eq", self._d(p), self._d(q)]
                else:
                    body = ["T", x.op] + [self._d(y) for y in x.a]
            else:
                if x.k in ("and", "or"):
                    body = ["F", x.k, [self._d(y)["n"] for y in sorted(x.a, key=fshow)]]
                else:
                    body = ["F", x.k] + [self._d(y) for y in x.a]
            self.nodes.append(body)
            r = len(self.nodes) - 1
            self.ix[k] = r
            return {"n": r}
        if isinstance(x, tuple):
            return [self._d(y) for y in x]
        if isinstance(x, frozenset):
            return {"s": [self._d(y) for y in sorted(x, key=lambda z: show(z) if isinstance(z, T) else (fshow(z) if isinstance(z, F) else str(z)))]}
        if isinstance(x, bool):
            return {"b": int(x)}
        if isinstance(x, (bytes, bytearray)):
            return {"x": bytes(x).hex()}
        if x is None or isinstance(x, (int, str)):
            return {"v": str(x), "i": 1} if isinstance(x, int) and abs(x) > 2**53 else x
        raise TypeError("cannot serialise %r" % (x,))


def load(nodes):
    """-> list of terms/formulas, in order"""
    out = []

    def u(x):
        if isinstance(x, list):
            return tuple(u(y) for y in x)
        if isinstance(x, dict):
            if "n" in x:
                return out[x["n"]]
            if "s" in x:
                return frozenset(u(y) for y in x["s"])
            if "b" in x:
                return bool(x["b"])
            if "x" in x:
                return bytes.fromhex(x["x"])
            return int(x["v"])
        return x

    for b in nodes:
        if b[0] == "P":
            d = {}
            for c, m in b[1]:
                mm = tuple(sorted(((out[a], p) for a, p in m), key=lambda xp: xp[0].id))
                d[mm] = int(u(c)) if isinstance(c, dict) else c
            out.append(mk("poly", tuple(sorted(d.items(), key=lambda mc: (tuple((x.id, p) for x, p in mc[0]), mc[1])))))
        elif b[0] == "T":
            a = [u(x) for x in b[2:]]
            if b[1] == "phi":
                out.append(mk("phi", tuple(sorted(a[0], key=lambda cv: cv[1].id))))
            elif b[1] == "eq":
                p, q = a
                out.append(mk("eq", p, q) if p.id <= q.id else mk("eq", q, p))
            else:
                out.append(mk(b[1], *a))
        else:
            if b[1] in ("and", "or"):
                out.append(TM._mkf(b[1], frozenset(out[i] for i in b[2])))
            else:
                out.append(TM._mkf(b[1], tuple(u(x) for x in b[2:])))
    return out


def canon_rand(ts, fs=()):
    """rename random draws by the role they play, not by evaluation order"""
    rs = set()
    seen = set()
    for t in list(ts) + [x for f in fs for x in f_terms(f)]:
        for x in subterms(t, seen):
            if x.op == "rand":
                rs.add(x)
    if not rs:
        return list(ts), list(fs)
    ids = sorted(set(x.a[0] for x in rs), key=str)
    # all draws masked
    mask = {x: mk("rand", "?", *x.a[1:]) for x in rs}
    if len(ids) == 1:
        m = {x: mk("rand", 1, *x.a[1:]) for x in rs}
    else:
        key = {}
        for i in ids:
            mi = dict(mask)
            for x in rs:
                if x.a[0] == i:
                    mi[x] = mk("rand", "!", *x.a[1:])
            memo = {}
            key[i] = "|".join([show(subst(t, mi, memo)) for t in ts] + [fshow(fsubst(f, mi, memo)) for f in fs])
        order = sorted(ids, key=lambda i: (key[i], str(i)))
        num = {i: n + 1 for n, i in enumerate(order)}
        m = {x: mk("rand", num[x.a[0]], *x.a[1:]) for x in rs}
    memo = {}
    # nested rand arguments: substitute bottom-up on the binder part as well
    return [subst(t, m, memo) for t in ts], [fsubst(f, m, memo) for f in fs]
