"""Semantic comparison of two normal forms (current tree vs contract).

`Cmp(ctx)` decides equality of terms/formulas under assumptions by congruence, gated-phi
case analysis over the (small) set of gate conditions and propositional reasoning over the
literals.  Everything here is table look-up on normal forms; no solver.
"""
from .terms import *
from . import terms as TM

LIMIT = 60000


class Give(Exception):
    """comparison effort exhausted"""


def atoms(f, out=None):
    """propositional atoms (positive literals / all-formulas) of f"""
    if out is None:
        out = {}
    st = [f]
    while st:
        x = st.pop()
        if x.k == "lit":
            out[lit(x.a[0])] = 1
        elif x.k in ("and", "or"):
            st.extend(x.a)
        elif x.k == "all":
            out[x] = 1
        elif x.k == "ex":
            out[neg(x)] = 1
    return out


def _zk(t):
    """(x, c) when the literal t says x + c == 0, x without constant part (either sign of x)"""
    x = t.a[0]
    if x.op == "phi" or x.op == "int":
        return None
    d = dict(TM._pd(x))
    c = d.pop((), 0)
    if not d:
        return None
    items = tuple(sorted(((tuple((y.id, p) for y, p in m)), k) for m, k in d.items()))
    if items[0][1] < 0:
        items = tuple((m, -k) for m, k in items)
        c = -c
    return items, c


def excl(x, y):
    """x and y are positive atoms that cannot both hold: x + c == 0 and x + d == 0, c != d"""
    if x.op != "eq0" or y.op != "eq0":
        return False
    a, b = _zk(x), _zk(y)
    return a is not None and b is not None and a[0] == b[0] and a[1] != b[1]


def assign(f, a, val, memo):
    """f with atom a := val"""
    r = memo.get(f)
    if r is not None:
        return r
    k = f.k
    if k in ("true", "false"):
        r = f
    elif f is a:
        r = TRUE if val else FALSE
    elif k in ("lit", "all", "ex"):
        r = (FALSE if val else TRUE) if neg(f) is a else f
        if r is f and val and k == "lit" and a.k == "lit" and a.a[0].op == "is" and f.a[0].op == "is" and f.a[0].a[0] is a.a[0].a[0]:
            # two different variants of the same value
            r = FALSE if f.a[1] else TRUE
        elif r is f and val and k == "lit" and a.k == "lit" and a.a[1] and f.a[0].op == "eq0" and excl(a.a[0], f.a[0]):
            r = FALSE if f.a[1] else TRUE
    elif k == "and":
        out = []
        r = None
        for x in f.a:
            y = assign(x, a, val, memo)
            if y.k == "false":
                r = FALSE
                break
            if y.k != "true":
                out.append(y)
        if r is None:
            r = _and(out)
    else:
        out = []
        r = None
        for x in f.a:
            y = assign(x, a, val, memo)
            if y.k == "true":
                r = TRUE
                break
            if y.k != "false":
                out.append(y)
        if r is None:
            r = _or(out)
    memo[f] = r
    return r


def _and(xs):
    s = set()
    for x in xs:
        if x.k == "and":
            s.update(x.a)
        else:
            s.add(x)
    if not s:
        return TRUE
    for x in s:
        if x.k in ("lit", "all", "ex") and neg(x) in s:
            return FALSE
    if len(s) == 1:
        return next(iter(s))
    return TM._mkf("and", frozenset(s))


def _or(xs):
    s = set()
    for x in xs:
        if x.k == "or":
            s.update(x.a)
        else:
            s.add(x)
    if not s:
        return FALSE
    for x in s:
        if x.k in ("lit", "all", "ex") and neg(x) in s:
            return TRUE
    if len(s) == 1:
        return next(iter(s))
    return TM._mkf("or", frozenset(s))


class Steps(object):
    def __init__(self, n=LIMIT):
        self.n = n

    def tick(self):
        self.n -= 1
        if self.n < 0:
            raise Give()


UNIT = ("lit", "all", "ex")


def sat(f, steps):
    """is the propositional skeleton of f satisfiable? (True may be an over-approximation)"""
    steps.tick()
    units, ors = {}, []
    var, zs = {}, {}
    work = [f]
    pend = []
    while True:
        while work:
            x = work.pop()
            if x.k == "true" or x in units:
                continue
            if x.k == "false":
                return False
            if x.k == "and":
                work.extend(x.a)
            elif x.k == "or":
                ors.append(x)
            else:
                if neg(x) in units:
                    return False
                if x.k == "lit" and x.a[1] and x.a[0].op == "is":
                    if var.setdefault(x.a[0].a[0], x.a[0].a[1]) != x.a[0].a[1]:
                        return False
                if x.k == "lit" and x.a[1] and x.a[0].op == "eq0":
                    z = _zk(x.a[0])
                    if z is not None and zs.setdefault(z[0], z[1]) != z[1]:
                        return False
                units[x] = 1
                pend.append(x)
        if not pend or not ors:
            break
        while pend:
            u = pend.pop()
            a, val = (neg(u), False) if (u.k == "ex" or (u.k == "lit" and not u.a[1])) else (u, True)
            memo = {}
            ors = [assign(o, a, val, memo) for o in ors]
        work, ors = ors, []
    for u in units:
        if u.k == "ex":
            alls = [x.a[1] for x in units if x.k == "all" and x.a[0] is u.a[0]]
            if alls and conj(alls + [u.a[1]]).k == "false":
                return False
    if not ors:
        return True
    cnt = {}
    for o in ors:
        for y in atoms(o):
            cnt[y] = cnt.get(y, 0) + 1
    a = max(cnt, key=lambda y: (cnt[y], -y.id))
    base = list(units) + ors
    return sat(_and(base + [a]), steps) or sat(_and(base + [neg(a)]), steps)


def conjuncts(f):
    return list(f.a) if f.k == "and" else ([] if f.k == "true" else [f])


class Cmp(object):
    def __init__(self, steps=LIMIT):
        self.steps = Steps(steps)
        self.memo = {}
        self.fmemo = {}
        self.why = []

    # -- formulas
    def entails(self, f, g):
        """f |= g"""
        if g.k == "true" or f.k == "false" or f is g:
            return True
        if g.k == "and":
            return all(self.entails(f, x) for x in g.a)
        if implies(f, g, 2):
            return True
        # align g's literals with equal-valued literals of f
        g2 = self.align(g, f)
        if g2 is not g and implies(f, g2, 2):
            return True
        rel = self.relevant(f, g2)
        return not sat(_and([rel, neg(g2)]), self.steps)

    def relevant(self, f, g):
        """conjuncts of f connected to g's atoms (dropping conjuncts of f is sound)"""
        cs = conjuncts(f)
        if len(cs) <= 1:
            return f
        want = set(atoms(g))
        ats = [(c, set(atoms(c))) for c in cs]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c, s in ats:
                if s & want or any(self._rel(x, y) for x in s for y in want):
                    out.append(c)
                    if not s <= want:
                        want |= s
                        ch = True
                else:
                    rest.append((c, s))
            ats = rest
        return _and(out)

    @staticmethod
    def _rel(x, y):
        if x.k == "lit" and y.k == "lit" and x.a[0].op == "is" and y.a[0].op == "is":
            return x.a[0].a[0] is y.a[0].a[0]
        if x.k == "all" and y.k == "all":
            return x.a[0] is y.a[0]
        return False

    def align(self, g, f):
        """replace atoms of g that are not atoms of f by atoms of f with the same value"""
        fa = atoms(f)
        m = {}
        for x in atoms(g):
            if x in fa:
                continue
            for y in fa:
                if y.k == x.k and y.a[0].__class__ is x.a[0].__class__:
                    if x.k == "lit":
                        if x.a[0].op == y.a[0].op and self.same(x.a[0], y.a[0], TRUE):
                            m[x] = y
                            break
                    elif self.fsame(x, y, TRUE):
                        m[x] = y
                        break
        return fatoms(g, m) if m else g

    def feq(self, f, g, ctx):
        """f <=> g under ctx"""
        if f is g:
            return True
        k = (f, g, ctx)
        r = self.fmemo.get(k)
        if r is None:
            self.fmemo[k] = False
            r = self.entails(conj([ctx, f]), g) and self.entails(conj([ctx, g]), f)
            self.fmemo[k] = r
        return r

    def fsame(self, f, g, ctx):
        """quantified formulas equal up to domain/body equivalence"""
        if f is g:
            return True
        if f.k != g.k:
            return False
        if f.k in ("all", "ex"):
            r = self.same_binder(f.a[0], g.a[0], ctx)
            if r is None:
                return False
            body = fsubst(g.a[1], r) if r else g.a[1]
            return self.feq(f.a[1], body, ctx)
        return self.feq(f, g, ctx)

    def same_binder(self, b1, b2, ctx):
        """binders over equivalent domains: substitution for the second's body, else None"""
        if b1 is b2:
            return {}
        d1, d2 = b1.a[0], b2.a[0]
        if d1 is d2:
            return {b2: b1} if self.same_kind(b1.a[1], b2.a[1], ctx) else None
        if self.same(d1, d2, ctx):
            m = {b2: b1}
            for op in ("elem", "idx", "key", "val"):
                m[mk(op, b2)] = mk(op, b1)
            return m
        if _plain(b1) and _plain(b2) and d1.op not in NOPOS and d2.op not in NOPOS:
            # lock-step iteration over another sequence of the same length
            l1, l2 = mk_domlen(d1), mk_domlen(d2)
            e = mk_eq(l1, l2)
            if e.k == "true" or (e.k != "false" and ctx.k != "true" and implies(ctx, e)):
                i = mk_idx(b1)
                if d1.op == "range":
                    i = p_sub(i, d1.a[0])
                if d2.op == "range":
                    return {t_elem(b2): p_add(d2.a[0], i), b2: b1}
                return {t_elem(b2): mk_at(d2, i), mk_idx(b2): i, b2: b1}
        return None

    def same_kind(self, k1, k2, ctx):
        if isinstance(k1, tuple) and isinstance(k2, tuple) and k1[0] == k2[0] == "first":
            return self.feq(k1[1], k2[1], ctx)
        if isinstance(k1, tuple) and isinstance(k2, tuple):
            return k1[0] == k2[0]
        return isinstance(k1, int) and isinstance(k2, int)

    # -- terms
    def same(self, x, y, ctx=TRUE):
        if x is y:
            return True
        k = (x, y, ctx)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.steps.tick()
        self.memo[k] = False
        r = self._same(x, y, ctx)
        self.memo[k] = r
        if not r and len(self.why) < 400:
            self.why.append((x, y, ctx))
        return r

    def possible(self, *fs):
        f = conj(list(fs))
        return f.k != "false" and sat(f, self.steps)

    def _same(self, x, y, ctx):
        if x.op == "undef" or y.op == "undef":
            return x.op == y.op
        if x.op == "phi" or y.op == "phi":
            for c1, v1 in alts(x):
                for c2, v2 in alts(y):
                    if v1 is v2:
                        continue
                    cc = conj([ctx, c1, c2])
                    if cc.k == "false" or not sat(cc, self.steps):
                        continue
                    if not self.same(v1, v2, cc if len(conjuncts(cc)) < 60 else ctx):
                        return False
            return True
        if x.op != y.op:
            if x.op == "cond" or y.op == "cond" or (x.op in BOOLY and y.op in BOOLY):
                return self.feq(truth(x), truth(y), ctx)
            # the prefix of a value as long as the value is known to be is the value
            for p, q in ((x, y), (y, x)):
                if p.op == "slice" and p.a[1] is TM.ZERO and p.a[2] is not None and isinstance(p.a[2], T):
                    if not self.possible(ctx, neg(TM.mk_eq(TM.mk_len(p.a[0]), p.a[2]))) and self.same(p.a[0], q, ctx):
                        return True
            # simplification under the assumptions may still make them equal
            return self._assume_same(x, y, ctx)
        op = x.op
        if op == "agg":
            if x.a[1] == "Err" == y.a[1]:
                return True
            return x.a[0] == y.a[0] and x.a[1] == y.a[1] and x.a[2] == y.a[2] and self.all2(x.a[3], y.a[3], ctx)
        if op == "errs":
            return True
        if op == "cond" or op in BOOLY:
            if op in ("eq",) and (
                (self.same(x.a[0], y.a[0], ctx) and self.same(x.a[1], y.a[1], ctx))
                or (self.same(x.a[0], y.a[1], ctx) and self.same(x.a[1], y.a[0], ctx))
            ):
                return True
            # only a test against zero is blind to the sign
            if op == "eq0" and self.poly(x.a[0], y.a[0], ctx, (1, -1)):
                return True
            if op == "cond":
                return self.feq(x.a[0], y.a[0], ctx)
            if op not in ("eq", "eq0") and self.kids(x, y, ctx):
                return True
            return False
        if op == "poly":
            return self.poly(x, y, ctx) or self._assume_same(x, y, ctx)
        if op == "gpoly":
            return (self.same(x.a[0], y.a[0], ctx) and self.poly(x.a[1], y.a[1], ctx)) or self._assume_same(x, y, ctx)
        if op == "seq":
            return self.seqs(x, y, ctx)
        if op == "mapb":
            return self.maps(x, y, ctx)
        if op == "sum":
            r = self.same_binder(x.a[0], y.a[0], ctx)
            return r is not None and self.feq(x.a[1], fsubst(y.a[1], r) if r else y.a[1], ctx)
        if op == "it":
            return self.same(x.a[0], y.a[0], ctx) and self.same_kind(x.a[1], y.a[1], ctx)
        if op == "rand":
            return x.a == y.a or (len(x.a) == len(y.a) and x.a[0] == y.a[0] and self.kids(x, y, ctx))
        if op in ("int", "bool", "sym", "str", "bytes", "named", "lv", "fnref", "static", "mref"):
            return False
        return self.kids(x, y, ctx) or self._assume_same(x, y, ctx)

    def _assume_same(self, x, y, ctx):
        if ctx.k == "true":
            return False
        x2, y2 = assume(x, ctx), assume(y, ctx)
        if x2 is x and y2 is y:
            return False
        return self.same(x2, y2, TRUE if (x2, y2) == (x, y) else ctx)

    def all2(self, xs, ys, ctx):
        return len(xs) == len(ys) and all(self.same(a, b, ctx) for a, b in zip(xs, ys))

    def kids(self, x, y, ctx):
        if len(x.a) != len(y.a):
            return False
        for a, b in zip(x.a, y.a):
            if not self.val(a, b, ctx):
                return False
        return True

    def val(self, a, b, ctx):
        if isinstance(a, T):
            return isinstance(b, T) and self.same(a, b, ctx)
        if isinstance(a, F):
            return isinstance(b, F) and self.feq(a, b, ctx)
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(self.val(p, q, ctx) for p, q in zip(a, b))
        if isinstance(a, frozenset):
            if not isinstance(b, frozenset) or len(a) != len(b):
                return False
            rest = list(b - a)
            for p in a - b:
                for q in rest:
                    if self.val(p, q, ctx):
                        rest.remove(q)
                        break
                else:
                    return False
            return True
        return a == b

    def poly(self, x, y, ctx, signs=(1,)):
        if x is y:
            return True
        d1, d2 = TM._rawpd(x), TM._rawpd(y)
        if set(d1.items()) == set(d2.items()):
            return True
        for sgn in signs:
            r1 = [(m, c) for m, c in d1.items() if d2.get(m) != sgn * c]
            r2 = [(m, sgn * c) for m, c in d2.items() if d1.get(m) != sgn * c]
            if len(r1) == len(r2) and len(r1) <= 40:
                ok = True
                for m, c in r1:
                    for q in r2:
                        if q[1] == c and self.mono(m, q[0], ctx):
                            r2.remove(q)
                            break
                    else:
                        ok = False
                        break
                if ok:
                    return True
        return False

    def mono(self, m1, m2, ctx):
        if len(m1) != len(m2):
            return False
        s2 = set(m2)
        r1 = [a for a in m1 if a not in s2]
        s1 = set(m1)
        r2 = [a for a in m2 if a not in s1]
        if any(a[0].op == "sum" for a in r1):
            # summation binders: rename first
            b1 = sorted([a for a in r1 if a[0].op == "sum"], key=lambda a: show(a[0]))
            b2 = sorted([a for a in r2 if a[0].op == "sum"], key=lambda a: show(a[0]))
            if len(b1) != len(b2):
                return False
            m = {}
            for (u, _), (v, _) in zip(b1, b2):
                r = self.same_binder(u.a[0], v.a[0], ctx)
                if r is None or not self.feq(u.a[1], fsubst(v.a[1], r) if r else v.a[1], ctx):
                    return False
                m.update(r)
            o1 = [a for a in r1 if a[0].op != "sum"]
            o2 = [(subst(a[0], m), a[1]) for a in m2 if a[0].op != "sum"]
            o2 = [a for a in o2 if a not in s1]
            o1 = [a for a in m1 if a[0].op != "sum" and a not in set((subst(z[0], m), z[1]) for z in m2)]
            r1, r2 = o1, o2
        for a in r1:
            for b in r2:
                if a[1] == b[1] and a[0].op == b[0].op and self.same(a[0], b[0], ctx):
                    r2.remove(b)
                    break
            else:
                return False
        return not r2

    def seqs(self, x, y, ctx):
        if len(x.a[0]) == len(y.a[0]) and all(self.seg(s, t, ctx) for s, t in zip(x.a[0], y.a[0])):
            return True
        p, q = self.single(x.a[0], ctx), self.single(y.a[0], ctx)
        p, q = self.align_segs(p, q, ctx)
        if (p, q) == (x.a[0], y.a[0]) or len(p) != len(q):
            return False
        return all(self.seg(s, t, ctx) for s, t in zip(p, q))

    def align_segs(self, p, q, ctx):
        """a single element against an iteration known not to be empty: its first element and the rest"""
        p, q = list(p), list(q)
        i = 0
        while i < len(p) and i < len(q) and i < 6:
            if p[i][0] != q[i][0]:
                for a, b in ((p, q), (q, p)):
                    if a[i][0] == "item" and b[i][0] == "each":
                        r = self.peel(b[i], ctx)
                        if r is not None:
                            b[i : i + 1] = r
            i += 1
        return tuple(p), tuple(q)

    def peel(self, s, ctx):
        b, d = s[1], s[1].a[0]
        if s[3].k != "true" or not _plain(b) or d.op in NOPOS or (d.op == "range" and d.a[0].op != "int"):
            return None
        n = mk_domlen(d)
        if not self.entails(ctx, mk_lt(ZERO, n)):
            return None
        nb = it(mk_range(p_add(d.a[0], ONE), d.a[1]) if d.op == "range" else mk_range(ONE, n), 0)
        rest = subst(s[2], {t_elem(b): t_elem(nb)}) if d.op == "range" else at_point(s[2], b, t_elem(nb))
        return [("item", at_point(s[2], b, ZERO)), self.close_each(nb, subst(rest, {b: nb}))]

    def close_each(self, b, v):
        bb, (v,), _ = TM.bind(b, (v,), ())
        return ("each", bb, v, TRUE)

    def single(self, segs, ctx):
        """iterations over a domain that ctx fixes to one element, written out"""
        if ctx.k == "true":
            return segs
        out = []
        for s in segs:
            if s[0] == "each" and s[3].k == "true" and _plain(s[1]) and s[1].a[0].op not in NOPOS:
                e = mk_eq(mk_domlen(s[1].a[0]), ONE)
                if e.k != "false" and implies(ctx, e):
                    s = ("item", at_point(s[2], s[1], ZERO))
            out.append(s)
        return tuple(out)

    def seg(self, s, t, ctx):
        if s == t:
            return True
        if s[0] != t[0] or len(s) != len(t):
            return False
        if s[0] == "each":
            r = self.same_binder(s[1], t[1], ctx)
            if r is None:
                return False
            for a, b in zip(s[2:], t[2:]):
                if isinstance(a, T):
                    if not self.same(a, subst(b, r) if r else b, ctx):
                        return False
                elif not self.feq(a, fsubst(b, r) if r else b, ctx):
                    return False
            return True
        return all(self.val(a, b, ctx) for a, b in zip(s[1:], t[1:]))

    def maps(self, x, y, ctx):
        if (x.a[0] is None) != (y.a[0] is None) or x.a[2] != y.a[2]:
            return False
        if x.a[0] is not None and not self.same(x.a[0], y.a[0], ctx):
            return False
        return len(x.a[1]) == len(y.a[1]) and all(self.seg(s, t, ctx) for s, t in zip(x.a[1], y.a[1]))


def _plain(b):
    k = b.a[1]
    return isinstance(k, int) or (isinstance(k, tuple) and k[0] == "b")


NOPOS = frozenset(["keys", "mapb"])

BOOLY = frozenset(["eq", "eq0", "lt", "is", "has", "bool", "cond"])


def fatoms(f, m):
    """replace propositional atoms"""
    if f in m:
        return m[f]
    k = f.k
    if k in ("lit", "ex") and neg(f) in m:
        return neg(m[neg(f)])
    if k == "and":
        return conj([fatoms(x, m) for x in f.a])
    if k == "or":
        return disj([fatoms(x, m) for x in f.a])
    return f


def assume(t, ctx):
    """resolve gates inside t under the literal facts of ctx"""
    facts = set(c for c in conjuncts(ctx))
    memo = {}

    def ff(f):
        if f in facts:
            return TRUE
        if f.k in ("lit", "all", "ex"):
            if neg(f) in facts:
                return FALSE
            if f.k == "lit":
                return fmap(f, go)
            return fmap(f, go)
        if f.k in ("and", "or") and neg(f) in facts:
            return FALSE
        if f.k == "and":
            return conj([ff(x) for x in f.a])
        if f.k == "or":
            return disj([ff(x) for x in f.a])
        return f

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in TM.LEAVES:
            return x
        memo[x] = x
        r = rebuild(x, go, ff)
        memo[x] = r
        return r

    return go(t)
