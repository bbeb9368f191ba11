"""Hash-consed value terms, polynomial normal forms and path-condition formulas.

A term denotes the value an expression has on one abstract run of a function.  Equal
values built in different ways (operator order, temporaries, helper functions, loop
forms) get the same term as far as the normal forms below can tell.
"""
import hashlib
import itertools, sys

sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ("op", "a", "id", "_s", "_at", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_ids = itertools.count(1)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        t._s = None
        t._at = None
        _tab[k] = t
    return t


# ---------------------------------------------------------------- basic constructors
def const(v):
    return mk("int", int(v))


def is_int(t):
    return t.op == "int"


TRUE_T = mk("bool", 1)
FALSE_T = mk("bool", 0)
UNIT = mk("tuple")
ZERO = const(0)
ONE = const(1)


def sym(n):
    return mk("sym", n)


def string(s):
    return mk("str", s)


def tup(*xs):
    return mk("tuple", *xs)


def agg(path, variant, names, vals):
    return mk("agg", path, variant, tuple(names), tuple(vals))


def Ok(v):
    return agg("core::result::Result", "Ok", ("0",), (v,))


def Err(v):
    return agg("core::result::Result", "Err", ("0",), (v,))


def Some(v):
    return agg("core::option::Option", "Some", ("0",), (v,))


NONE = agg("core::option::Option", "None", (), ())


def app(name, *args):
    return mk("app", name, tuple(args))


# ---------------------------------------------------------------- iteration points
def it(dom, k=0):
    return mk("it", dom, k)


def t_elem(b):
    return mk("elem", b)


def t_key(b):
    return mk("key", b)


def t_val(b):
    return mk("val", b)


def t_idx(b):
    d = b.a[0]
    return mk("idx", b)


# ---------------------------------------------------------------- polynomials
# mono: tuple of (atom, power) sorted by atom id; poly: T('poly', ((mono, coef), ...))
def _pd(t):
    """term -> {mono: coef}"""
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    return {((t, 1),): 1}


def _mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        ((m, c),) = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x.op == "pt":
                return x.a[0]
            return x
    items = tuple(sorted(d.items(), key=lambda mc: (tuple((x.id, p) for x, p in mc[0]), mc[1])))
    return mk("poly", items)


def _mono_mul(m1, m2):
    s1 = [x for x, p in m1 if x.op == "sum"]
    if s1:
        s2 = [x for x, p in m2 if x.op == "sum"]
        if s2:
            b1 = {x.a[0] for x in s1}
            clash = [x.a[0] for x in s2 if x.a[0] in b1]
            if clash:
                # two independent sums over the same domain: rename the second's variable
                ren = {}
                for b in clash:
                    h = 1 + max([bheight(x, b.a[0]) for x, p in m1 + m2])
                    ren[b] = mk("it", b.a[0], ("b", h))
                memo = {}
                m2 = tuple((_sub(x, ren, memo), p) for x, p in m2)
    d = {}
    for x, p in m1:
        d[x] = d.get(x, 0) + p
    for x, p in m2:
        d[x] = d.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in d.items() if p), key=lambda xp: xp[0].id))


_bh = {}


def bheight(t, dom):
    """largest height of a bound iteration point over dom inside t (-1: none)"""
    k = (t, dom)
    r = _bh.get(k)
    if r is None:
        r = -1
        for x in subterms(t):
            if x.op == "it" and x.a[0] is dom and isinstance(x.a[1], tuple) and x.a[1][0] == "b":
                r = max(r, x.a[1][1])
        _bh[k] = r
    return r


def fbheight(f, dom):
    r = -1
    for t in f_terms(f):
        r = max(r, bheight(t, dom))
    return r


def bind(b, ts=(), fs=()):
    """close over iteration point b: -> (binder, terms, formulas)"""
    dom = b.a[0]
    h = -1
    for t in ts:
        h = max(h, bheight(t, dom))
    for f in fs:
        h = max(h, fbheight(f, dom))
    bb = mk("it", dom, ("b", h + 1))
    m = {b: bb}
    memo = {}
    return bb, [subst(t, m, memo) for t in ts], [fsubst(f, m, memo) for f in fs]


LIFT = 6


def _nalts(t):
    return len(t.a[0]) if t.op == "phi" else 1


def _lift2(f, a, b):
    """apply a binary operation under (small) phis"""
    if (a.op == "phi" or b.op == "phi") and _nalts(a) * _nalts(b) <= LIFT:
        return mk_phi([(conj([c1, c2]), f(x, y)) for c1, x in alts(a) for c2, y in alts(b)])
    return None


def p_add(a, b):
    if a.op == "phi" or b.op == "phi":
        r = _lift2(p_add, a, b)
        if r is not None:
            return r
    d = _pd(a)
    for m, c in _pd(b).items():
        d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def p_divc(a, n):
    """a / n when every coefficient is divisible"""
    if a.op == "int":
        return const(a.a[0] // n) if a.a[0] % n == 0 else None
    if a.op != "poly":
        return a if n == 1 else None
    d = {m: c for m, c in a.a[0]}
    if any(not isinstance(c, int) or c % n for c in d.values()):
        return None
    return _mk_poly({m: c // n for m, c in d.items()})


def p_neg(a):
    if a.op == "phi":
        return mk_phi([(c, p_neg(v)) for c, v in a.a[0]])
    return _mk_poly({m: -c for m, c in _pd(a).items()})


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_mul(a, b):
    if a.op == "phi" or b.op == "phi":
        r = _lift2(p_mul, a, b)
        if r is not None:
            return r
    da, db = _pd(a), _pd(b)
    if len(da) * len(db) > 4000:
        return app("mul", *sorted((a, b), key=lambda t: t.id))
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mk_poly(d)


def p_pow(a, n):
    """integer power (n python int >= 0, or term)"""
    if isinstance(n, T):
        if n.op == "int":
            n = n.a[0]
        else:
            if a.op == "int" and a.a[0] == 1:
                return ONE
            return mk("pow", a, n)
    if n < 0 or n > 8:
        if a.op == "int" and n >= 0:
            return const(a.a[0] ** n)
        return mk("pow", a, const(n))
    r = ONE
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_inv(a):
    """multiplicative inverse of a scalar"""
    d = _pd(a)
    if len(d) == 1:
        ((m, c),) = d.items()
        if abs(c) == 1 and all(x.op not in ("pt", "gb", "e") for x, p in m):
            return _mk_poly({tuple((x, -p) for x, p in m): c})
    return mk("inv", a)


GROUPISH = ("pt", "gb", "e")


def _n_group(m, kinds):
    return sum(p for x, p in m if x.op in kinds)


def to_pt(t):
    """view a term as a linear combination of group elements (additive notation)"""
    if t.op == "phi":
        return mk_phi([(c, to_pt(v)) for c, v in t.a[0]])
    if t.op == "int" and t.a[0] == 0:
        return ZERO
    if t.op == "poly" and all(_n_group(m, ("pt", "e")) == 1 for m, c in t.a[0]):
        return t
    if t.op == "pt":
        return mk("poly", ((((t, 1),), 1),))
    return mk("poly", ((((mk("pt", t), 1),), 1),))


def pt_add(a, b):
    if a.op == "phi" or b.op == "phi":
        r = _lift2(pt_add, a, b)
        if r is not None:
            return r
    return _mk_pt_poly(_merge(to_pt(a), to_pt(b), 1))


def _merge(a, b, sgn):
    d = _rawpd(a)
    for m, c in _rawpd(b).items():
        d[m] = d.get(m, 0) + sgn * c
    return d


def _rawpd(t):
    if t.op == "poly":
        return dict(t.a[0])
    return _pd(t)


def _mk_pt_poly(d):
    return _mk_poly(d)


def pt_sub(a, b):
    if a.op == "phi" or b.op == "phi":
        r = _lift2(pt_sub, a, b)
        if r is not None:
            return r
    return _mk_poly(_merge(to_pt(a), to_pt(b), -1))


def pt_neg(a):
    if a.op == "phi":
        return mk_phi([(c, pt_neg(v)) for c, v in a.a[0]])
    return _mk_poly({m: -c for m, c in _rawpd(to_pt(a)).items()})


def pt_scale(p, s):
    """s*P"""
    if p.op == "phi":
        return mk_phi([(c, pt_scale(v, s)) for c, v in p.a[0]])
    if s.op == "phi":
        return mk_phi([(c, pt_scale(p, v)) for c, v in s.a[0]])
    da, db = _rawpd(to_pt(p)), _pd(s)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mk_poly(d)


def pairing(p, q):
    """bilinear expansion of e(p, q) in additive notation"""
    if p.op == "phi" or q.op == "phi":
        r = _lift2(pairing, p, q)
        if r is not None:
            return r
    dp, dq = _rawpd(to_pt(p)), _rawpd(to_pt(q))
    d = {}
    for m1, c1 in dp.items():
        for m2, c2 in dq.items():
            g1 = [x for x, pw in m1 if x.op in ("pt", "e")][0]
            g2 = [x for x, pw in m2 if x.op in ("pt", "e")][0]
            r1 = tuple((x, pw) for x, pw in m1 if x is not g1)
            r2 = tuple((x, pw) for x, pw in m2 if x is not g2)
            e = mk("e", g1.a[0] if g1.op == "pt" else g1, g2.a[0] if g2.op == "pt" else g2)
            m = _mono_mul(_mono_mul(r1, r2), ((e, 1),))
            d[m] = d.get(m, 0) + c1 * c2
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        # keep it a poly so that it is recognisably a GT element
        return mk("poly", tuple(d.items()))
    return _mk_poly(d)


# multiplicative group modulo n, written additively
def to_g(n, t):
    if t.op == "int" and t.a[0] == 1:
        return ZERO
    if t.op == "phi":
        return mk_phi([(c, to_g(n, v)) for c, v in t.a[0]])
    if t.op == "gpoly" and t.a[0] is n:
        return t.a[1]
    if t.op == "poly" and len(t.a[0]) == 1:
        # a plain product of values
        ((m, c),) = t.a[0]
        if c == 1 and (len(m) > 1 or m[0][1] > 1) and all(p > 0 and x.op not in ("sum", "pt", "e", "gb") for x, p in m):
            d = {}
            for x, p in m:
                for mm, cc in _rawpd(to_g(n, x)).items():
                    d[mm] = d.get(mm, 0) + cc * p
            return _raw(d)
    return mk("poly", ((((mk("gb", n, t), 1),), 1),))


def from_g(n, p):
    """additive poly -> value"""
    if p.op == "phi":
        return mk_phi([(c, from_g(n, v)) for c, v in p.a[0]])
    d = _rawpd(p)
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ONE
    if len(d) == 1:
        ((m, c),) = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "gb":
            return m[0][0].a[1]
    items = tuple(sorted(d.items(), key=lambda mc: (tuple((x.id, pw) for x, pw in mc[0]), mc[1])))
    return mk("gpoly", n, mk("poly", items))


def _lift(f, *xs):
    """apply f through phis"""
    for i, x in enumerate(xs):
        if x.op == "phi":
            return mk_phi([(c, _lift(f, *(xs[:i] + (v,) + xs[i + 1 :]))) for c, v in x.a[0]])
    return f(*xs)


def g_exp(b, e, n):
    return _lift(lambda b, e: from_g(n, _gscale(to_g(n, b), e)), b, e)


def _gscale(p, s):
    da, db = _rawpd(p), _pd(s)
    d = {}
    if len(da) * len(db) > 4000:
        return mk("poly", ((((mk("gb", sym("?"), app("bigexp", p, s)), 1),), 1),))
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _raw(d)


def _raw(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: (tuple((x.id, p) for x, p in mc[0]), mc[1]))))


def g_mul(a, b, n):
    return _lift(lambda a, b: from_g(n, _raw(_merge(to_g(n, a), to_g(n, b), 1))), a, b)


def g_div(a, b, n):
    return _lift(lambda a, b: from_g(n, _raw(_merge(to_g(n, a), to_g(n, b), -1))), a, b)


def g_inv(a, n):
    return _lift(lambda a: from_g(n, _raw(_merge(ZERO, to_g(n, a), -1))), a)


# ---------------------------------------------------------------- formulas
class F(object):
    __slots__ = ("k", "a", "id", "size", "_s", "_neg")

    def __repr__(self):
        return fshow(self)


_ftab = {}


def _mkf(k, a):
    key = (k, a)
    f = _ftab.get(key)
    if f is None:
        f = F()
        f.k = k
        f.a = a
        f.id = next(_ids)
        f._s = None
        f._neg = None
        if k in ("and", "or"):
            f.size = 1 + sum(x.size for x in a)
        elif k in ("all", "ex"):
            f.size = 1 + a[1].size
        else:
            f.size = 1
        _ftab[key] = f
    return f


TRUE = _mkf("true", ())
FALSE = _mkf("false", ())


def lit(t, pos=True):
    return _mkf("lit", (t, pos))


def neg(f):
    if f._neg is not None:
        return f._neg
    k = f.k
    if k == "true":
        r = FALSE
    elif k == "false":
        r = TRUE
    elif k == "lit":
        r = lit(f.a[0], not f.a[1])
    elif k == "and":
        r = disj([neg(x) for x in f.a])
    elif k == "or":
        r = conj([neg(x) for x in f.a])
    elif k == "all":
        r = _mkf("ex", (f.a[0], neg(f.a[1])))
    elif k == "ex":
        r = _mkf("all", (f.a[0], neg(f.a[1])))
    f._neg = r
    r._neg = f
    return r


def conj(fs):
    out = set()
    st = list(fs)
    while st:
        f = st.pop()
        if f.k == "true":
            continue
        if f.k == "false":
            return FALSE
        if f.k == "and":
            st.extend(f.a)
        else:
            out.add(f)
    # unit propagation into 'or's
    changed = True
    while changed:
        changed = False
        for f in list(out):
            if f.k == "lit" and _mkf("lit", (f.a[0], not f.a[1])) in out:
                return FALSE
            if f.k in ("all", "ex") and neg(f) in out:
                return FALSE
            if f.k == "or":
                keep = []
                sat = False
                mod = False
                for d in f.a:
                    r = _under(d, out, f)
                    if r.k == "true":
                        sat = True
                        break
                    if r is not d:
                        mod = True
                    if r.k != "false":
                        keep.append(r)
                if sat:
                    out.discard(f)
                    changed = True
                elif mod:
                    out.discard(f)
                    n = disj(keep)
                    if n.k == "false":
                        return FALSE
                    if n.k == "and":
                        out.update(n.a)
                    elif n.k != "true":
                        out.add(n)
                    changed = True
            if changed:
                break
    # of several bounds on the same quantity only the strongest remains
    lts = [f for f in out if f.k == "lit" and f.a[0].op == "lt"]
    if len(lts) > 1:
        best = {}
        for f in lts:
            x, y = f.a[0].a
            pos = f.a[1]
            if y.op == "int":
                w, v, up = x, y.a[0], pos  # x < v (upper) / x >= v (lower)
                key = (w, up)
                better = (lambda p, q: p < q) if up else (lambda p, q: p > q)
            elif x.op == "int":
                # v < y: y >= v+1 (lower) ; not: y <= v  i.e. y < v+1 (upper)
                w, v, up = y, x.a[0] + 1, not pos
                key = (w, up)
                better = (lambda p, q: p < q) if up else (lambda p, q: p > q)
            else:
                continue
            if w.op != "len" and not (w.op == "poly" and _lenpoly(w)):
                continue
            o = best.get(key)
            if o is None or better(v, o[0]):
                if o is not None:
                    out.discard(o[1])
                best[key] = (v, f)
            elif o is not None and f is not o[1]:
                out.discard(f)
        for (w, up), (v, f) in best.items():
            if up and (w, False) in best and best[(w, False)][0] >= v:
                return FALSE
    # enum literals: is(v,A) and is(v,B) contradict for A != B
    seen = {}
    for f in out:
        if f.k == "lit" and f.a[1] and f.a[0].op == "is":
            v = f.a[0].a[0]
            if v in seen and seen[v] != f.a[0].a[1]:
                return FALSE
            seen[v] = f.a[0].a[1]
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mkf("and", frozenset(out))


def _under(d, facts, skip):
    """simplify disjunct d given the conjuncts in facts"""
    if d in facts and d is not skip:
        return TRUE
    if d.k in ("lit", "all", "ex"):
        if neg(d) in facts:
            return FALSE
        return d
    if d.k == "and":
        keep = []
        mod = False
        for x in d.a:
            if x in facts:
                mod = True
                continue
            if x.k in ("lit", "all", "ex") and neg(x) in facts:
                return FALSE
            keep.append(x)
        if mod:
            return conj(keep)
    return d


def disj(fs):
    out = set()
    st = list(fs)
    while st:
        f = st.pop()
        if f.k == "false":
            continue
        if f.k == "true":
            return TRUE
        if f.k == "or":
            st.extend(f.a)
        else:
            out.add(f)
    if not out:
        return FALSE
    changed = True
    while changed and len(out) > 1:
        changed = False
        for f in list(out):
            if f.k in ("lit", "all", "ex") and neg(f) in out:
                return TRUE
        # factor common conjuncts
        sets = [set(f.a) if f.k == "and" else {f} for f in out]
        common = set.intersection(*sets)
        if common:
            rest = [conj(s - common) for s in sets]
            return conj(list(common) + [disj(rest)])
        # absorption & complementary merge
        lst = sorted(out, key=lambda f: f.size)
        for i, f in enumerate(lst):
            si = set(f.a) if f.k == "and" else {f}
            for g in lst:
                if g is f:
                    continue
                sj = set(g.a) if g.k == "and" else {g}
                if si <= sj:
                    out.discard(g)
                    changed = True
                    break
                # f = a & R..., g = !a & ...: if f minus a subset of g minus !a then drop !a from g
                drop = [x for x in sj if x.k in ("lit", "all", "ex") and neg(x) in si]
                if len(drop) == 1 and (si - {neg(drop[0])}) <= (sj - {drop[0]}):
                    out.discard(g)
                    out.add(conj(sj - {drop[0]}))
                    changed = True
                    break
            if changed:
                break
    if TRUE in out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mkf("or", frozenset(out))


def f_all(dom, f):
    if f.k == "true":
        return TRUE
    if f.k == "and":
        return conj([f_all(dom, x) for x in f.a])
    return _mkf("all", (dom, f))


def f_ex(dom, f):
    if f.k == "false":
        return FALSE
    return neg(f_all(dom, neg(f)))


def implies(f, g, depth=6):
    """sound, incomplete: f |= g"""
    if g.k == "true" or f.k == "false" or f is g:
        return True
    if g.k == "and":
        return all(implies(f, x, depth) for x in g.a)
    cs = set(f.a) if f.k == "and" else {f}
    if g in cs:
        return True
    if g.k == "lit" and g.a[0].op in ("lt", "eq0"):
        d = _lin_lit(g, True)
        if d is not None:
            for c in cs:
                e = _lin_lit(c, False)
                if e is not None and _lin_ge(d, e):
                    return True
    if g.k == "or":
        if any(implies(f, x, depth) for x in g.a if x.k != "or"):
            return True
        # assume the negation of all-but-one disjunct
        gs = list(g.a)
        for x in gs:
            rest = [neg(y) for y in gs if y is not x]
            h = conj([f] + rest)
            if h.k == "false" or (h is not f and depth > 0 and x in (set(h.a) if h.k == "and" else {h})):
                return True
    if g.k == "all":
        for c in cs:
            if c.k == "all" and c.a[0] is g.a[0] and implies(c.a[1], g.a[1], depth - 1):
                return True
        inner = [c.a[1] for c in cs if c.k == "all" and c.a[0] is g.a[0]]
        if len(inner) > 1 and implies(conj(inner), g.a[1], depth - 1):
            return True
    if depth <= 0:
        return False
    ors = sorted((c for c in cs if c.k == "or"), key=lambda c: len(c.a))
    for c in ors:
        rest = [x for x in cs if x is not c]
        if all(_implies_case(rest, d, g, depth - 1) for d in c.a):
            return True
    return False


def _lin_lit(f, goal):
    """the linear form d with: literal f <=> d >= 0 (goal: d >= 0 => f is enough)"""
    if f.k != "lit":
        return None
    t = f.a[0]
    if t.op == "lt":
        a, b = t.a
        if a.op in ("phi", "tuple", "seq", "str", "bytes") or b.op in ("phi", "tuple", "seq", "str", "bytes"):
            return None
        d = dict(_merge(b, a, -1)) if f.a[1] else dict(_merge(a, b, -1))
        if f.a[1]:
            d[()] = d.get((), 0) - 1
        return d
    if t.op == "eq0" and not f.a[1] and (goal or t.a[0].op == "len"):
        d = dict(_rawpd(t.a[0]))
        d[()] = d.get((), 0) - 1
        return d
    return None


def _lin_ge(d, e):
    """d - e is a constant >= 0"""
    k = d.get((), 0) - e.get((), 0)
    return k >= 0 and all(c == e.get(m, 0) for m, c in d.items() if m != ()) and all(d.get(m, 0) == c for m, c in e.items() if m != ())


def _implies_case(rest, d, g, depth):
    h = conj(rest + [d])
    return implies(h, g, depth)


def fmap(f, fn):
    """rebuild a formula mapping literal terms (fn: term -> term)"""
    k = f.k
    if k == "lit":
        t = fn(f.a[0])
        if t is f.a[0]:
            return f
        g = truth(t)
        return g if f.a[1] else neg(g)
    if k == "and":
        return conj([fmap(x, fn) for x in f.a])
    if k == "or":
        return disj([fmap(x, fn) for x in f.a])
    if k == "all":
        return f_all(fn(f.a[0]), fmap(f.a[1], fn))
    if k == "ex":
        return f_ex(fn(f.a[0]), fmap(f.a[1], fn))
    return f


def f_lits(f):
    """all literals (with polarity) anywhere in f"""
    if f.k == "lit":
        yield f
    elif f.k in ("and", "or"):
        for x in f.a:
            for y in f_lits(x):
                yield y
    elif f.k in ("all", "ex"):
        for y in f_lits(f.a[1]):
            yield y


# ---------------------------------------------------------------- booleans as terms
def truth(t):
    """boolean term -> formula"""
    if t.op == "bool":
        return TRUE if t.a[0] else FALSE
    if t.op == "int":
        return TRUE if t.a[0] else FALSE
    if t.op == "cond":
        return t.a[0]
    if t.op == "phi":
        return disj([conj([c, truth(v)]) for c, v in t.a[0]])
    if t.op == "not":
        return neg(truth(t.a[0]))
    if t.op == "has":
        return mk_has(t.a[0], t.a[1])
    return lit(t)


def cond(f):
    if f.k == "true":
        return TRUE_T
    if f.k == "false":
        return FALSE_T
    if f.k == "lit" and f.a[1]:
        return f.a[0]
    return mk("cond", f)


def is_bool_const(t):
    return t.op == "bool"


# ---------------------------------------------------------------- phi
MAXPHI = 24


def mk_phi(alts):
    """alts: list of (formula, term)"""
    flat = []
    for c, v in alts:
        if c.k == "false":
            continue
        if v.op == "phi":
            for c2, v2 in v.a[0]:
                cc = conj([c, c2])
                if cc.k != "false":
                    flat.append((cc, v2))
        else:
            flat.append((c, v))
    if not flat:
        return mk("undef")
    by = {}
    order = []
    for c, v in flat:
        if v in by:
            by[v].append(c)
        else:
            by[v] = [c]
            order.append(v)
    if len(order) == 1:
        return order[0]
    alts = [(disj(by[v]), v) for v in order]
    if all(v.op == "bool" or v.op == "cond" for c, v in alts):
        return cond(disj([conj([c, truth(v)]) for c, v in alts]))
    # merge all Err alternatives into one
    errs = [(c, v) for c, v in alts if v.op == "agg" and v.a[1] == "Err" and v.a[0].endswith("Result")]
    if len(errs) > 1:
        rest = [(c, v) for c, v in alts if not (v.op == "agg" and v.a[1] == "Err" and v.a[0].endswith("Result"))]
        e = Err(mk("errs", frozenset(x for c, v in errs for x in _errset(v.a[3][0]))))
        if rest:
            alts = rest + [(disj([c for c, v in errs]), e)]
        else:
            return e
    if len(alts) == 1:
        return alts[0][1]
    if len(alts) == 2:
        # if X == 0 then 0 else k*X  is  k*X
        for (c1, v1), (c2, v2) in (alts, alts[::-1]):
            if v1.op == "int" and v1.a[0] == 0 and c1.k == "lit" and c1.a[1] and c2 is neg(c1) and v2.op == "poly":
                e = mk_eq0(v2)
                if e is c1:
                    return v2
    if len(alts) > MAXPHI:
        return mk("join", frozenset(v for c, v in alts))
    return mk("phi", tuple(sorted(alts, key=lambda cv: cv[1].id)))


def _errset(t):
    if t.op == "errs":
        return t.a[0]
    return (t,)


def alts(t):
    if t.op == "phi":
        return t.a[0]
    return ((TRUE, t),)


# ---------------------------------------------------------------- comparisons
def mk_eq(a, b):
    """formula a == b"""
    if a is b:
        return TRUE
    if a.op == "phi" or b.op == "phi":
        xs = []
        for c1, v1 in alts(a):
            for c2, v2 in alts(b):
                xs.append(conj([c1, c2, mk_eq(v1, v2)]))
        return disj(xs)
    if a.op == "bool" and b.op in ("bool", "cond", "eq", "is", "lt", "has"):
        return truth(b) if a.a[0] else neg(truth(b))
    if b.op == "bool":
        return truth(a) if b.a[0] else neg(truth(a))
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return conj([mk_eq(x, y) for x, y in zip(a.a[3], b.a[3])])
    if a.op == "agg" and a.a[1] in ("Some", "Ok", "None", "Err") and b.op not in ("agg",):
        return conj([mk_is(b, a.a[1])] + [mk_eq(x, payload(b, a.a[1], i)) for i, x in enumerate(a.a[3])])
    if b.op == "agg" and b.a[1] in ("Some", "Ok", "None", "Err"):
        return mk_eq(b, a)
    if a.op == "agg" and not a.a[3]:
        return mk_isn(b, ENUMS.get(a.a[0], ()), a.a[1])
    if b.op == "agg" and not b.a[3]:
        return mk_isn(a, ENUMS.get(b.a[0], ()), b.a[1])
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return conj([mk_eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "gpoly" or b.op == "gpoly":
        n = a.a[0] if a.op == "gpoly" else b.a[0]
        d = _merge(to_g(n, a), to_g(n, b), -1)
        return mk_eq0(_raw(d))
    pa, pb = _is_pt_poly(a), _is_pt_poly(b)
    if pa or pb:
        return mk_eq0(_raw(_merge(to_pt(a), to_pt(b), -1)))
    if a.op in ("poly", "int") or b.op in ("poly", "int"):
        return mk_eq0(p_sub(a, b))
    if a.id > b.id:
        a, b = b, a
    return lit(mk("eq", a, b))


def _is_pt_poly(t):
    return t.op == "poly" and all(_n_group(m, ("pt", "e")) == 1 for m, c in t.a[0])


def mk_eq0(p):
    """formula p == 0 for a poly term"""
    if p.op == "int":
        return TRUE if p.a[0] == 0 else FALSE
    if p.op == "phi":
        return disj([conj([c, mk_eq0(v)]) for c, v in p.a[0]])
    if p.op == "count":
        return f_all(p.a[0], neg(p.a[1]))
    if p.op == "poly" and len(p.a[0]) > 1:
        # a sum of lengths and counts is zero when each of them is
        ms = p.a[0]
        if all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("len", "count") for m, c in ms) and (all(c > 0 for m, c in ms) or all(c < 0 for m, c in ms)):
            return conj([mk_eq0(m[0][0]) for m, c in ms])
    if p.op == "poly" and len(p.a[0]) == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0][1] == 1 and p.a[0][0][0][0][0].op in ("len", "count"):
        p = p.a[0][0][0][0][0]
        return mk_eq0(p)
    if p.op != "poly":
        if _ranged(p) and (_lower(_pd(p)) or 0) > 0:
            return FALSE
        return lit(mk("eq0", p))
    items = list(p.a[0])
    if len(items) == 2:
        # x % 2 == 1 is the negation of x % 2 == 0
        d = dict(items)
        k = d.get(())
        (m, c), = [mc for mc in items if mc[0] != ()] if k is not None else ((None, 0),)
        if k in (1, -1) and c == -k and len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x.op == "app" and x.a[0] == "Rem" and x.a[1][1].op == "int" and x.a[1][1].a[0] == 2 and _nonneg(x.a[1][0]):
                return neg(mk_eq0(x))
    if any(len(m) == 1 and _ranged(m[0][0]) for m, c in items) and all(len(m) <= 1 for m, c in items):
        lo = _lower(_pd(p))
        if lo is None or lo <= 0:
            lo = _lower({m: -c for m, c in items})
        if lo is not None and lo > 0:
            return FALSE
    if _lenpoly(p):
        lo = _lower(_pd(p))
        if lo is None:
            lo = _lower({m: -c for m, c in items})
        if lo is not None and lo > 0:
            return FALSE
    if len(items) == 2:
        (m1, c1), (m2, c2) = items
        if c1 + c2 == 0 and abs(c1) == 1 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
            x, y = m1[0][0], m2[0][0]
            if x.op in ("pt", "gb") and y.op == x.op:
                x, y = x.a[-1], y.a[-1]
            if x.op not in ("e",) and y.op not in ("e",):
                if x.id > y.id:
                    x, y = y, x
                return lit(mk("eq", x, y))
        # x == const
    lead = min(items, key=lambda mc: (-len(mc[0]), mono_str(mc[0])))
    if lead[1] < 0:
        p = _raw({m: -c for m, c in items})
    return lit(mk("eq0", p))


def mono_str(m):
    return "*".join(sorted(show(x) + ("^%d" % pw if pw != 1 else "") for x, pw in m))


def _lenpoly(t):
    return all(all(x.op in ("len", "idx") and p == 1 for x, p in m) and len(m) <= 1 for m in _pd(t))


def mk_lt(a, b):
    """formula a < b"""
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a is b:
        return FALSE
    if a.op == "phi" or b.op == "phi":
        xs = []
        for c1, v1 in alts(a):
            for c2, v2 in alts(b):
                xs.append(conj([c1, c2, mk_lt(v1, v2)]))
        return disj(xs)
    # integer comparisons over lengths and indices: the constant goes to the right
    if (a.op == "poly" and b.op in ("int", "len", "poly") or b.op == "poly" and a.op in ("len", "int")) and _lenpoly(a) and _lenpoly(b):
        d = _pd(a)
        for m, c in _pd(b).items():
            d[m] = d.get(m, 0) - c
        k = d.pop((), 0)
        lo = {m: c for m, c in d.items() if c > 0}
        hi = {m: -c for m, c in d.items() if c < 0}
        if not hi or not lo:
            hi[()] = hi.get((), 0) - k
        elif k > 0:
            lo[()] = k
        else:
            hi[()] = -k
        a2, b2 = _mk_poly(lo), _mk_poly(hi)
        if a2 is not a or b2 is not b:
            return mk_lt(a2, b2)
    if a.op == "poly" or b.op == "poly" or _ranged(a) or _ranged(b):
        d = _merge(a, b, -1)
        lo = _lower(d)
        if lo is not None and lo >= 0:
            return FALSE
        lo = _lower({m: -c for m, c in d.items()})
        if lo is not None and lo > 0:
            return TRUE
    if a.op == "int" and b.op == "len" and a.a[0] == 0:
        return neg(mk_eq0(b))
    if b.op == "int" and a.op == "len":
        if b.a[0] <= 0:
            return FALSE
        if b.a[0] == 1:
            return mk_eq0(a)
    if a.op == "int":
        # constants on the right: c < b is not b < c + 1
        return neg(mk_lt(b, const(a.a[0] + 1)))
    return lit(mk("lt", a, b))


def lower_bound(p):
    """a lower bound of a polynomial over lengths, positions and unsigned integers, if one is evident"""
    return _lower(_pd(p))


def _lower(d):
    # a position is below the length of what is traversed: c * idx >= c * (len - 1) for a negative c
    for m, c in list(d.items()):
        if len(m) == 1 and isinstance(c, int) and m[0][1] == 1 and _ranged(m[0][0]):
            # an element of lo..hi: at least lo, at most hi - 1
            r = m[0][0].a[0].a[0]
            if c > 0 and r.a[0].op != "int":
                continue
            d = dict(d)
            del d[m]
            for m2, c2 in _pd(r.a[0] if c > 0 else r.a[1]).items():
                d[m2] = d.get(m2, 0) + c * c2
            if c < 0:
                d[()] = d.get((), 0) - c
        elif len(m) == 1 and isinstance(c, int) and c < 0 and m[0][0].op == "idx" and m[0][1] == 1:
            n = mk_domlen(m[0][0].a[0].a[0])
            d = dict(d)
            del d[m]
            for m2, c2 in _pd(n).items():
                d[m2] = d.get(m2, 0) + c * c2
            d[()] = d.get((), 0) - c
    d = {m: c for m, c in d.items() if c}
    k = 0
    for m, c in d.items():
        if m == ():
            k = c
        elif c < 0 or not all(_natural(x) for x, e in m):
            return None
    return k


def _ranged(x):
    return x.op == "elem" and x.a[0].a[0].op == "range"


def _natural(x):
    if x.op in ("len", "idx", "count"):
        return True
    if x.op == "elem" and x.a[0].a[0].op == "range":
        lo = x.a[0].a[0].a[0]
        return lo.op == "int" and lo.a[0] >= 0
    return x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith(("int_beu", "int_leu"))


def mk_le(a, b):
    return neg(mk_lt(b, a))


# ---------------------------------------------------------------- variants
COMPL = {"None": "Some", "Err": "Ok", "Break": "Continue"}


def mk_is(v, variant):
    """formula: v is of this variant"""
    if v.op == "phi":
        return disj([conj([c, mk_is(x, variant)]) for c, x in v.a[0]])
    if v.op == "agg":
        return TRUE if v.a[1] == variant else FALSE
    if v.op == "cf":  # ControlFlow of Try::branch
        x = v.a[0]
        good = mk_is(x, v.a[1])
        return good if variant == "Continue" else neg(good)
    if v.op == "updp":
        return mk_is(v.a[0], variant)
    if v.op == "opt":  # option with explicit presence formula
        return v.a[0] if variant == "Some" else neg(v.a[0])
    if variant in COMPL:
        return neg(mk_is(v, COMPL[variant]))
    return lit(mk("is", v, variant))


ENUMS = {}


def mk_isn(v, names, variant):
    """as mk_is; the last variant of an enum is the complement of the others"""
    names = list(names)
    if len(names) > 1 and variant == names[-1] and variant not in COMPL and variant not in COMPL.values():
        return conj([neg(mk_is(v, n)) for n in names[:-1]])
    return mk_is(v, variant)


def payload(v, variant, i=0):
    if v.op == "phi":
        xs = []
        for c, x in v.a[0]:
            f = mk_is(x, variant)
            cc = conj([c, f])
            if cc.k != "false":
                xs.append((cc, payload(x, variant, i)))
        if len(xs) == 1:
            return xs[0][1]
        return mk_phi(xs)
    if v.op == "agg":
        if v.a[1] == variant and i < len(v.a[3]):
            return v.a[3][i]
        return mk("undef")
    if v.op == "cf":
        if variant == "Continue":
            return payload(v.a[0], v.a[1], 0)
        return mk("resid", v.a[0])
    if v.op == "opt" and variant == "Some":
        return v.a[1]
    if v.op == "updp":
        # writing through a variant's field keeps the variant
        if v.a[1] == variant and v.a[2] == i:
            return v.a[3]
        return payload(v.a[0], variant, i)
    return mk("pl", v, variant, i)


def field(t, name):
    op = t.op
    if op == "agg":
        names = t.a[2]
        if name in names:
            return t.a[3][names.index(name)]
        return mk("undef")
    if op == "tuple" or op == "closure_env":
        try:
            return t.a[int(name)]
        except (ValueError, IndexError):
            return mk("field", t, name)
    if op == "closure":
        try:
            return t.a[1][int(name)]
        except (ValueError, IndexError):
            return mk("field", t, name)
    if op == "upd":
        if t.a[1] == name:
            return t.a[2]
        return field(t.a[0], name)
    if op == "phi":
        return mk_phi([(c, field(v, name)) for c, v in t.a[0]])
    if op == "undef":
        return t
    return mk("field", t, name)


def upd(t, name, v):
    op = t.op
    if op == "agg":
        names = t.a[2]
        if name in names:
            i = names.index(name)
            vals = t.a[3]
            return mk("agg", t.a[0], t.a[1], names, vals[:i] + (v,) + vals[i + 1 :])
    if op == "tuple":
        i = int(name)
        if i < len(t.a):
            return mk("tuple", *(t.a[:i] + (v,) + t.a[i + 1 :]))
    if op == "closure":
        i = int(name)
        vals = t.a[1]
        return mk("closure", t.a[0], vals[:i] + (v,) + vals[i + 1 :])
    if op == "phi":
        return mk_phi([(c, upd(x, name, v)) for c, x in t.a[0]])
    if v.op == "field" and v.a[0] is t and v.a[1] == name:
        return t
    if op == "upd":
        if t.a[1] == name:
            return upd(t.a[0], name, v)
        if t.a[1] > name:
            return mk("upd", upd(t.a[0], name, v), t.a[1], t.a[2])
    return mk("upd", t, name, v)


# ---------------------------------------------------------------- collections
# seq: T('seq', (seg,...)); seg = ('item', v) | ('all', t) | ('each', it, v, F)
# mapb: T('mapb', base|None, (ent,...)); ent = ('item', k, v) | ('each', it, k, v, F) | ('all', t) | ('del', k)
def seq(segs):
    segs = tuple(segs)
    out = []
    for s in segs:
        if s[0] == "each" and s[2].op == "elem" and s[2].a[0] is s[1] and s[3].k == "true":
            s = ("all", s[1].a[0])
        if s[0] == "all":
            t = s[1]
            if t.op == "seq":
                out.extend(t.a[0])
                continue
            if t.op == "array":
                out.extend(("item", x) for x in t.a)
                continue
        out.append(s)
    if len(out) > 1:
        out = _int_runs(out)
    out = tuple(out)
    if len(out) == 1 and out[0][0] == "all":
        return out[0][1]
    return mk("seq", out)


def _byte_of(t):
    """(x, n) when t is byte n of the integer x, counted from the lowest"""
    if t.op != "app" or t.a[0] != "trunc_u8":
        return None
    x = t.a[1][0]
    if x.op == "app" and x.a[0] == "Rem" and x.a[1][1].op == "int" and x.a[1][1].a[0] == 256:
        x = x.a[1][0]
    if x.op == "app" and x.a[0] in ("Shr", "Div") and x.a[1][1].op == "int":
        k = x.a[1][1].a[0]
        if x.a[0] == "Div":
            k = k.bit_length() - 1 if k > 0 and k & (k - 1) == 0 else -1
        if k >= 0 and k % 8 == 0:
            return x.a[1][0], k // 8
        return None
    return x, 0


def _int_runs(segs):
    """the bytes of an integer written one by one are its encoding"""
    bs = [_byte_of(s[1]) if s[0] == "item" and isinstance(s[1], T) else None for s in segs]
    if not any(bs):
        return segs
    out, i = [], 0
    while i < len(segs):
        hit = None
        if bs[i]:
            for w in (8, 4, 2):
                run = bs[i : i + w]
                if len(run) == w and all(r and r[0] is run[0][0] for r in run):
                    ks = [r[1] for r in run]
                    if ks in (list(range(w)), list(range(w))[::-1]):
                        hit = (w, "le" if ks[0] == 0 else "be", run[0][0])
                        break
        if hit:
            out.append(("all", mk("intbytes", hit[1], "u%d" % (8 * hit[0]), hit[2])))
            i += hit[0]
        else:
            out.append(segs[i])
            i += 1
    return out


EMPTY = seq(())


def _const_order(ents):
    """runs of entries with distinct constant keys commute"""
    i, out = 0, []
    while i < len(ents):
        j = i
        while j < len(ents) and ents[j][0] == "item" and ents[j][1].op in ("str", "int", "bytes"):
            j += 1
        run = list(ents[i:j])
        if len(run) > 1:
            run = list({e[1]: e for e in run}.values())
            run.sort(key=lambda e: (e[1].op, str(e[1].a[0])))
        out += run
        if j == i:
            out.append(ents[i])
            j += 1
        i = j
    return tuple(out)


def _set_member(e, k):
    """formula: entry e of a set contributes k, or None"""
    if e[0] == "item":
        return mk_eq(e[1], k)
    if e[0] == "each":
        r = map_at(e, k)
        return r[0] if r is not None else None
    if e[0] == "all":
        return mk_has(e[1], k)
    return None


def _set_entries(ents):
    """a set's entries: unordered, and an entry need not exclude what another entry contributes anyway"""
    if len(ents) < 2 or len(ents) > 6 or any(e[0] not in ("item", "each", "all") for e in ents) or not any(e[0] == "each" for e in ents):
        return ents
    ents = list(ents)
    for i, e in enumerate(ents):
        if e[0] != "each" or e[4].k not in ("and", "lit"):
            continue
        cs = list(e[4].a) if e[4].k == "and" else [e[4]]
        for q in list(cs):
            if not (q.k == "lit" and not q.a[1] and q.a[0].op in ("has", "eq")):
                continue
            rest = [x for x in cs if x is not q]
            h = conj(rest + [neg(q)])
            for j, o in enumerate(ents):
                if j == i:
                    continue
                m = _set_member(o, e[2])
                if m is not None and implies(h, m):
                    cs = rest
                    break
        ents[i] = e[:4] + (conj(cs),)
    return tuple(sorted(ents, key=lambda e: (e[0], show(e[1]), show(e[2]) if isinstance(e[2], T) else "")) if all(len(e) > 2 for e in ents) else ents)


# terms whose type is a set (registered where they are iterated)
SETS = set()


def mapb(base, ents, kind="map"):
    """kind: map | set"""
    if base is not None and base.op == "mapb":
        ents = _const_order(base.a[1] + tuple(ents))
        return mk("mapb", base.a[0], _set_entries(ents) if base.a[2] == "set" else ents, base.a[2])
    ents = _const_order(tuple(ents))
    if kind == "set":
        ents = _set_entries(ents)
    if base is None and len(ents) == 1 and ents[0][0] == "all":
        return ents[0][1]
    if base is None and len(ents) == 1 and ents[0][0] == "each" and ents[0][4].k == "true":
        b, k, v = ents[0][1], ents[0][2], ents[0][3]
        if k.op in ("key", "elem") and k.a[0] is b:
            if kind == "set":
                if k.op == "elem" and b.a[0] in SETS:
                    return b.a[0]
                return mk_keys(b.a[0])
            if v.op == "val" and v.a[0] is b:
                return b.a[0]
    return mk("mapb", base, ents, kind)


def mk_keys(d):
    return mk("keys", d) if d.op != "keys" else d


def undom(d):
    return d.a[0] if d.op == "keys" else d


# widths of the fixed-size encodings of pairing-plus, and of integers
ENCW = {"Frc": 32, "Fru": 32, "G1c": 48, "G1u": 96, "G2c": 96, "G2u": 192, "Fra": 48, "G1a": 97, "G2a": 192}
INTW = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16}


PARALLEL = {"blindings": "gens", "blinding_factors": "bases"}


HASHW = {"sha2::sha256::Sha256": 32, "sha2::sha512::Sha512": 64, "sha256": 32}


def mk_len(t):
    if t.op == "seq":
        n = ZERO
        for s in t.a[0]:
            if s[0] == "item":
                n = p_add(n, ONE)
            elif s[0] == "all":
                n = p_add(n, mk_len(s[1]))
            else:
                if s[3].k == "true":
                    w = mk_len(s[2].a[0]) if s[2].op == "concat" else ONE
                    n = p_add(n, p_mul(w, mk_domlen(s[1].a[0])) if w.op == "int" else mk("len", seq((s,))) if len(t.a[0]) > 1 else mk("len", t))
                else:
                    n = p_add(n, mk("count", s[1], s[3]))
        return n
    if t.op == "array":
        return const(len(t.a))
    if t.op == "repeat":
        return t.a[1] if isinstance(t.a[1], T) else const(t.a[1])
    if t.op == "str":
        return const(len(t.a[0].encode()))
    if t.op == "bytes":
        return const(len(t.a[0]))
    if t.op == "phi":
        return mk_phi([(c, mk_len(v)) for c, v in t.a[0]])
    if t.op == "keys":
        return mk_len(t.a[0])
    if t.op == "enc" and t.a[0] in ENCW:
        return const(ENCW[t.a[0]])
    if t.op == "intbytes" and t.a[1] in INTW:
        return const(INTW[t.a[1]])
    if t.op == "hash" and t.a[0] in HASHW:
        return const(HASHW[t.a[0]])
    if t.op == "slice":
        return p_sub(t.a[2], t.a[1])
    if t.op == "field" and t.a[1] in PARALLEL:
        # type invariant: the two vectors grow together (their only writers are under contract)
        return mk_len(field(t.a[0], PARALLEL[t.a[1]]))
    if t.op == "app" and t.a[0].startswith("out1:amcl::") and t.a[0].endswith("::tobytes") and t.a[1][1].op == "repeat":
        # amcl writes into the buffer it is given
        return mk_len(t.a[1][1])
    if t.op == "mapb" and t.a[0] is None and not t.a[1]:
        return ZERO
    if t.op == "mapb" and t.a[0] is None and len(t.a[1]) == 1 and t.a[1][0][0] == "each":
        e = t.a[1][0]
        if e[2].op == "key" and e[2].a[0] is e[1] and e[4].k == "true":
            return mk_len(undom(e[1].a[0]))
    return mk("len", t)


def mk_domlen(d):
    if d.op == "range":
        return p_sub(d.a[1], d.a[0])
    return mk_len(d)


def mk_range(lo, hi):
    """iteration domain lo..hi; 0..len(v) is iteration over v's indices"""
    if lo.op == "int" and lo.a[0] == 0 and hi.op == "len":
        return hi.a[0]
    return mk("range", lo, hi)


def is_range(d):
    return d.op == "range"


def mk_idx(b):
    d = b.a[0]
    if d.op == "range":
        return mk("elem", b)
    return mk("idx", b)


def mk_at(t, i):
    """t[i]"""
    if t.op == "phi":
        return mk_phi([(c, mk_at(v, i)) for c, v in t.a[0]])
    if i.op == "phi":
        return mk_phi([(c, mk_at(t, v)) for c, v in i.a[0]])
    if i.op == "idx" and i.a[0].a[0] is t:
        return t_elem(i.a[0])
    if t.op == "array" and i.op == "int" and 0 <= i.a[0] < len(t.a):
        return t.a[i.a[0]]
    if t.op == "repeat":
        return t.a[0]
    if t.op == "slice":
        return mk_at(t.a[0], p_add(t.a[1], i))
    if t.op == "bytes" and i.op == "int" and 0 <= i.a[0] < len(t.a[0]):
        return const(t.a[0][i.a[0]])
    if t.op == "setat":
        if t.a[1] is i:
            return t.a[2]
        if t.a[1].op == "int" and i.op == "int":
            return mk_at(t.a[0], i)
    if t.op == "seq":
        segs = t.a[0]
        if i.op == "int" and i.a[0] >= 0:
            k = i.a[0]
            ok = True
            for s in segs:
                if s[0] != "item":
                    ok = False
                    break
                if k == 0:
                    return s[1]
                k -= 1
            if len(segs) == 1 and segs[0][0] == "each":
                ok = False
        if len(segs) == 1 and segs[0][0] == "each" and segs[0][3].k == "true":
            b = segs[0][1]
            return at_point(segs[0][2], b, i)
        if i.op in ("poly", "len") and not any(s[0] == "each" and s[3].k != "true" for s in segs):
            n = ZERO
            for s in segs:
                if s[0] == "item" and n is i:
                    return s[1]
                n = p_add(n, mk_len(seq((s,))))
        # index relative to an "all"/"each" preceded by constant items
        off = 0
        for n, s in enumerate(segs):
            if s[0] == "item":
                off += 1
            else:
                break
        if off and n == len(segs) - 1 and segs[n][0] in ("each", "all"):
            j = p_sub(i, const(off))
            if _nonneg(j):
                return mk_at(seq((segs[n],)), j)
    return mk("at", t, i)


def _nonneg(j):
    if j.op == "int":
        return j.a[0] >= 0
    if j.op == "idx" or (j.op == "elem" and j.a[0].a[0].op == "range"):
        return True
    if j.op == "poly":
        if all(c > 0 and all(x.op in ("idx", "len") for x, p in m) for m, c in j.a[0]):
            return True
        lo = _lower(_pd(j))
        return lo is not None and lo >= 0
    return False


def at_point(v, b, i):
    """value of v (at iteration point b) at index i"""
    d = b.a[0]
    if i.op == "idx" and i.a[0].a[0] is d:
        return subst(v, {b: i.a[0]})
    m = {}
    if contains(v, lambda x: x.op == "rand"):
        m[b] = _same_point(d, i) or mk("itat", d, i)
    if d.op == "range":
        m[t_elem(b)] = p_add(d.a[0], i)
        return subst(v, m)
    m[t_elem(b)] = mk_at(d, i)
    m[mk("idx", b)] = i
    return subst(v, m)


def _same_point(d, i):
    """the iteration point at position i of a domain as long as d"""
    for x in subterms(i, set()):
        if x.op == "it":
            ix = mk_idx(x)
            if x.a[0].op == "range":
                ix = p_sub(ix, x.a[0].a[0])
            if ix is i and mk_domlen(x.a[0]) is mk_domlen(d):
                return x
    return None


def mk_get(m, k):
    """m[k] for maps"""
    if m.op == "phi":
        return mk_phi([(c, mk_get(v, k)) for c, v in m.a[0]])
    if k.op == "key" and undom(k.a[0].a[0]) is m:
        return t_val(k.a[0])
    if m.op == "mapb":
        ents = m.a[1]
        if ents and ents[-1][0] == "item" and ents[-1][1] is k:
            return ents[-1][2]
        if m.a[0] is None and len(ents) == 1 and ents[0][0] == "each":
            r = map_at(ents[0], k)
            if r is not None:
                return r[1]
        if m.a[0] is None and len(ents) >= 1 and all(e[0] == "each" or e[0] == "item" for e in ents):
            # several parts: choose by membership
            xs = []
            for e in ents:
                r = map_at(e, k) if e[0] == "each" else (mk_eq(e[1], k), e[2])
                if r is None:
                    xs = None
                    break
                xs.append(r)
            if xs:
                alts_ = []
                prev = []
                for f, v in reversed(xs):
                    alts_.append((conj(prev + [f]), v))
                    prev.append(neg(f))
                return mk_phi(alts_)
        if ents and ents[-1][0] == "all" and m.a[0] is None and len(ents) == 1:
            return mk_get(ents[0][1], k)
    return mk("get", m, k)


def map_at(e, k):
    """entry ('each', it, key, val, F) at key k -> (presence formula, value)"""
    _, b, kk, v, f = e
    d = b.a[0]
    if kk.op in ("key", "elem") and kk.a[0] is b:
        if k.op == kk.op and k.a[0].a[0] is d:
            s = {b: k.a[0]}
        else:
            s = {kk: k}
            if kk.op == "key":
                s[t_val(b)] = mk_get(undom(d), k)
        return conj([mk_has(d, k), fsubst(f, s)]), subst(v, s)
    return None


def mk_has(m, k):
    """formula: collection m contains key/element k"""
    if m.op == "phi":
        return disj([conj([c, mk_has(v, k)]) for c, v in m.a[0]])
    m0 = undom(m)
    if k.op == "key" and undom(k.a[0].a[0]) is m0:
        return TRUE
    if k.op == "elem" and k.a[0].a[0] is m0:
        return TRUE
    m = m0
    if m.op == "mapb":
        fs = []
        for e in m.a[1]:
            if e[0] == "item":
                fs.append(mk_eq(e[1], k))
            elif e[0] == "each":
                r = map_at(e, k)
                if r is None:
                    fs = None
                    break
                fs.append(r[0])
            elif e[0] == "all":
                fs.append(mk_has(e[1], k))
            else:
                fs = None
                break
        if fs is not None:
            if m.a[0] is not None:
                fs.append(mk_has(m.a[0], k))
            return disj(fs)
    if m.op == "seq" and not m.a[0]:
        return FALSE
    return lit(mk("has", m, k))


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    return _sub(t, m, memo)


def fsubst(f, m, memo=None):
    if not m:
        return f
    if memo is None:
        memo = {}
    return fmap(f, lambda t: _sub(t, m, memo))


def _sub(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in LEAVES:
        if t.op == "mref" and t.a[1]:
            # a reference whose path goes through an index or key
            r = mk("mref", t.a[0], tuple(tuple(_sub(y, m, memo) if isinstance(y, T) else y for y in s) if isinstance(s, tuple) else s for s in t.a[1]))
            memo[t] = r
            return r
        return t
    r = rebuild(t, lambda x: _sub(x, m, memo), lambda f: fmap(f, lambda x: _sub(x, m, memo)))
    memo[t] = r
    return r


LEAVES = frozenset(["int", "bool", "sym", "str", "bytes", "undef", "named", "lv", "fnref", "static", "mref"])


def rebuild(t, fn, ff):
    """rebuild t with children mapped through fn (terms) and ff (formulas), renormalising"""
    op, a = t.op, t.a
    if op == "poly":
        d = ZERO
        kinds = None
        changed = False
        for mono, c in a[0]:
            for x, p in mono:
                if fn(x) is not x:
                    changed = True
                    break
            if changed:
                break
        if not changed:
            return t
        ptp = _is_pt_poly(t)
        acc = {}
        for mono, c in a[0]:
            cur = {(): c}
            for x, p in mono:
                y = fn(x)
                if y is x:
                    cur = {_mono_mul(m1, ((x, p),)): c1 for m1, c1 in cur.items()}
                    continue
                if x.op == "pt":
                    dy = _rawpd(to_pt(y.a[0] if y.op == "pt" else y))
                elif x.op == "gb":
                    dy = _rawpd(to_g(y.a[0], y.a[1])) if y.op == "gb" else _pd(y)
                elif x.op == "e" and y.op == "e":
                    dy = _rawpd(pairing(y.a[0], y.a[1]))
                else:
                    dy = _pd(y)
                if p < 0 or p > 4:
                    yy = _mk_poly(dy)
                    if p < 0:
                        dy = _pd(p_pow(p_inv(yy), -p))
                    else:
                        dy = _pd(p_pow(yy, p))
                    reps = 1
                else:
                    reps = p
                for _ in range(reps):
                    nxt = {}
                    for m1, c1 in cur.items():
                        for m2, c2 in dy.items():
                            mm = _mono_mul(m1, m2)
                            nxt[mm] = nxt.get(mm, 0) + c1 * c2
                    cur = nxt
            for mm, cc in cur.items():
                acc[mm] = acc.get(mm, 0) + cc
        if ptp:
            acc = {m: c for m, c in acc.items() if c}
            return _mk_poly(acc)
        return _mk_poly(acc)
    if op == "gpoly":
        n = fn(a[0])
        p = a[1]
        q = rebuild(p, fn, ff) if p.op == "poly" else p
        if q.op != "poly" and q.op != "int":
            q = mk("poly", ((((mk("gb", n, q), 1),), 1),)) if q.op != "gb" else mk("poly", ((((q, 1),), 1),))
        return from_g(n, q)
    if op == "phi":
        return mk_phi([(ff(c), fn(v)) for c, v in a[0]])
    if op == "agg":
        return mk("agg", a[0], a[1], a[2], tuple(fn(x) for x in a[3]))
    if op == "app":
        return mk("app", a[0], tuple(fn(x) if isinstance(x, T) else x for x in a[1]))
    if op == "closure":
        return mk("closure", a[0], tuple(fn(x) for x in a[1]))
    if op == "field":
        return field(fn(a[0]), a[1])
    if op == "upd":
        return upd(fn(a[0]), a[1], fn(a[2]))
    if op == "pl":
        return payload(fn(a[0]), a[1], a[2])
    if op == "cond":
        return cond(ff(a[0]))
    if op == "opt":
        return mk("opt", ff(a[0]), fn(a[1]))
    if op == "eq":
        return cond(mk_eq(fn(a[0]), fn(a[1])))
    if op == "eq0":
        x = fn(a[0])
        if x.op == "phi":
            return cond(mk_eq0(x))
        if x.op != "poly" and a[0].op == "poly" and _is_pt_poly(a[0]):
            return cond(mk_eq0(to_pt(x)))
        return cond(mk_eq0(x))
    if op == "lt":
        return cond(mk_lt(fn(a[0]), fn(a[1])))
    if op == "is":
        return cond(mk_is(fn(a[0]), a[1]))
    if op == "has":
        return cond(mk_has(fn(a[0]), fn(a[1])))
    if op == "len":
        return mk_len(fn(a[0]))
    if op == "at":
        return mk_at(fn(a[0]), fn(a[1]))
    if op == "get":
        return mk_get(fn(a[0]), fn(a[1]))
    if op == "it":
        d = fuse_dom(fn(a[0]))[0]
        k = a[1]
        if isinstance(k, tuple) and k[0] == "first":
            k = ("first", ff(k[1]))
        return mk("it", d, k)
    if op in ("elem", "idx", "key", "val"):
        b = a[0]
        if b.op != "it":
            return mk(op, fn(b))
        b2 = fn(b)
        if b2 is b:
            return t
        if b2.op != "it" or b2.a[0] is b.a[0]:
            # renamed point
            return mk(op, b2)
        raw = fn(b.a[0])
        if b2.a[0] is not raw and fuse_dom(raw)[0] is not b2.a[0]:
            return mk(op, b2)
        return point(op, raw, b2, b.a[0])
    if op == "keys":
        return mk_keys(fn(a[0]))
    if op == "seq":
        return seq([_seg(s, fn, ff) for s in a[0]])
    if op == "mapb":
        return mapb(fn(a[0]) if a[0] is not None else None, [_seg(s, fn, ff) for s in a[1]], a[2])
    if op == "sum":
        c = ff(a[1])
        return ZERO if c.k == "false" else mk("sum", fn(a[0]), c)
    if op == "range":
        return mk_range(fn(a[0]), fn(a[1]))
    if op == "pow":
        return p_pow(fn(a[0]), fn(a[1]))
    if op == "inv":
        return p_inv(fn(a[0]))
    if op == "join":
        return mk("join", frozenset(fn(x) for x in a[0]))
    # generic
    new = []
    ch = False
    for x in a:
        if isinstance(x, T):
            y = fn(x)
        elif isinstance(x, F):
            y = ff(x)
        elif isinstance(x, (tuple, frozenset)):
            y = _maptup(x, fn, ff)
        else:
            y = x
        if y is not x and y != x:
            ch = True
        new.append(y)
    if not ch:
        return t
    return mk(op, *new)


def _maptup(x, fn, ff):
    if isinstance(x, T):
        return fn(x)
    if isinstance(x, F):
        return ff(x)
    if isinstance(x, tuple):
        return tuple(_maptup(z, fn, ff) for z in x)
    if isinstance(x, frozenset):
        return frozenset(_maptup(z, fn, ff) for z in x)
    return x


def fuse_dom(d):
    """iterating a comprehension = iterating its domain. -> (domain, each-seg | None)"""
    if d.op == "seq" and len(d.a[0]) == 1 and d.a[0][0][0] == "each" and d.a[0][0][3].k == "true":
        s = d.a[0][0]
        return s[1].a[0], s
    if d.op == "mapb" and d.a[0] is None and len(d.a[1]) == 1 and d.a[1][0][0] == "each" and d.a[1][0][4].k == "true":
        e = d.a[1][0]
        return e[1].a[0], e
    return d, None


def point(op, d, b, olddom=None):
    """elem/idx/key/val of iteration point b, which ranges over (the fused form of) d"""
    nd, s = fuse_dom(d)
    if s is not None:
        m = {s[1]: b}
        if op == "idx":
            return mk_idx(b)
        if d.op == "seq":
            return subst(s[2], m)
        if op in ("key", "elem"):
            return subst(s[2], m)
        return subst(s[3], m)
    if op == "idx":
        return mk_idx(b)
    if op == "elem" and olddom is not None and olddom.op == "range" and d.op != "range":
        return mk_idx(b)
    return mk(op, b)


def _seg(s, fn, ff):
    out = [s[0]]
    for x in s[1:]:
        if isinstance(x, T):
            out.append(fn(x))
        elif isinstance(x, F):
            out.append(ff(x))
        else:
            out.append(x)
    return tuple(out)


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        for y in _kids(x):
            yield y


def _kids(x):
    if isinstance(x, T):
        if x.op == "it" and isinstance(x.a[1], tuple) and x.a[1][0] == "first":
            pass
        yield x
    elif isinstance(x, F):
        for l in f_terms(x):
            yield l
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            for z in _kids(y):
                yield z


def f_terms(f):
    if f.k == "lit":
        yield f.a[0]
    elif f.k in ("and", "or"):
        for x in f.a:
            for y in f_terms(x):
                yield y
    elif f.k in ("all", "ex"):
        yield f.a[0]
        for y in f_terms(f.a[1]):
            yield y


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def contains(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(children(x))
    return False


def f_contains(f, pred):
    return any(contains(t, pred) for t in f_terms(f))


_lvcache = {}


def has_lv(t, lvs=None):
    if lvs is None:
        r = _lvcache.get(t)
        if r is None:
            r = contains(t, lambda x: x.op == "lv")
            _lvcache[t] = r
        return r
    if not has_lv(t):
        return False
    return contains(t, lambda x: x in lvs)


# ---------------------------------------------------------------- printing
SHORT = {"core::result::Result": "", "core::option::Option": ""}


def _clip(s):
    """bound the canonical text of shared terms: long texts end in a digest of the whole"""
    if len(s) <= 6000:
        return s
    return s[:2500] + "\u2026\u27e8" + hashlib.sha1(s.encode()).hexdigest()[:14] + "\u27e9"


def show(t):
    if t._s is None:
        t._s = _clip(_show(t))
    return t._s


def _short(p):
    return p.split("::")[-1] if "<" not in p else p


def _show(t):
    op, a = t.op, t.a
    if op == "int":
        return str(a[0])
    if op == "bool":
        return "true" if a[0] else "false"
    if op == "sym":
        return a[0]
    if op == "named":
        return _short(a[0])
    if op == "static":
        return _short(a[0])
    if op == "str":
        return repr(a[0])
    if op == "bytes":
        return "b" + repr(bytes(a[0]))[1:]
    if op == "tuple":
        return "(" + ", ".join(show(x) for x in a) + ")"
    if op == "array":
        return "[" + ", ".join(show(x) for x in a) + "]"
    if op == "agg":
        nm = _short(a[0])
        if nm in ("Result", "Option"):
            nm = a[1]
        elif a[1] and a[1] != nm:
            nm = nm + "::" + a[1]
        if not a[3]:
            return nm
        if a[2] and a[2][0] == "0":
            return nm + "(" + ", ".join(show(x) for x in a[3]) + ")"
        return nm + "{" + ", ".join("%s: %s" % (n, show(x)) for n, x in zip(a[2], a[3])) + "}"
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x) if isinstance(x, T) else str(x) for x in a[1]))
    if op == "field":
        return "%s.%s" % (show(a[0]), a[1])
    if op == "pl":
        return "%s?%s" % (show(a[0]), "" if a[1] in ("Ok", "Some") and a[2] == 0 else "%s.%d" % (a[1], a[2]))
    if op == "it":
        k = a[1]
        if isinstance(k, int):
            return "%s%s" % (show(a[0]), "'" * k)
        if k[0] == "b":
            return "%s%s" % (show(a[0]), "°" * (k[1] + 1))
        return "first(%s | %s)" % (show(a[0]), fshow(k[1]))
    if op == "elem":
        return "elem(%s)" % show(a[0])
    if op in ("key", "val", "idx", "len", "keys", "pt", "inv"):
        return "%s(%s)" % (op, show(a[0]))
    if op == "gb":
        return "[%s]" % show(a[1])
    if op == "e":
        return "e(%s, %s)" % (show(a[0]), show(a[1]))
    if op == "at":
        return "%s[%s]" % (show(a[0]), show(a[1]))
    if op == "get":
        return "%s{%s}" % (show(a[0]), show(a[1]))
    if op == "poly":
        xs = []
        for m, c in a[0]:
            s = mono_str(m)
            xs.append((s, c))
        xs.sort()
        out = []
        for s, c in xs:
            if s == "":
                out.append("%+d" % c)
            elif c == 1:
                out.append("+ " + s)
            elif c == -1:
                out.append("- " + s)
            else:
                out.append("%+d*%s" % (c, s))
        r = " ".join(out)
        return "(" + (r[2:] if r.startswith("+ ") else r) + ")"
    if op == "gpoly":
        return "exp[mod %s]%s" % (show(a[0]), show(a[1]))
    if op == "sum":
        return "Σ{%s%s}" % (show(a[0]), "" if a[1].k == "true" else " | " + fshow(a[1]))
    if op == "phi":
        return "φ(" + "; ".join(sorted("%s → %s" % (fshow(c), show(v)) for c, v in a[0])) + ")"
    if op == "cond":
        return "⟨" + fshow(a[0]) + "⟩"
    if op == "opt":
        return "opt(%s → %s)" % (fshow(a[0]), show(a[1]))
    if op == "eq":
        x, y = sorted((show(a[0]), show(a[1])))
        return "%s == %s" % (x, y)
    if op == "eq0":
        return "%s == 0" % show(a[0])
    if op == "lt":
        return "%s < %s" % (show(a[0]), show(a[1]))
    if op == "is":
        return "%s is %s" % (show(a[0]), a[1])
    if op == "has":
        return "%s ∋ %s" % (show(a[0]), show(a[1]))
    if op == "seq":
        return "[" + "; ".join(_segshow(s) for s in a[0]) + "]"
    if op == "mapb":
        return "{" + ("%s | " % show(a[0]) if a[0] is not None else "") + "; ".join(_segshow(s) for s in a[1]) + "}"
    if op == "upd":
        return "%s{%s:=%s}" % (show(a[0]), a[1], show(a[2]))
    if op == "range":
        return "%s..%s" % (show(a[0]), show(a[1]))
    if op == "rand":
        return "rand#%s%s" % (a[0], "" if len(a) < 3 or not a[2] else "<%s>" % ",".join(show(x) for x in a[2])) + ":" + str(a[1])
    if op == "errs":
        return "err"
    if op == "join":
        return "join{%s}" % ", ".join(sorted(show(x) for x in a[0]))
    if op == "closure":
        return "closure(%s)" % _short(a[0])
    return "%s(%s)" % (op, ", ".join(_sh(x) for x in a))


def _sh(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, F):
        return fshow(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(_sh(y) for y in x) + ")"
    return str(x)


def _segshow(s):
    if s[0] == "item":
        return " ↦ ".join(show(x) for x in s[1:])
    if s[0] == "all":
        return "*" + show(s[1])
    if s[0] == "each":
        if len(s) == 4:
            return "∀%s: %s%s" % (show(s[1]), show(s[2]), "" if s[3].k == "true" else " if " + fshow(s[3]))
        return "∀%s: %s ↦ %s%s" % (show(s[1]), show(s[2]), show(s[3]), "" if s[4].k == "true" else " if " + fshow(s[4]))
    return "%s(%s)" % (s[0], ", ".join(_sh(x) for x in s[1:]))


def fshow(f):
    if f._s is None:
        if f.k in ("true", "false"):
            f._s = "⊤" if f.k == "true" else "⊥"
        elif f.k == "lit":
            f._s = show(f.a[0]) if f.a[1] else "¬(%s)" % show(f.a[0])
        elif f.k == "and":
            f._s = "(" + " ∧ ".join(sorted(fshow(x) for x in f.a)) + ")"
        elif f.k == "or":
            f._s = "(" + " ∨ ".join(sorted(fshow(x) for x in f.a)) + ")"
        else:
            f._s = "%s{%s: %s}" % ("∀" if f.k == "all" else "∃", show(f.a[0]), fshow(f.a[1]))
        f._s = _clip(f._s)
    return f._s
