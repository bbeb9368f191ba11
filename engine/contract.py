"""Equational contracts: reviewed normal forms of functions, and their judgement against the
current tree.

A contract is the acceptance condition and the value/post-state of one function, as terms over
its parameters (by position).  `judge` requires every conjunct of the contracted acceptance
condition to be entailed by the current one, and the values to be equal wherever it accepts.
"""
import os, re, time, traceback
from .terms import *
from . import terms as TM
from .interp import Interp, Program, Budget
from .models import Models
from .compare import Cmp, Give, conjuncts, atoms, assume
from . import serial

FUZZY = frozenset(["fold", "loop", "partial", "opaquecond", "join", "lastv", "mono", "lv", "ufold", "aggx", "exhausted", "rest", "consumed", "pre", "rec"])
FUZZY_APP = ("bigexp", "mul")


def param_names(f):
    nm = {}
    for n, p in f["names"]:
        if p and len(p) == 1 and 1 <= p[0] <= f["args"]:
            nm.setdefault(p[0], n)
    return [nm.get(i + 1, "a%d" % i) for i in range(f["args"])]


class Result(object):
    """normal form of one function on the current tree"""

    def __init__(self, ret, fins, pc, opaque, steps):
        self.ret, self.fins, self.pc, self.opaque, self.steps = ret, fins, pc, opaque, steps


WRAPPER = re.compile(r"^<?ursa::pair::")


def evaluate(P, key, names, mut=(), seconds=100, cut=()):
    f = P.fn(key)
    if f is None:
        return None
    M = Models()
    if WRAPPER.match(key):
        # a group wrapper is described by the library operations it ends in, not by the other wrappers it goes through
        for k in [k for k in M.leaf if WRAPPER.match(k)]:
            del M.leaf[k]
    I = Interp(P, M, seconds=seconds)
    if cut:
        I.cut = re.compile("|".join("(?:%s)" % c for c in cut))
    args = [sym(n) for n in names]
    if len(args) != f["args"]:
        return None
    ret, fins, pc = I.run_root(key, args, mut)
    ks = sorted(fins)
    ts, fs = serial.canon_rand([ret] + [fins[k] for k in ks], [pc])
    return Result(ts[0], dict(zip(ks, ts[1:])), fs[0], sorted(set(str(o) for o in I.opaque_calls)), I.steps)


def evaluate_ffi(P, key, names, seconds=100, cut=None):
    """exported C function: pointer parameters are memory cells (see ffi.py)"""
    from .ffi import FfiInterp

    f = P.fn(key)
    if f is None or len(names) != f["args"]:
        return None, None
    I = FfiInterp(P, seconds, cut)
    ret, cells, fins, pc = I.run_ffi(key, names)
    ks = sorted(fins)
    ts, fs = serial.canon_rand([ret] + [fins[k] for k in ks], [pc])
    I.cells = cells
    return Result(ts[0], dict(zip(ks, ts[1:])), fs[0], sorted(set(str(o) for o in I.opaque_calls)), I.steps), I


def ret_kind(P, f):
    t = f["_types"][f["locals"][0]] if isinstance(f["locals"][0], int) else f["locals"][0]
    return t


def accept_formula(ret, kind):
    """condition under which the caller is told 'accepted'"""
    if ":" in kind:
        k, v = kind.split(":", 1)
        if k == "value":
            return mk_is(ret, v)
        return conj([mk_is(ret, "Ok"), mk_is(payload(ret, "Ok"), v)])
    if kind == "bool":
        return truth(ret)
    if kind == "result":
        return mk_is(ret, "Ok")
    if kind == "result_bool":
        return conj([mk_is(ret, "Ok"), truth(payload(ret, "Ok"))])
    if kind == "option":
        return mk_is(ret, "Some")
    return TRUE


def accept_value(ret, kind):
    if ":" in kind:
        return UNIT
    if kind == "result":
        return payload(ret, "Ok")
    if kind == "option":
        return payload(ret, "Some")
    if kind in ("bool", "result_bool"):
        return UNIT
    return ret


def kind_of_type(ty):
    t = ty.replace("std::", "core::")
    if t == "bool":
        return "bool"
    if t.startswith("core::result::Result<") or t.startswith("Result<"):
        inner = t[t.index("<") + 1 :]
        return "result_bool" if inner.startswith("bool,") or inner.startswith("bool>") else "result"
    if t.startswith("core::option::Option<"):
        return "option"
    return "value"


# ---------------------------------------------------------------- footprints
ACC = ("field", "pl", "at", "get", "elem", "val", "key", "idx", "sym", "it", "keys", "len", "named", "rand")


def roots(t, memo={}):
    """access paths (as strings) of inputs a term depends on, iteration-insensitive"""
    r = memo.get(t)
    if r is not None:
        return r
    p = path(t)
    if p is not None:
        r = frozenset([p])
        memo[t] = r
        return r
    out = set()
    for x in children(t):
        out |= roots(x)
    r = frozenset(out)
    memo[t] = r
    return r


def path(t):
    op = t.op
    if op == "sym":
        return t.a[0]
    if op in ("named", "static"):
        return str(t.a[0])
    if op == "rand":
        return "rand"
    if op == "field":
        b = path(t.a[0])
        return None if b is None else b + "." + t.a[1]
    if op in ("pl", "at", "get", "keys", "len", "deref"):
        return path(t.a[0]) if isinstance(t.a[0], T) else None
    if op in ("elem", "val", "key", "idx"):
        d = t.a[0].a[0]
        if d.op == "keys":
            d = d.a[0]
        return path(d)
    return None


def froots(f):
    out = set()
    for t in f_terms(f):
        out |= roots(t)
    return frozenset(out)


def covers(big, small):
    """every path of small is covered by (an extension or prefix of) a path of big"""
    return all(any(b == s or b.startswith(s + ".") or s.startswith(b + ".") for b in big) for s in small)


def fuzzy_parts(t, seen=None):
    """outermost imprecise subterms"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_fuzzy(x):
            out.append(x)
            continue
        st.extend(children(x))
    return out


def opaque_parts(t, names):
    out, seen, st = [], set(), [t]
    while st and names:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and isinstance(x.a[0], str) and (x.a[0] in names or re.sub(r"^out\d+:", "", x.a[0]) in names):
            out.append(x)
            continue
        st.extend(children(x))
    return out


def is_fuzzy(x):
    if x.op in FUZZY:
        return True
    return x.op == "app" and x.a[0] in FUZZY_APP


_sk = {}


def masked(t):
    """t with its imprecise parts replaced by their skeletons"""
    if not (is_fuzzy(t) or fuzzy_parts(t)):
        return t
    m = {x: mk("named", skel(x)) for x in fuzzy_parts(t)}
    return subst(t, m)


def skel(x):
    """what an imprecise term iterates over: two terms with the same skeleton are compared part by part"""
    r = _sk.get(x)
    if r is None:
        if x.op in ("fold", "last"):
            r = x.op + " " + show(masked(x.a[0].a[0].a[0]))
        elif x.op == "pre":
            r = "pre " + show(masked(x.a[0].a[0])) + (skel(x.a[1]) if is_fuzzy(x.a[1]) else "")
        elif x.op == "loop":
            r = "loop " + show(masked(x.a[1]))
        else:
            r = x.op + " " + show(x)
        # a draw is numbered by its position, which an unrelated statement can shift
        r = re.sub(r"rand#\d+", "rand#", r)
        _sk[x] = r
    return r


def shifted(x, y):
    """the same step as y over a different range of numbers: the one difference is exact"""
    if x.op != y.op or x.op not in ("fold", "last"):
        return False
    s, t = x.a[0].a[0].a[0], y.a[0].a[0].a[0]
    if s is t or s.op != "range" or t.op != "range" or fuzzy_parts(s) or fuzzy_parts(t):
        return False
    if subst(x, {s: mk("named", "the range")}) is not subst(y, {t: mk("named", "the range")}):
        return False
    if s.a[0] is not t.a[0] and s.a[1] is t.a[1]:
        return is_int(s.a[0]) and is_int(t.a[0])
    return s.a[0] is t.a[0] and bool(roots(t.a[1]) - roots(s.a[1]))


def ffuzzy(f):
    out = []
    for t in f_terms(f):
        out.extend(fuzzy_parts(t))
    return out


# ---------------------------------------------------------------- contract files
def to_record(key, names, mut, res, kind):
    d = serial.Dump()
    r = d.term(res.ret)["n"]
    fins = {str(k): d.term(v)["n"] for k, v in res.fins.items()}
    acc = accept_formula(res.ret, kind)
    return dict(
        fn=key,
        params=names,
        mut=list(mut),
        kind=kind,
        ret=r,
        fins=fins,
        opaque=res.opaque,
        nodes=d.nodes,
        text=dict(
            accepts_only_if=sorted(fshow(c) for c in conjuncts(acc)),
            value=short(show(accept_value(res.ret, kind)), 20000),
            post={str(k): short(show(v), 6000) for k, v in res.fins.items()},
        ),
    )


def from_record(rec):
    out = serial.load(rec["nodes"])
    return out[rec["ret"]], {int(k): out[n] for k, n in rec["fins"].items()}


class Finding(object):
    def __init__(self, key, what, detail=""):
        self.key, self.what, self.detail = key, what, detail


def short(s, n=400):
    return s if len(s) <= n else s[: n - 3] + "..."


def draw_roles(ts):
    """per random draw, the terms it occurs in directly, with draws masked (independent of numbering and gates)"""
    seen, rs = set(), {}
    allt = []
    for t in ts:
        for x in subterms(t, seen):
            allt.append(x)
            if x.op == "rand":
                rs[x] = 1
    mask = {x: mk("rand", "?", *x.a[1:]) for x in rs}
    par, memo = {}, {}
    byid = {}
    for x in rs:
        byid.setdefault(x.a[0], []).append(x)
    holders = {x: [] for x in rs}
    for t in allt:
        if t.op in ("phi", "agg", "seq", "tuple", "array", "rand", "upd"):
            continue
        for y in children(t):
            if isinstance(y, T) and y in holders:
                holders[y].append(t)
    out = {}
    for i, xs in byid.items():
        k = set()
        for x in xs:
            mi = dict(mask)
            mi[x] = mk("rand", "!", *x.a[1:])
            m2 = {}
            for h in holders[x][:40]:
                k.add(show(subst(h, mi, m2))[:3000])
        out[i] = (tuple(sorted(set(str(x.a[1]) for x in xs))), tuple(sorted(k)))
    return out


def alignments(oret, ofins, res, limit=24):
    """bijections of the random draws of the current tree onto the contract's, by role"""
    import itertools

    a = draw_roles([oret] + list(ofins.values()))
    b = draw_roles([res.ret] + list(res.fins.values()))
    if len(a) < 2 or len(a) != len(b):
        return
    ga, gb = {}, {}
    for i, k in a.items():
        ga.setdefault(k, []).append(i)
    for i, k in b.items():
        gb.setdefault(k, []).append(i)
    # leftovers (roles that changed form) are matched by kind only
    la, lb = {}, {}
    groups = []
    for k in set(ga) | set(gb):
        x, y = sorted(ga.get(k, []), key=str), sorted(gb.get(k, []), key=str)
        if len(x) == len(y):
            groups.append((x, y))
        else:
            la.setdefault(k[0], []).extend(x)
            lb.setdefault(k[0], []).extend(y)
    for k in set(la) | set(lb):
        x, y = sorted(la.get(k, []), key=str), sorted(lb.get(k, []), key=str)
        if len(x) != len(y):
            return
        groups.append((x, y))
    n = 0
    for pick in itertools.product(*[itertools.permutations(x) for x, y in groups]):
        m = {}
        for (x, y), px in zip(groups, pick):
            m.update(dict(zip(y, px)))
        if any(i != j for i, j in m.items()):
            yield m
        n += 1
        if n >= limit:
            return


def rename_draws(res, m):
    ts = [res.ret] + list(res.fins.values())
    seen, rs = set(), set()
    for t in ts + list(f_terms(res.pc)):
        for x in subterms(t, seen):
            if x.op == "rand":
                rs.add(x)
    sub = {x: mk("rand", m.get(x.a[0], x.a[0]), *x.a[1:]) for x in rs}
    memo = {}
    return Result(subst(res.ret, sub, memo), {k: subst(v, sub, memo) for k, v in res.fins.items()}, fsubst(res.pc, sub, memo), res.opaque, res.steps)


def judge(rec, res, mode):
    """judge_raw, modulo a renaming of the random draws"""
    out = judge_raw(rec, res, mode)
    if not out[0]:
        return out
    oret, ofins = from_record(rec)
    for m in alignments(oret, ofins, res):
        o2 = judge_raw(rec, rename_draws(res, m), mode)
        if not o2[0]:
            return o2
        if len(o2[0]) < len(out[0]):
            out = o2
    return out


def judge_raw(rec, res, mode):
    """-> (violations, undecided, obligations)

    mode: subset of {'guards', 'complete', 'value', 'post'}"""
    oret, ofins = from_record(rec)
    kind = rec["kind"]
    viol, und = [], []
    obl = 0
    only = re.compile(rec["only"]) if rec.get("only") else None

    def wanted(f):
        return [g for g in conjuncts(f) if only is None or only.search(fshow(g))]

    if res.ret is oret and all(res.fins.get(k) is v for k, v in ofins.items()):
        A = accept_formula(oret, kind)
        n = len(wanted(A)) if "guards" in mode else 0
        return [], [], n + (1 if "value" in mode else 0) + (len(ofins) if "post" in mode else 0)
    A, A2 = accept_formula(oret, kind), accept_formula(res.ret, kind)
    oldfz = set(ffuzzy(A)) | set(fuzzy_parts(oret))
    newfz = [x for x in set(ffuzzy(A2)) | set(fuzzy_parts(res.ret)) if x not in oldfz]
    for v in res.fins.values():
        newfz += [x for x in fuzzy_parts(v) if x not in oldfz]
    for v in ofins.values():
        oldfz |= set(fuzzy_parts(v))
    oldsk = set(skel(x) for x in oldfz)
    newfz = [x for x in newfz if x not in oldfz and skel(x) not in oldsk]
    newfz = [x for x in newfz if not any(shifted(x, y) for y in oldfz)]
    newop = set(o for o in res.opaque if o not in rec.get("opaque", []))
    if newop:
        # calls the contract's tree did not make and no model describes: their results are imprecise
        for v in [res.ret] + list(res.fins.values()):
            newfz += opaque_parts(v, newop)
        for t in f_terms(A2):
            newfz += opaque_parts(t, newop)
        newfz = list(dict.fromkeys(newfz))
    c = Cmp()

    def covered(fp):
        """an imprecise part of the current form depends on everything in fp"""
        big = set()
        for x in newfz:
            big |= roots(x)
        return bool(newfz) and covers(big, fp)

    if "guards" in mode or "complete" in mode:
        for g in wanted(A):
            obl += 1
            try:
                ok = c.entails(A2, g)
            except Give:
                und.append("comparison effort exhausted for guard %s" % short(fshow(g)))
                continue
            if ok or by_cases(c, A2, g):
                continue
            gf = ffuzzy(g)
            if covered(froots(g)):
                und.append("guard not derivable from the imprecise current form: %s" % short(fshow(g)))
            elif gf and any(skel(y) not in oldsk and covers(roots(y), froots(g)) for y in fuzzies(A2)):
                und.append("imprecise guard changed form: %s" % short(fshow(g)))
            else:
                viol.append(
                    Finding("guard:" + digest(fshow(g)), "accepts without requiring: " + short(fshow(g), 1200), near(A2, g))
                )
    if "complete" in mode:
        for g in conjuncts(A2):
            try:
                ok = c.entails(A, g)
            except Give:
                und.append("comparison effort exhausted for %s" % short(fshow(g)))
                continue
            if ok or by_cases(c, A, g):
                continue
            if ffuzzy(g) or any(opaque_parts(t, newop) for t in f_terms(g)):
                und.append("new condition is imprecise: %s" % short(fshow(g)))
            elif viol:
                pass
            else:
                viol.append(Finding("extra:" + digest(fshow(g)), "refuses unless: " + short(fshow(g), 1200)))
    if "value" in mode:
        obl += 1
        v, v2 = accept_value(oret, kind), accept_value(res.ret, kind)
        cmp_value(c, "value", v, v2, A2, newfz, newop, viol, und, res.pc)
    if "post" in mode:
        for k, v in ofins.items():
            obl += 1
            v2 = res.fins.get(k, mk("undef"))
            if A.k != "true":
                try:
                    keeps = c.same(v, sym(rec["params"][k]), neg(A))
                except Give:
                    keeps = False
                if not keeps:
                    # nothing promised about a refused call
                    v, v2 = assume(v, A), assume(v2, A2)
            cmp_value(c, "post-state of " + rec["params"][k], v, v2, A2, newfz, newop, viol, und, res.pc)
    return viol, und, obl


def fuzzies(f):
    return ffuzzy(f)


def gates(*ts):
    """conditions that select between alternatives inside the terms, the same for every iteration"""
    cnt = {}
    seen = set()
    for t in ts:
        for y in subterms(t, seen):
            if y.op == "phi":
                for f, _ in y.a[0]:
                    gate(f, cnt)
    return sorted(cnt, key=lambda f: (-cnt[f], fshow(f)))[:3]


def gate(f, cnt):
    if f.k == "lit" and not f_contains(f, lambda y: y.op == "it"):
        k = f if f.a[1] else neg(f)
        cnt[k] = cnt.get(k, 0) + 1


def by_cases(c, A, g):
    """A entails g when each case of a condition that both select by does"""
    cs = gates(*f_terms(g))
    if g.k == "or":
        cnt = {}
        for y in atoms(g):
            gate(y, cnt)
        cs += [f for f in sorted(cnt, key=fshow) if f not in cs][:3]
    for f in cs:
        try:
            if all(c.entails(conj([x] + [fassume(y, x) for y in conjuncts(A)]), fassume(g, x)) for x in (f, neg(f))):
                return True
        except Give:
            return False
    return False


def fassume(f, x):
    """f with the gates that x decides resolved"""
    return truth(assume(cond(f), x))


def cmp_value(c, what, v, v2, ctx, newfz, newop, viol, und, pc=TRUE):
    c.why = []
    try:
        if c.same(v, v2, TRUE) or c.same(v, v2, ctx) or c.same(assume(v, ctx), assume(v2, ctx), ctx):
            return
        if pc.k != "true":
            # only calls that return have a value
            full = conj([ctx, pc])
            if len(conjuncts(full)) < 60 and c.possible(full) and c.same(v, v2, full):
                return
        for f in gates(v, v2):
            if all(c.same(assume(assume(v, x), ctx), assume(assume(v2, x), ctx), conj([ctx, x])) for x in (f, neg(f))):
                return
    except Give:
        und.append("comparison effort exhausted for the " + what)
        return
    x, y = innermost(c.why, v, v2)
    inv = set(fuzzy_parts(v2)) | set(opaque_parts(v2, newop))
    fz = [q for q in newfz if q in inv] or [q for q in newfz]
    if fz:
        big = set()
        for q in fz:
            big |= roots(q)
        diff = roots(v) - roots(assume(v2, TRUE))
        if not (roots(v) - roots(v2)):
            und.append("%s is imprecise on the current tree (same inputs reach it)" % what)
            return
    viol.append(
        Finding(
            "value:" + digest(what),
            "%s differs: contract %s, current tree %s" % (what, short(show(x), 700), short(show(y), 700)),
        )
    )


def innermost(why, v, v2):
    """smallest differing pair"""
    best = (v, v2)
    bs = len(show(v)) + len(show(v2))
    for x, y, ctx in why:
        s = len(show(x)) + len(show(y))
        if s < bs and s > 0:
            best, bs = (x, y), s
    return best


def near(f, g):
    """the current conjunct sharing most literals/inputs with g (for the report)"""
    gr = froots(g)
    best, sc = None, 0
    for x in conjuncts(f):
        xr = froots(x)
        s = len(gr & xr) / float(len(gr | xr) or 1)
        if s > sc:
            best, sc = x, s
    return "closest current condition: " + short(fshow(best), 800) if best is not None else "no current condition involves these inputs"


def digest(s):
    import hashlib

    return hashlib.sha256(s.encode()).hexdigest()[:12]
