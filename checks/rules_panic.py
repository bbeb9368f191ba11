"""D01: decoders of untrusted bytes do not crash.

Every decoder (from_bytes, try_from, from_str, decrypt ...) is interpreted with an event at each place that can stop
the program: bounds and slice checks, arithmetic overflow checks, unwrap, explicit panics, allocations sized by a
decoded number.  An event carries the condition under which control gets there.  The event is discharged when that
condition together with the failing one is empty in the domain of linear inequalities over lengths, decoded counts
and loop positions (with their type bounds).  It is reported when the failing condition is itself such an inequality
over the input, and nothing on the path excludes it.  Anything else is undecided.
"""
from lib import *
from engine.interp import Interp
from engine.models import Models
from engine.terms import _rawpd, _pd
from engine import terms as TM
from engine.models import _nogen as TM_nogen

DEC = re.compile(r"::(from_bytes\w*|try_from|from_hex|from_str|from_string|from_dec|parse|visit_bytes|visit_str|visit_string|decrypt\w*|combine_shares)(<.*>)?$")
USE = re.compile(r"ursa::(signatures|kex|encryption)::.*::(sign|verify|keypair|compute_shared_secret|\w*key_exchange|expand_keypair|encrypt\w*|normalize_s|new|public_key_\w+|parse)(<.*>)?$")
BITS = {"usize": 64, "u64": 64, "u32": 32, "u16": 16, "u8": 8, "u128": 128}
BIG = 1 << 48  # no input is longer


def lin(t):
    """linear form of an integer term: {atom | None: coefficient}"""
    d = {}
    for m, c in _rawpd(t).items():
        if m == ():
            k = None
        elif len(m) == 1 and m[0][1] == 1:
            k = m[0][0]
        else:
            k = m
        d[k] = d.get(k, 0) + c
    return d


def width(x):
    m = re.match(r"int_[bl]eu(\d+)$", str(x.a[0])) if x.op == "app" else None
    return int(m.group(1)) if m else None


def bounds(x, out):
    """type bounds of an atom, as forms >= 0"""
    if isinstance(x, tuple) or x is None:
        return
    if x.op in ("len", "count", "idx", "rank"):
        out.append({x: 1})
        out.append({x: -1, None: BIG})
        if x.op == "idx":
            b = x.a[0]
            if isinstance(b, T):
                n = lin(TM.mk_domlen(b.a[0]))
                out.append(add(n, {x: 1}, -1, -1))
    elif x.op == "elem" and x.a[0].a[0].op == "range":
        r = x.a[0].a[0]
        out.append(add({x: 1}, lin(r.a[0]), -1))
        out.append(add(lin(r.a[1]), {x: 1}, -1, -1))
    elif x.op == "Div" or x.op == "app" and x.a[0] == "Div":
        a, b = x.a if x.op == "Div" else x.a[1]
        k = b.a[0] if b.op == "int" else 1
        if k > 0:
            out.append({x: 1})
            out.append(add(lin(a), {x: 1}, -k))
            if b.op == "int":
                out.append(add({x: k, None: k - 1}, lin(a), -1))
    elif x.op == "named" and str(x.a[0]).startswith("size:"):
        out.append({x: 1, None: -1})
        out.append({x: -1, None: 4096})
    w = width(x)
    if w:
        out.append({x: 1})
        out.append({x: -1, None: (1 << w) - 1})


def add(a, b, s=1, k=0):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + s * c
    d[None] = d.get(None, 0) + k
    return {m: c for m, c in d.items() if c or m is None}


def atoms_of(ds):
    s = set()
    for d in ds:
        s |= set(m for m in d if m is not None)
    return s


def literal(f):
    """forms >= 0 a literal states, or None when it is not an inequality"""
    if f.k != "lit":
        return None
    t, pos = f.a[0], f.a[1]
    if t.op == "lt":
        a, b = lin(t.a[0]), lin(t.a[1])
        return [add(b, a, -1, -1)] if pos else [add(a, b, -1)]
    if t.op == "eq0" and is_num(t.a[0]):
        d = lin(t.a[0])
        if pos:
            return [d, {m: -c for m, c in d.items()}]
        if all(m is None or not isinstance(m, tuple) and (m.op in ("len", "count") or width(m)) for m in d) and all(c >= 0 for c in d.values()):
            return [add(d, {}, 1, -1)]
    if t.op == "eq" and pos and is_num(t.a[0]) and is_num(t.a[1]):
        d = add(lin(t.a[0]), lin(t.a[1]), -1)
        return [d, {m: -c for m, c in d.items()}]
    if t.op == "ovf" and not pos and t.a[0].startswith("Sub"):
        return [add(lin(t.a[1]), lin(t.a[2]), -1)]
    return None


OKLEN = {"ed25519_dalek::public::PublicKey::from_bytes": 32}


def ok_facts(f):
    """what success of a library decoder says about the length of its argument"""
    t = f.a[0]
    if f.a[1] and t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "app" and TM_nogen(str(t.a[0].a[0])) in OKLEN:
        n = OKLEN[TM_nogen(str(t.a[0].a[0]))]
        d = lin(mk("len", t.a[0].a[1][0]))
        return [add(d, {}, 1, -n), {**{m: -c for m, c in d.items()}, None: n - d.get(None, 0)}]
    return []


def is_num(t):
    return t.op in ("int", "len", "count", "idx", "elem", "poly", "named") or width(t) is not None


def feasible(cs, limit=400):
    """False if the conjunction of forms >= 0 has no solution (exact elimination over the rationals, integer tightening)"""
    cs = list(cs)
    seen = set()
    todo = atoms_of(cs)
    while todo:
        new = []
        for x in todo:
            bounds(x, new)
        seen |= todo
        cs += new
        todo = atoms_of(new) - seen
    rows = set()
    for d in cs:
        r = norm(d)
        if r is False:
            return False
        if r is not None:
            rows.add(r)
    while True:
        ats = set(m for r in rows for m, c in r[0])
        if not ats:
            return True
        best = min(ats, key=lambda x: (cost(rows, x), str(getattr(x, "id", x))))
        up, lo, rest = [], [], set()
        for r in rows:
            c = dict(r[0]).get(best)
            (rest.add(r) if not c else lo.append((r, c)) if c > 0 else up.append((r, -c)))
        for r, c in lo:
            for s, e in up:
                d = {}
                for m, k in r[0]:
                    d[m] = d.get(m, 0) + k * e
                for m, k in s[0]:
                    d[m] = d.get(m, 0) + k * c
                d[None] = r[1] * e + s[1] * c
                n = norm(d)
                if n is False:
                    return False
                if n is not None:
                    rest.add(n)
        if len(rest) > limit:
            return True
        rows = rest


def cost(rows, x):
    u = l = 0
    for r in rows:
        for m, c in r[0]:
            if m is x or m == x:
                if c > 0:
                    l += 1
                else:
                    u += 1
    return u * l - u - l


def norm(d):
    import math

    k = d.get(None, 0)
    it = [(m, c) for m, c in d.items() if m is not None and c]
    if not it:
        return None if k >= 0 else False
    g = 0
    for m, c in it:
        g = math.gcd(g, abs(c))
    return (frozenset((m, c // g) for m, c in it), k // g)


def cases(f, cap=64):
    """(forms, other literals) of each disjunct of f; open quantifiers become free positions"""
    out = [((), ())]

    def conjoin(xs, ys):
        return [(a[0] + b[0], a[1] + b[1]) for a in xs for b in ys]

    def go(f):
        if f.k == "true":
            return [((), ())]
        if f.k == "false":
            return []
        if f.k == "lit":
            l = literal(f)
            return [((tuple(map(_froz, l)), ()) if l is not None else ((), (f,)))] if l is None else [(tuple(l), ())]
        if f.k == "and":
            r = [((), ())]
            for x in sorted(f.a, key=lambda x: x.k == "or"):
                y = go(x)
                if len(r) * len(y) > cap:
                    r = [(a, b + (x,)) for a, b in r]
                else:
                    r = conjoin(r, y)
            return r
        if f.k == "or":
            r = []
            for x in f.a:
                r += go(x)
            return r if len(r) <= cap else [((), (f,))]
        if f.k == "ex":
            return go(f.a[1])
        if f.k == "all":
            # holds for every position, in particular for none: no information kept but its presence
            return [((), (f,))]
        return [((), (f,))]

    return go(f)


def _froz(d):
    return d


def transparent(x, roots):
    """a length or decoded number of the input"""
    if isinstance(x, tuple):
        return False
    if x.op == "named":
        return str(x.a[0]).startswith("size:") and "Self as" not in str(x.a[0])
    if x.op == "elem" and x.a[0].a[0].op == "range":
        return all(transparent(m, roots) for y in x.a[0].a[0].a for m in lin(y) if m is not None)
    if x.op == "len":
        x = x.a[0]
        while x.op in ("field", "slice", "pl"):
            if x.op == "slice" and not all(transparent(m, roots) for y in x.a[1:3] for m in lin(y) if m is not None):
                return False
            x = x.a[0]
        return x.op == "sym" and x.a[0] != "self"
    if width(x):
        y = x.a[1][0]
        return transparent(mk("len", y), roots) if y.op in ("slice", "sym", "field") else False
    return False


def bad_of(e):
    """(forms or None, plain literals' formula) under which the event stops the program, besides its path condition"""
    d = e.data
    if d[0] == "overflow" and len(d) >= 5:
        bits = BITS.get(d[4])
        op, a, b = d[1], d[2], d[3]
        if bits is None:
            return None
        if op.startswith("Sub"):
            return [add(lin(b), lin(a), -1, -1)]
        if op.startswith("Add"):
            return [add(lin(p_add(a, b)), {}, 1, -(1 << bits))]
        if op.startswith("Mul"):
            return [add(lin(p_mul(a, b)), {}, 1, -(1 << bits))]
        return None
    if d[0] == "bounds":
        return [add(lin(d[2]), lin(d[1]), -1)]
    return []


OVF = lambda x: x.op == "ovf"


def drop_ovf(f):
    """the positive overflow literal of an overflow event is what bad_of states"""
    if f.k == "lit" and f.a[0].op == "ovf" and f.a[1]:
        return TRUE
    if f.k == "and":
        return conj([drop_ovf(x) for x in f.a])
    if f.k == "ex":
        return TM._mkf("ex", (f.a[0], drop_ovf(f.a[1])))
    return f


def judge(e):
    """discharged | reach | undecided, with a reason"""
    if e.kind == "alloc":
        return judge_alloc(e)
    if e.data[0] == "other":
        return "ok", ""  # compiler-inserted alignment and null checks of a reference to a byte array
    bad = bad_of(e)
    if bad is None:
        return "undecided", "overflow of %s" % (e.data[4:] or "?",)
    pc = drop_ovf(e.pc) if e.data[0] == "overflow" else e.pc
    res = "ok"
    why = ""
    for forms, other in cases(pc):
        cs = list(forms) + bad + [d for f in other if f.k == "lit" for d in ok_facts(f)]
        if not feasible(cs):
            continue
        plain = all(f.k == "lit" or harmless(f) for f in other)
        ats = atoms_of(cs)
        lits = [f for f in other if f.k == "lit" and not (f.a[0].op == "ovf")]
        opaque_fail = e.data[0] == "div0" or e.data[0] in ("unwrap", "call", "mapindex", "garray", "copylen") and not all(decoded(f) for f in lits)
        if not opaque_fail and plain and ats and all(transparent(x, None) for x in ats) and not loopy(cs, lits):
            return "reach", "; ".join(show_form(d) for d in cs[-3:])
        if e.data[0] == "unwrap" and plain and failing_decode(e, lits):
            return "reach", fshow(conj(lits))[-200:]
        res, why = "undecided", "%s [%s]" % (e.data[0], ", ".join(fshow(f)[:80] for f in other[:2]))
    return res, why


def decoded(f):
    """a literal that says a part of the input decodes, which some input satisfies"""
    t = f.a[0]
    if t.op == "ovf":
        return not f.a[1]
    if t.op == "is" and t.a[0].op == "dec" and not contains(t.a[0], lambda x: x.op == "slice"):
        return False  # decoding all of it may check its length
    return f.a[1] and t.op == "is" and t.a[1] in ("Ok", "Some") and t.a[0].op in ("dec", "app") and "dec" in str(t.a[0].op) + str(t.a[0].a[0])


def harmless(f):
    """every position before decodes"""
    if f.k == "lit":
        return decoded(f)
    if f.k == "all":
        return harmless(f.a[1])
    if f.k == "and":
        return all(harmless(x) for x in f.a)
    if f.k == "or":
        return any(harmless(x) for x in f.a)
    return f.k == "true"


HUGE = 1 << 24


def judge_alloc(e):
    """space reserved by a decoded number must be bounded by the length of the input"""
    n = e.data
    if not isinstance(n, T) or not is_num(n):
        return "ok", ""
    d = lin(n)
    if not any(m is not None and not isinstance(m, tuple) and width(m) for m in d):
        return "ok", ""
    res, why = "ok", ""
    for forms, other in cases(e.pc):
        cs = list(forms) + [add(d, {}, 1, -HUGE)]
        cs += [{m: -1, None: 1 << 16} for m in atoms_of(cs) if not isinstance(m, tuple) and m.op == "len"]
        if not feasible(cs):
            continue
        lits = [f for f in other if f.k == "lit" and f.a[0].op != "ovf"]
        if all(f.k == "lit" or harmless(f) for f in other) and all(transparent(x, None) for x in atoms_of(cs)) and not loopy(cs, lits):
            return "reach", "a short input makes it reserve %s elements" % show(n)[:80]
        res, why = "undecided", "alloc %s" % show(n)[:80]
    return res, why


def failing_decode(e, lits):
    """the value unwrapped is itself the outcome of decoding part of the input"""
    for f in lits:
        t = f.a[0]
        if t.op == "is" and t.a[1] in ("Ok", "Some") and not f.a[1] and t.a[0].op == "dec":
            return True
        if t.op == "is" and t.a[1] in ("Ok", "Some") and not f.a[1] and t.a[0].op == "app" and str(t.a[0].a[0]).startswith("dec:"):
            return True
    return False


def loopy(cs, lits):
    return any(contains(f.a[0], lambda x: x.op in ("lv", "loop", "fold", "pre", "undef")) for f in lits)


def is_align(f):
    for c in conjuncts(f):
        if c.k == "lit" and not c.a[1] and c.a[0].op == "eq0" and c.a[0].a[0].op in ("app", "BitAnd"):
            x = c.a[0].a[0]
            ops = x.a[1] if x.op == "app" and x.a[0] == "BitAnd" else x.a if x.op == "BitAnd" else ()
            if any(isinstance(y, T) and y is ZERO for y in ops):
                return True
    return False


def show_form(d):
    return " + ".join(("%d" % c if m is None else "%s%s" % ("" if c == 1 else "%d*" % c, show(m) if isinstance(m, T) else "?")) for m, c in d.items()) + " >= 0"


def roots(P):
    out = []
    for k in sorted(P.fns):
        f = P.fns[k]
        if f.get("derived") or "::_::" in k or "_DERIVE" in k or "tests::" in k or "{closure" in k or not (DEC.search(k) or USE.search(k)):
            continue
        ts = [argtype(f, i + 1) for i in range(f["args"])]
        if any(t in BITS or t == "bool" for t in ts):
            continue  # internal: analysed through the decoders that call it
        out.append(k)
    return out


def _one(P, k):
    f = P.fn(k)
    I = Interp(P, Models(), seconds=60, events=("panic", "alloc"))
    I.run_root(k, [sym(n) for n in C.param_names(f)], mut_args(f))
    out = {}
    for e in I.events:
        if e.pc.k == "false":
            continue
        r, why = judge(e)
        key = (e.fn, "alloc" if e.kind == "alloc" else e.data[0], e.line, r)
        out.setdefault(key, why)
    return dict(ev=[list(a) + [w] for a, w in out.items()], n=len(I.events))


def d01(P):
    R = Rule()
    ks = roots(P)
    R.ob("(inventory)", len(ks) >= 120, "floor", "only %d decoders found" % len(ks))
    for k, r in zip(ks, pool(ks, lambda k: _one(P, k), secs=150)):
        if "fail" in r:
            R.und.append("%s: not analysed (%s)" % (k, r["fail"][:80]))
            continue
        n = dict(ok=0, undecided=0, reach=0)
        for fn, kind, line, res, why in r["ev"]:
            n[res] += 1
            if res == "reach":
                R.ob(k, False, "%s:%s" % (kind, fn.split("<")[0]), "%s in %s (line %s) is reached for some input: %s" % (kind, fn, line, why))
            else:
                R.obl += res == "ok"
                if res == "undecided":
                    R.und.append("%s: %s in %s (line %s): %s" % (k, kind, fn, line, why[:120]))
        R.items.append(dict(function=k, sites=r["n"], **n))
    return R
