"""X01: no verification result or cryptographic error is dropped.

For every call that returns a Result (and every verification call that returns a bool) the
returned value is followed through the MIR of the calling function (moves, borrows, adapters,
`?`, match) until its failure is propagated, turned into a negative result, or lost:

  unused    the outcome is never looked at
  default   a failure is replaced by a default (unwrap_or*, or, or_else, ok() not propagated, flatten ...)
  match     control flow that has seen the failure can return a success
  bool      a verification verdict that is never read

Losses are compared with the reviewed table below, by (crate, callee, kind) and count, so that
moving code between functions changes nothing.
"""
import json, os, re
from lib import *

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "tables", "drops.json")

RES = re.compile(r"^(core|std)::result::Result<")
OPT = re.compile(r"^(core|std)::option::Option<")
BENIGN_ERR = re.compile(r"(core::fmt::Error|core::convert::Infallible|, !)>$")
VERDICT = re.compile(r"(^|::)(\w*(verify|verif|validate|valid|check|ct_eq|is_zero|is_unity|is_identity|is_inf\w*|is_one|is_safe|is_prime|matches|eq_g|in_subgroup|is_correct|is_on_curve)\w*)$")
METHOD = re.compile(r"^core::(?:result::Result|option::Option)::<.*>::(\w+)$")
# adapters that keep the failure inside a new value
KEEP = {"map", "map_err", "and_then", "and", "as_ref", "as_mut", "as_deref", "cloned", "copied", "ok_or", "ok_or_else", "transpose", "inspect", "inspect_err", "filter", "flatten", "ok", "as_deref_mut", "take", "err"}
FATAL = {"unwrap", "expect", "unwrap_err", "expect_err"}
DEFAULT = {"unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else", "map_or", "map_or_else", "is_some_and", "is_ok_and", "is_none_or", "iter", "iter_mut", "into_iter", "get_or_insert_with", "get_or_insert", "xor", "unwrap_unchecked", "insert", "replace"}
TEST = {"is_ok": 1, "is_err": 0, "is_some": 1, "is_none": 0}
BAD_VARIANTS = {"Err", "None", "Break"}


def generic(s):
    """strip instantiations: foo::<..>::bar<..> -> foo::bar"""
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


def fn_id(k):
    """a monomorphic instance's generic function (qualified impls keep their type)"""
    if k.startswith("<"):
        return re.sub(r"<[^<>]*>$", "", k)
    return generic(k)


def callee_id(fr):
    m = fr.get("m") or fr.get("k") or "?"
    s = fr.get("self") or ""
    if fr.get("tr"):
        return "%s @ %s" % (m, generic(re.sub(r"^&(mut )?", "", s)))
    return m


def err_variant(v):
    return v in BAD_VARIANTS


class Flow(object):
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.bb = f["bb"]
        self.ty = [argtype(f, i) for i in range(len(f["locals"]))]
        self.succ = [self._succ(b) for b in self.bb]
        self._cls = None
        self.uses = {}
        for bi, b in enumerate(self.bb):
            if b is None:
                continue
            for si, s in enumerate(b["s"]):
                for l in self._locals(s):
                    self.uses.setdefault(l, []).append((bi, si))
            for l in self._locals(b["t"]):
                self.uses.setdefault(l, []).append((bi, -1))

    def _locals(self, x):
        out = set()

        def walk(y):
            if isinstance(y, list):
                if len(y) == 2 and y[0] in ("m", "c") and isinstance(y[1], list) and y[1] and isinstance(y[1][0], int):
                    out.add(y[1][0])
                    return
                if len(y) >= 1 and y[0] == "ref":
                    out.add(y[2][0])
                    return
                if len(y) >= 1 and y[0] == "disc":
                    out.add(y[1][0])
                    return
                if len(y) >= 1 and y[0] in ("len", "rawptr", "addr") :
                    for z in y[1:]:
                        if isinstance(z, list) and z and isinstance(z[0], int):
                            out.add(z[0])
                for z in y:
                    walk(z)

        walk(x)
        return out

    def _succ(self, b):
        if b is None:
            return []
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k in ("drop", "assert"):
            return [x for x in t[2:4] if isinstance(x, int)][:1] if k == "drop" else [x for x in t[1:] if isinstance(x, int)][:1]
        return []

    def err_edges(self, bi, holders):
        """successors of bi assuming the outcome held in `holders` is a failure"""
        b = self.bb[bi]
        t = b["t"]
        if t[0] == "switch" and t[1][0] in ("m", "c") and len(t[1][1]) == 1:
            d = t[1][1][0]
            for s in b["s"]:
                if len(s) == 2 and s[0] == [d] and s[1][0] == "disc" and len(s[1][1]) == 1 and s[1][1][0] in holders:
                    names = s[1][2]
                    listed = {str(v) for v, _ in t[2]}
                    out = [blk for v, blk in t[2] if err_variant(names.get(str(v), ""))]
                    rest = [n for v, n in names.items() if v not in listed]
                    if t[3] is not None and any(err_variant(n) for n in rest):
                        out.append(t[3])
                    return out
        return self.succ[bi]

    def first_tests(self, start, tests):
        """the tests of the outcome that are reached before any other"""
        seen, work = set(), [start]
        while work:
            b = work.pop()
            if b in seen or self.bb[b] is None:
                continue
            seen.add(b)
            if b not in tests:
                work += self.succ[b]
        return [b for b in seen if b in tests]

    # -- may the function return a success from block b (entered with nothing known about _0)?
    def success_from(self, start, holders):
        """S if some path from `start` returns a success, assuming the failure was seen"""
        ret = self.ty[0]
        init = {}
        state = {start: {0: frozenset("N")}}
        work = [start]
        while work:
            bi = work.pop()
            b = self.bb[bi]
            if b is None:
                continue
            st = dict(state[bi])
            for pl, rv in [x for x in b["s"] if isinstance(x, list) and len(x) == 2]:
                if len(pl) == 1:
                    st[pl[0]] = self.cls_rv(rv, st)
                elif pl[0] == 0:
                    st.setdefault(0, frozenset("U"))
            t = b["t"]
            if t[0] == "call" and len(t[3]) == 1:
                st[t[3][0]] = self.cls_call(t, st)
            if t[0] == "ret":
                c = st.get(0, frozenset("N"))
                if ret == "()":
                    return "unit"
                if "S" in c:
                    return "success"
                if "U" in c or "N" in c:
                    init["u"] = 1
            for n in self.err_edges(bi, holders):
                old = state.get(n)
                if old is None:
                    state[n] = dict(st)
                    work.append(n)
                else:
                    ch = False
                    for l in set(old) | set(st):
                        a = old.get(l, frozenset("N"))
                        c = a | st.get(l, frozenset("N"))
                        if c != a:
                            old[l] = c
                            ch = True
                    if ch:
                        work.append(n)
        return "other" if init else None

    def cls_op(self, op, st):
        if op[0] in ("m", "c"):
            pl = op[1]
            if len(pl) == 1:
                return st.get(pl[0], frozenset("U"))
            return frozenset("U")
        k = op[1]
        if isinstance(k, dict):
            v = k.get("v", k.get("i"))
            if v in (False, "false", 0, "0"):
                return frozenset("F" if self.isbool(k) else "U")
            if v in (True, "true", 1, "1") and self.isbool(k):
                return frozenset("S")
        return frozenset("U")

    def isbool(self, k):
        t = k.get("t")
        return isinstance(t, int) and self.f["_types"][t] == "bool" or t == "bool"

    def cls_rv(self, rv, st):
        if rv[0] == "agg":
            a = rv[1]
            p = a.get("p") or ""
            if p.endswith("result::Result") or p.endswith("option::Option"):
                if err_variant(a["v"]):
                    return frozenset("F")
                # Ok(x): a success unless x itself is a failure verdict
                if rv[2]:
                    c = self.cls_op(rv[2][0], st)
                    if c == frozenset("F"):
                        return frozenset("F")
                return frozenset("S")
            if p.endswith("Status") and a["v"].startswith("Bad"):
                return frozenset("F")
            if p.endswith("::ErrorCode"):
                return frozenset("S" if a["v"] == "Success" else "F")
            return frozenset("S")
        if rv[0] == "use":
            return self.cls_op(rv[1], st)
        if rv[0] == "cast":
            ops = [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ("m", "c", "k")]
            if ops:
                return self.cls_op(ops[0], st)
        return frozenset("U")

    def cls_call(self, t, st):
        fn = t[1][1].get("fn") if t[1][0] == "k" else None
        m = (fn or {}).get("m") or ""
        if m.endswith("FromResidual::from_residual"):
            return frozenset("F")
        d = self.tyname(t[7] if len(t) > 7 else None)
        tys = " ".join(self.tyname(x) for x in (t[6] if len(t) > 6 else []))
        if "ErrorCode" in d and re.search(r"Error\b|ErrorKind", tys):
            return frozenset("F")
        if m.endswith(("Default::default", "Vec::<T>::new", "String::new")):
            return frozenset("S")
        if m.endswith("Try::from_output"):
            return frozenset("S")
        return frozenset("U")

    def tyname(self, t):
        if isinstance(t, int):
            return self.f["_types"][t]
        return t or ""


def outcome(fl, L, start, seen=None, kind="R"):
    """-> set of (kind, detail) losses for the outcome held in local L; empty = not lost; None in set = used"""
    f = fl.f
    losses, used, tests = set(), False, []
    seen = set() if seen is None else seen
    work = [L]
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            used = True
            continue
        for bi, si in fl.uses.get(l, ()):
            b = fl.bb[bi]
            if si >= 0:
                st = b["s"][si]
                if not (isinstance(st, list) and len(st) == 2):
                    continue
                dst, rv = st
                if rv[0] in ("use", "ref", "cast"):
                    src = rv[1][1] if rv[0] == "use" else rv[2] if rv[0] == "ref" else next((x[1] for x in rv[1:] if isinstance(x, list) and x and x[0] in ("m", "c")), None)
                    if src is None or src[0] != l:
                        used = True
                        continue
                    if any(isinstance(p, list) and p[0] == "v" for p in src[1:]):
                        used = used  # payload, only reached after a test of the discriminant
                        if kind == "R" and any(isinstance(p, list) and p[0] == "v" and p[1] in BAD_VARIANTS for p in src[1:]):
                            pass
                        continue
                    if len(dst) == 1:
                        work.append(dst[0])
                    else:
                        used = True  # stored
                elif rv[0] == "disc":
                    used = True
                    if rv[1][1:] and not any(isinstance(q, str) for q in rv[1][1:]):
                        continue
                    tests.append(bi)
                else:
                    used = True
                continue
            t = b["t"]
            if t[0] == "call":
                fn = t[1][1].get("fn") if t[1][0] == "k" else None
                args = [a for a in t[2] if a[0] in ("m", "c") and a[1][0] == l]
                if not args:
                    used = True
                    continue
                m = (fn or {}).get("m") or ""
                meth = METHOD.match(m)
                meth = meth.group(1) if meth else None
                dst = t[3]
                if m.endswith("Try::branch"):
                    used = True
                    # the `?` of a Result<bool>: the verdict inside must be read too
                elif meth in KEEP:
                    if meth == "err":
                        losses.add(("default", "err"))
                    work.append(dst[0])
                elif meth in FATAL:
                    used = True
                elif meth in TEST:
                    used = True
                    want = TEST[meth]
                    losses |= test_losses(fl, dst[0], want)
                elif meth in DEFAULT:
                    used = True
                    if defaulted(fl, t, meth):
                        losses.add(("default", meth))
                elif m.startswith("core::mem::drop"):
                    pass
                elif m.endswith(("::clone::Clone::clone", "::convert::From::from", "::convert::Into::into")) and RES.match(fl.ty[dst[0]]):
                    work.append(dst[0])
                else:
                    used = True  # handed to another function
            elif t[0] == "drop":
                pass
            else:
                used = True
    if tests:
        for bi in fl.first_tests(start, tests):
            if fl.bb[bi]["t"][0] == "switch":
                for blk in fl.err_edges(bi, seen):
                    s = fl.success_from(blk, seen)
                    if s:
                        losses.add(("match:" + s, s))
    if not used:
        losses.add(("unused", ""))
    return losses


def defaulted(fl, t, meth):
    """does this combinator turn the failure into something other than a failure?"""
    if meth in ("is_ok_and", "is_some_and"):
        return False
    dty = fl.tyname(t[7]) if len(t) > 7 else ""
    if meth == "unwrap_or_default" and dty == "bool":
        return False
    if meth in ("unwrap_or", "map_or") and len(t[2]) > 1:
        return fl.cls_op(t[2][1], {}) != frozenset("F")
    if meth in ("or_else", "unwrap_or_else", "map_or_else") and len(t[2]) > 1:
        ty = fl.tyname(t[6][1]) if len(t) > 6 and len(t[6]) > 1 else ""
        c = closure_of(fl.P, ty)
        if c is not None:
            return Flow(fl.P, c).success_from(0, set()) == "success"
    return True


def closure_of(P, ty):
    sp = CLOS.findall(ty)
    if not sp:
        return None
    if not hasattr(P, "_spans"):
        P._spans = {}
        for k, f in P.fns.items():
            if "{closure" in k:
                P._spans.setdefault(f.get("span"), []).append(f)
    c = P._spans.get(sp[0]) or []
    return c[0] if len(c) == 1 else None


def test_losses(fl, l, want):
    """is_ok()/is_err(): the failing side of a branch on it must not return a success"""
    out = set()
    for b in fl.bb:
        if b and b["t"][0] == "switch" and b["t"][1][0] in ("m", "c") and b["t"][1][1] == [l]:
            t = b["t"]
            zero = [blk for v, blk in t[2] if str(v) == "0"]
            bad = (zero if want else ([t[3]] if t[3] is not None else [blk for v, blk in t[2] if str(v) != "0"]))
            for blk in bad:
                s = fl.success_from(blk, set())
                if s:
                    out.add(("match:" + s, s))
    if not fl.uses.get(l):
        out.add(("unused", ""))
    return out


def verdict_read(fl, l):
    """is the boolean in local l ever read?"""
    seen, work = set(), [l]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == 0:
            return True
        for bi, si in fl.uses.get(x, ()):
            b = fl.bb[bi]
            if si >= 0:
                st = b["s"][si]
                dst, rv = st
                if rv[0] == "use" and rv[1][1][0] == x and len(dst) == 1:
                    work.append(dst[0])
                else:
                    return True
            else:
                t = b["t"]
                if t[0] == "drop":
                    continue
                if t[0] == "call":
                    fn = t[1][1].get("fn") if t[1][0] == "k" else None
                    if ((fn or {}).get("m") or "").startswith("core::mem::drop"):
                        continue
                return True
    return False


def payloads(fl, l):
    """locals holding the success payload of the Result in l"""
    out, seen, work = [], set(), [l]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == 0:
            return None
        for bi, si in fl.uses.get(x, ()):
            b = fl.bb[bi]
            if si >= 0:
                dst, rv = b["s"][si]
                if rv[0] == "use" and rv[1][1][0] == x and len(dst) == 1:
                    pj = rv[1][1][1:]
                    if any(isinstance(p, list) and p[0] == "v" and p[1] in ("Ok", "Continue", "Some") for p in pj):
                        out.append(dst[0])
                    elif not pj:
                        work.append(dst[0])
                elif rv[0] == "disc":
                    pass
                elif rv[0] != "disc":
                    return None  # stored or borrowed
            else:
                t = b["t"]
                if t[0] == "call":
                    fn = t[1][1].get("fn") if t[1][0] == "k" else None
                    m = (fn or {}).get("m") or ""
                    meth = METHOD.match(m)
                    if m.endswith("Try::branch") or (meth and meth.group(1) in ("map_err",)):
                        work.append(t[3][0])
                    elif meth and meth.group(1) in FATAL:
                        out.append(t[3][0])
                    else:
                        return None
                elif t[0] == "switch":
                    return None
    return out


SKIP = re.compile(r"::deserialize::__Visitor|::tests?::|::wasm::|^<.* as core::fmt::(Debug|Display)>|::serde::|_serde::")
STD_SOURCE = re.compile(r"^core::(result|option|ops::try_trait|mem|convert::(Into|From)|clone)::")


LOSSY = re.compile(r"::(filter_map|flat_map|flat_map_iter|find_map|find_map_any|map_while|scan|filter|for_each|position|try_for_each|skip_while|take_while|inspect|fold_with|max_by_key|min_by_key|sort_by_key|dedup_by_key|retain|partition)$")
CLOS = re.compile(r"\{closure@([^}]*?:\d+):\d+: ")


def lossy_closures(P):
    """spans of closures whose None/false result silently skips an element"""
    out = {}
    for k, f in P.fns.items():
        for b in f["bb"]:
            if b and b["t"][0] == "call":
                for fr in frs(b["t"][1]):
                    x = LOSSY.search(fr.get("m") or "")
                    if x and x.group(1) in ("filter_map", "flat_map", "flat_map_iter", "find_map", "map_while", "scan", "find_map_any"):
                        for g in fr.get("ga") or []:
                            for sp in CLOS.findall(g):
                                out[sp] = x.group(1)
    return out


def drops(P):
    """-> {(crate, callee, kind): {generic function: example span}} and the number of outcomes followed"""
    lost, n, nb, seen = {}, 0, 0, set()
    lossy = lossy_closures(P)
    for k in sorted(P.fns):
        f = P.fns[k]
        if SKIP.search(k):
            continue
        fl = None
        fid = fn_id(k)
        skips = lossy.get(f.get("span") or "") if "{closure" in k else None
        for bi, b in enumerate(f["bb"]):
            if b is None or b["t"][0] != "call":
                # function items handed to iterator adapters
                pass
            if b is None:
                continue
            for fr in frs([b["s"], b["t"][2:] if b["t"][0] == "call" else b["t"]]):
                m = fr.get("m") or ""
                mm = METHOD.match(m)
                if mm and (mm.group(1) in DEFAULT or mm.group(1) in ("ok", "err")) and "core::result" in m:
                    add(lost, f, fid, "item " + mm.group(1), "default", "", seen, bi)
            if b["t"][0] != "call":
                continue
            t = b["t"]
            fn = t[1][1].get("fn") if t[1][0] == "k" else None
            if fn is None:
                m, ident = "(pointer)", "(pointer)"
            else:
                m, ident = fn.get("m") or "", callee_id(fn)
            if m.endswith(("Iterator::flatten", "Iterator::flat_map")) and any("core::result::Result<" in g for g in fn.get("ga") or []):
                add(lost, f, fid, m, "default", "flatten", seen, bi)
            dst = t[3]
            if not dst:
                continue
            fl = fl or Flow(P, f)
            dty = fl.tyname(t[7]) if len(t) > 7 else ""
            if RES.match(dty):
                if STD_SOURCE.match(m) or BENIGN_ERR.search(dty):
                    continue
                n += 1
                if len(dst) > 1 or t[4] is None:
                    continue
                if skips:
                    add(lost, f, fid, ident, "default", skips, seen, bi)
                for kind, det in outcome(fl, dst[0], t[4]):
                    add(lost, f, fid, ident, kind, det, seen, bi)
                if re.match(r"core::result::Result<bool,", dty) and VERDICT.search(m):
                    nb += 1
                    ps = payloads(fl, dst[0])
                    if ps is not None and not any(verdict_read(fl, p) for p in ps):
                        add(lost, f, fid, ident, "bool", "", seen, bi)
            elif dty == "bool" and VERDICT.search(m):
                nb += 1
                if len(dst) == 1 and not verdict_read(fl, dst[0]):
                    add(lost, f, fid, ident, "bool", "", seen, bi)
            elif dty == "()" and False:
                pass
    return lost, n, nb


def frs(x):
    if isinstance(x, dict):
        if isinstance(x.get("fn"), dict):
            yield x["fn"]
        for v in x.values():
            yield from frs(v)
    elif isinstance(x, list):
        for v in x:
            yield from frs(v)


def add(lost, f, fid, ident, kind, det, seen, bi):
    sp = f.get("span") or ""
    key = (sp, fid, bi, ident, kind, det)
    if key in seen:
        return
    seen.add(key)
    crate = sp.split("/")[0] if "/" in sp else fid.split("::")[0].strip("<&")
    lost.setdefault((crate, ident, kind), {}).setdefault(fid, []).append((bi, det, sp))


def x01(P):
    R = Rule()
    lost, n, nb = drops(P)
    table = json.load(open(BASE))
    allowed = {(r["crate"], r["callee"], r["kind"]): r["count"] for r in table}
    R.obl += n + nb
    R.ob("(inventory)", n >= 2500, "floor", "only %d fallible calls found" % n)
    R.ob("(inventory)", nb >= 80, "floor:verdicts", "only %d verification verdicts found" % nb)
    for key, fids in sorted(lost.items()):
        crate, ident, kind = key
        total = sum(len(v) for v in fids.values())
        if kind == "match:other":
            for fid in fids:
                R.und.append("%s: what is returned after a failure of %s could not be classified" % (fid, ident))
            continue
        if total <= allowed.get(key, 0):
            R.items.append(dict(function=sorted(fids), callee=ident, kind=kind, reviewed=True))
            continue
        what = {"unused": "is never examined", "default": "is replaced by a default", "bool": "is never read"}.get(kind, "does not stop a success from being returned")
        for fid, v in sorted(fids.items()):
            R.ob(fid, False, "%s:%s" % (kind, ident), "the outcome of %s %s in %s (%s)" % (ident, what, fid, v[0][2]))
    R.notes["fallible_calls"] = n
    R.notes["verdicts"] = nb
    selftest()
    return R


def selftest():
    """the rule must be able to fire: a tiny body whose failing arm returns a success"""
    f = dict(
        key="t", span="t", args=0, names={}, _types=["core::result::Result<bool, E>", "isize"], locals=[0, 0, 1],
        bb=[
            dict(s=[], t=["call", ["k", {"fn": {"m": "v"}}], [], [1], 1, 0, [], 0]),
            dict(s=[[[2], ["disc", [1], {"0": "Ok", "1": "Err"}, 0]]], t=["switch", ["m", [2]], [[0, 2], [1, 3]], None]),
            dict(s=[], t=["goto", 3]),
            dict(s=[[[0], ["agg", {"k": "adt", "p": "core::result::Result", "v": "Ok", "n": ["0"]}, [["k", {"t": 1, "v": 1}]]]]], t=["ret"]),
        ],
    )
    assert ("match:success", "success") in outcome(Flow(None, f), 1, 1)
    f["bb"][3]["s"] = [[[0], ["agg", {"k": "adt", "p": "core::result::Result", "v": "Err", "n": ["0"]}, [["k", {"t": 1, "v": 1}]]]]]
    assert not outcome(Flow(None, f), 1, 1)
