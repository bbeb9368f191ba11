"""Abstract semantics of everything the analysed crates call but do not define:
core/std containers and combinators, bignum / curve / pairing back ends, digests,
transcripts, randomness.  Library code is trusted to do what its documentation says;
these transfer functions are that trust, written down.
"""
import re
from .terms import *
from . import terms as TM
from .interp import State, mref, ref_ext, _all_b, _ex_b, each, each_kv, closeb, mk_sum, mk_sum_raw, set_at, FnRef

ARITH = {
    "Add": p_add, "AddUnchecked": p_add, "AddWithOverflow": p_add,
    "Sub": p_sub, "SubUnchecked": p_sub, "SubWithOverflow": p_sub,
    "Mul": p_mul, "MulUnchecked": p_mul, "MulWithOverflow": p_mul,
}

WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "char": 32, "bool": 1}


def strip_ref(ty):
    while True:
        if ty.startswith("&"):
            ty = ty[1:]
            if ty.startswith("'"):
                ty = ty[ty.index(" ") + 1 :]
            if ty.startswith("mut "):
                ty = ty[4:]
        else:
            return ty


def is_map_ty(ty):
    ty = strip_ref(ty)
    return "HashMap<" in ty[:60] or "BTreeMap<" in ty[:80] or ty.startswith("serde_json::map::Map")


def is_set_ty(ty):
    ty = strip_ref(ty)
    return "HashSet<" in ty[:60] or "BTreeSet<" in ty[:80]


def bytes_ty(ty):
    ty = strip_ref(ty)
    return ty in ("[u8]", "alloc::vec::Vec<u8>") or re.match(r"\[u8; ", ty) is not None


PARSE = re.compile(r"<.*>$")


class Models(object):
    def __init__(self):
        self.exact = {}
        self.pref = []
        self.leaf = {}
        self.extra_events = ()
        register(self)

    # ------------------------------------------------------------ MIR operators
    def cmp_unsigned(self, op, a, b):
        """comparison of unsigned integers"""
        if op in ("Gt", "Le"):
            a, b = b, a
        # Lt/Gt: a < b; Ge/Le: not a < b
        if a.op == "phi" or b.op == "phi":
            f = disj([conj([c, d, truth(self.cmp_unsigned("Lt", x, y))]) for c, x in alts(a) for d, y in alts(b)])
            return cond(f if op in ("Lt", "Gt") else neg(f))
        if (a.op == "poly" and lower_bound(a) is None) or (b.op == "poly" and lower_bound(b) is None):
            # a difference: the subtraction itself demands that it is not negative
            f = mk_lt(a, b)
        elif b.op == "int" and b.a[0] == 1:
            f = self.eqf(a, ZERO)
        elif b.op == "int" and b.a[0] == 0:
            f = FALSE
        elif a.op == "int" and a.a[0] == 0:
            f = neg(self.eqf(b, ZERO))
        else:
            f = mk_lt(a, b)
        return cond(f if op in ("Lt", "Gt") else neg(f))

    def binop(self, op, a, b):
        if op.endswith("WithOverflow"):
            f = ARITH[op]
            return tup(f(a, b), mk("ovf", op, a, b))
        if op in ARITH:
            return ARITH[op](a, b)
        if op == "Eq":
            return cond(self.eqf(a, b))
        if op == "Ne":
            return cond(neg(self.eqf(a, b)))
        if op == "Lt":
            return cond(mk_lt(a, b))
        if op == "Le":
            return cond(mk_le(a, b))
        if op == "Gt":
            return cond(mk_lt(b, a))
        if op == "Ge":
            return cond(mk_le(b, a))
        if op in ("BitAnd", "BitOr", "BitXor"):
            boolish = ("bool", "cond", "eq", "eq0", "is", "lt", "has")
            if a.op in boolish or b.op in boolish:
                x, y = truth(a), truth(b)
                if op == "BitAnd":
                    return cond(conj([x, y]))
                if op == "BitOr":
                    return cond(disj([x, y]))
                return cond(disj([conj([x, neg(y)]), conj([neg(x), y])]))
            if a.op == "int" and b.op == "int":
                x, y = a.a[0], b.a[0]
                return const({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            if op == "BitAnd" and b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] + 1) == 0 and TM._nonneg(a):
                return self.binop("Rem", a, const(b.a[0] + 1))
            if a.id > b.id:
                a, b = b, a
            return app(op, a, b)
        if op == "Shr" and b.op == "int" and 0 < b.a[0] < 64 and TM._nonneg(a):
            return self.binop("Div", a, const(1 << b.a[0]))
        if op in ("Div", "Rem") and a.op == "poly" and b.op == "int" and b.a[0] > 0 and lower_bound(a) is not None:
            q = p_divc(a, b.a[0])
            if q is not None:
                return q if op == "Div" else ZERO
            k = next((c for m, c in a.a[0] if m == ()), 0)
            if isinstance(k, int) and k > 0:
                q = p_divc(p_sub(a, const(k)), b.a[0])
                if q is not None:
                    return p_add(q, const(k // b.a[0])) if op == "Div" else const(k % b.a[0])
        if op in ("Div", "Rem") and a.op == "int" and b.op == "int" and b.a[0]:
            q = abs(a.a[0]) // abs(b.a[0])
            if (a.a[0] < 0) != (b.a[0] < 0):
                q = -q
            return const(q if op == "Div" else a.a[0] - q * b.a[0])
        if op in ("Shl", "Shr") and a.op == "int" and b.op == "int":
            return const(a.a[0] << b.a[0] if op == "Shl" else a.a[0] >> b.a[0])
        if op == "Cmp":
            return app("cmp", a, b)
        return app(op, a, b)

    def eqf(self, a, b):
        if a.op in ("bool",) or b.op in ("bool",):
            pass
        if a.op == "discr" and b.op == "int":
            names = dict(a.a[1])
            if b.a[0] in names:
                return mk_isn(a.a[0], [names[i] for i in sorted(names)], names[b.a[0]])
        if b.op == "discr" and a.op == "int":
            return self.eqf(b, a)
        if a.op == "discr" and b.op == "discr":
            x, y = a.a[0], b.a[0]
            if x.op == "agg":
                return mk_isn(y, [n for i, n in sorted(a.a[1])], x.a[1])
            if y.op == "agg":
                return mk_isn(x, [n for i, n in sorted(b.a[1])], y.a[1])
        return mk_eq(a, b)

    def unop(self, op, a):
        if op == "Not":
            if a.op in ("bool", "cond", "eq", "eq0", "is", "lt", "has", "phi", "app", "field", "pl", "sym", "ovf", "elem", "at", "lv", "opaquecond"):
                if a.op == "phi" and not all(v.op in ("bool", "cond", "eq", "eq0", "is", "lt", "has", "app", "field", "pl", "sym") for c, v in a.a[0]):
                    return app("not", a)
                return cond(neg(truth(a)))
            return app("not", a)
        if op == "Neg":
            return p_neg(a)
        if op == "PtrMetadata":
            return mk_len(a)
        return app(op, a)

    def cast(self, kind, v, to, frm):
        if kind.startswith("IntToInt"):
            if v.op == "int":
                w = WIDTH.get(to, 64)
                x = v.a[0] & ((1 << w) - 1)
                if to.startswith("i") and x >> (w - 1):
                    x -= 1 << w
                return const(x)
            wt, wf = WIDTH.get(to), WIDTH.get(frm)
            if wt and wf and wt < wf:
                return app("trunc_" + to, v)
            return v
        if kind.startswith("FloatToInt") or kind.startswith("IntToFloat"):
            return app("cast_" + to, v)
        return v

    def rawderef(self, v):
        if v.op in ("sym", "pl", "elem", "at", "app"):
            return mk("deref", v)
        return v

    def mk_slice(self, v, lo, hi):
        n = mk_len(v)
        if hi is None:
            hi = n
        if lo.op == "int" and lo.a[0] == 0 and hi is n:
            return v
        if v.op == "phi":
            return mk_phi([(c, self.mk_slice(x, lo, hi if hi is not n else mk_len(x))) for c, x in v.a[0]])
        if v.op == "slice":
            return self.mk_slice(v.a[0], p_add(v.a[1], lo), p_add(v.a[1], hi))
        if lo.op == "int" and hi.op == "int":
            l, h = lo.a[0], hi.a[0]
            if v.op == "array" and 0 <= l <= h <= len(v.a):
                return mk("array", *v.a[l:h])
            if v.op == "bytes" and 0 <= l <= h <= len(v.a[0]):
                return mk("bytes", v.a[0][l:h])
        if v.op == "seq" and lo.op == "int":
            # drop whole leading items
            segs = v.a[0]
            k = lo.a[0]
            i = 0
            while k > 0 and i < len(segs) and segs[i][0] == "item":
                k -= 1
                i += 1
            if k == 0 and hi is n:
                return seq(segs[i:])
        if v.op == "seq":
            r = self.seq_slice(v.a[0], lo, hi)
            if r is not None:
                return r
        return self.mk_slice_raw(v, lo, hi)

    def seq_slice(self, segs, lo, hi):
        """the part [lo, hi) of a concatenation, when it falls on segment boundaries"""
        pos = [ZERO]
        for s in segs:
            pos.append(p_add(pos[-1], mk_len(seq((s,)))))
        if lo in pos and hi in pos and pos.index(lo) <= pos.index(hi):
            i, j = pos.index(lo), pos.index(hi)
            if j - i == 1 and segs[i][0] == "all":
                return segs[i][1]
            return seq(segs[i:j])
        w = p_sub(hi, lo)
        if w.op != "int" or w.a[0] <= 0:
            return None
        for n, s in enumerate(segs):
            if s[0] == "each" and s[3].k == "true":
                x = s[2].a[0] if s[2].op == "concat" else None
                ew = mk_len(x) if x is not None else ONE
                if ew.op != "int" or ew.a[0] <= 0 or w.a[0] > ew.a[0]:
                    continue
                d = p_sub(lo, pos[n])
                r = TM._pd(d).get((), 0) % ew.a[0] if d.op == "poly" else (d.a[0] % ew.a[0] if d.op == "int" else 0)
                i = p_divc(p_sub(d, const(r)), ew.a[0])
                if i is not None and i.op in ("elem", "idx"):
                    y = at_point(s[2], s[1], i)
                    y = y.a[0] if y.op == "concat" else seq((("item", y),))
                    return self.mk_slice(y, const(r), const(r + w.a[0]))
        return None

    def mk_slice_raw(self, v, lo, hi):
        return mk("slice", v, lo, hi)

    def set_slice(self, v, lo, hi, x):
        if lo.op == "int" and lo.a[0] == 0 and hi is mk_len(v):
            return x
        return mk("setslice", v, lo, hi, x)

    # ------------------------------------------------------------ opaque calls
    def opaque(self, I, st, name, args, argtys, destty, fr=None):
        vals = [I.deep(st, a) for a in args]
        nm = re.sub(r"\{closure@[^}]*\}", "{closure}", name) if "{closure@" in name else name
        iv = inverse(nm, vals)
        if iv is not None:
            return Ok(iv) if destty.startswith("core::result::Result") else iv
        I.opaque_calls[nm] = I.opaque_calls.get(nm, 0) + 1
        I.event("opaque", st, (nm, tuple(vals)))
        if "panic" in I.want and _nogen(nm) in PARTIAL and vals:
            lo, hi = PARTIAL[_nogen(nm)]
            n = mk_len(field(vals[0], "0") if argtys and "ursa::keys::" in argtys[0] else vals[0])
            bad = disj([mk_lt(n, mk("int", lo))] + ([mk_lt(mk("int", hi), n)] if hi is not None else []))
            s = st.fork()
            s.pc = conj([st.pc, bad])
            if s.pc.k != "false":
                I.event("panic", s, ("library", nm))
            st.pc = conj([st.pc, neg(bad)])
        r = app(nm, *vals)
        for i, a in enumerate(args):
            if a.op == "mref" and (i >= len(argtys) or argtys[i].startswith("&mut") or argtys[i] == "" or argtys[i].startswith("*mut")):
                I.write_ref(st, a, app("out%d:%s" % (i, nm), *vals))
        if destty == "!":
            I.event("panic", st, ("call", nm))
            st.pc = FALSE
        return r

    def ctor(self, fr, args):
        m = fr.m
        if isinstance(fr.ctor, (list, tuple)):
            p, v = fr.ctor[0], fr.ctor[1]
        else:
            segs = m.split("::")
            p, v = "::".join(segs[:-1]), segs[-1]
            if m in ("core::option::Option::Some", "core::result::Result::Ok", "core::result::Result::Err"):
                pass
            elif not fr.ctor or fr.ctor == "struct":
                p, v = m, segs[-1]
        return agg(p, v, [str(i) for i in range(len(args))], args)

    # ------------------------------------------------------------ dispatch
    def call(self, I, st, fr, args, argtys, destty):
        m = fr.m
        if fr.ctor:
            return self.ctor(fr, args)
        k = fr.key or m
        lf = self.leaf.get(_nogen(k)) or I.leaf.get(_nogen(k))
        if lf is not None:
            return lf(Call(self, I, st, fr, args, argtys, destty))
        if I.cut is not None and fr.key and len(I.stack) >= 1:
            ck = _nogen(k)
            if I.cut.search(ck):
                return self.opaque(I, st, ck, args, argtys, destty, fr)
        if fr.key and not fr.shim:
            body = I.prog.fn(fr.key)
            if body is not None:
                tr = fr.tr or ""
                if body.get("derived") or (tr == "core::clone::Clone" and body.get("derived")):
                    pass
                elif tr in ("core::fmt::Debug", "core::fmt::Display"):
                    return app("fmt")
                else:
                    return None
        f = self.exact.get(m)
        if f is None:
            for p, g in self.pref:
                if m.startswith(p):
                    f = g
                    break
        if f is not None:
            return f(Call(self, I, st, fr, args, argtys, destty))
        if m.startswith("core::panicking::") or m.startswith("std::panicking::") or m.startswith("core::option::unwrap_failed") or destty == "!":
            I.event("panic", st, ("call", m))
            st.pc = FALSE
            return mk("undef")
        return None

    # ------------------------------------------------------------ iterators
    def iter_parts(self, I, st, v):
        if v.op == "iter":
            return list(v.a[0])
        return None

    def into_iter(self, I, st, v, ty, orig=None):
        """value -> iter term"""
        if v.op == "iter":
            return v
        if v.op in ("oneshot", "exhausted"):
            return v
        if v.op == "undef":
            return mk("iter", ())
        if v.op == "phi" and all(x.op == "iter" for c, x in v.a[0]):
            parts = []
            for c, x in v.a[0]:
                for p in x.a[0]:
                    if p[0] == "item":
                        parts.append(("item", p[1], conj([c, p[2]])))
                    elif p[0] == "each":
                        parts.append((p[0], p[1], p[2], conj([c, p[3]])))
                    else:
                        return app("iter", v)
            return mk("iter", tuple(parts))
        # a moved-in iterator adaptor of unknown kind
        t = strip_ref(ty)
        if t.startswith("core::ops::range::Range<") or (v.op == "agg" and v.a[0].endswith("::Range")):
            lo, hi = field(v, "start"), field(v, "end")
            return self.range_iter(I, lo, hi)
        if v.op == "agg" and v.a[0].endswith("::RangeFrom"):
            return mk("iter", (("from", field(v, "start")),))
        if "RangeInclusive<" in t[:40] or (v.op == "agg" and v.a[0].endswith("::RangeInclusive")):
            return self.range_iter(I, field(v, "start"), p_add(field(v, "end"), ONE))
        if t.startswith("core::option::Option<"):
            return mk("iter", (("item", payload(v, "Some", 0), mk_is(v, "Some")),))
        if orig is not None and orig.op == "mref" and ty.startswith("&mut"):
            return self.iter_mut(I, st, orig, v, ty)
        kind = "map" if is_map_ty(ty) else ("set" if is_set_ty(ty) else "seq")
        return self.coll_iter(I, v, kind)

    def range_iter(self, I, lo, hi):
        if hi.op == "phi" and len(hi.a[0]) == 2 and lo.op == "int":
            # lo..a.saturating_sub(b) has the elements of lo..a - b
            for (c, v), (_, w) in (hi.a[0], hi.a[0][::-1]):
                if v.op == "int" and v.a[0] <= lo.a[0] and c.k == "lit" and c.a[1] and c.a[0].op == "lt" and p_sub(*c.a[0].a) is w:
                    hi = w
                    break
        if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 8:
            return mk("iter", tuple(("item", const(i), TRUE) for i in range(lo.a[0], max(lo.a[0], hi.a[0]))))
        d = mk_range(lo, hi)
        nd, s = fuse_dom(d)
        b = I.new_it(nd)
        if d.op == "range":
            return mk("iter", (("each", b, t_elem(b), TRUE),))
        return mk("iter", (("each", b, mk_idx(b), TRUE),))

    def coll_iter(self, I, v, kind):
        if v.op == "phi" and len(v.a[0]) <= 3 and (
            all(x.op in ("seq", "array", "mapb") for c, x in v.a[0]) or (kind != "seq" and any(x.op == "mapb" for c, x in v.a[0]))
        ):
            parts = []
            for c, x in v.a[0]:
                for p in self.coll_iter(I, x, kind).a[0]:
                    parts.append(p[:-1] + (conj([c, p[-1]]),))
            return mk("iter", tuple(parts))
        if kind == "seq":
            if v.op == "array":
                if len(v.a) <= 16:
                    return mk("iter", tuple(("item", x, TRUE) for x in v.a))
            if v.op == "repeat" and v.a[1].op == "int" and v.a[1].a[0] <= 8:
                return mk("iter", tuple(("item", v.a[0], TRUE) for _ in range(v.a[1].a[0])))
            if v.op == "seq":
                parts = []
                for s in v.a[0]:
                    if s[0] == "item":
                        parts.append(("item", s[1], TRUE))
                    elif s[0] == "all":
                        parts.extend(self.coll_iter(I, s[1], "seq").a[0])
                    else:
                        if s[2].op == "concat":
                            return self._opaque_iter(I, v)
                        b = I.new_it(s[1].a[0])
                        m = {s[1]: b}
                        parts.append(("each", b, subst(s[2], m), fsubst(s[3], m)))
                return mk("iter", tuple(parts))
            if v.op == "bytes" and len(v.a[0]) <= 8:
                return mk("iter", tuple(("item", const(x), TRUE) for x in v.a[0]))
            if v.op == "keys":
                b = I.new_it(v.a[0])
                return mk("iter", (("each", b, mk("key", b), TRUE),))
            if v.op == "slice":
                # the positions of the sliced sequence
                d = fuse_dom(mk_range(v.a[1], v.a[2]))[0]
                b = I.new_it(d)
                return mk("iter", (("each", b, mk_at(v.a[0], mk_idx(b)), TRUE),))
            b = I.new_it(v)
            return mk("iter", (("each", b, mk("elem", b), TRUE),))
        if v.op == "seq" and not v.a[0]:
            return mk("iter", ())
        if v.op == "mapb":
            parts = []
            ok = True
            if v.a[0] is not None:
                parts.extend(self.coll_iter(I, v.a[0], kind).a[0])
            for e in v.a[1]:
                if e[0] == "item":
                    parts.append(("item", tup(e[1], e[2]) if kind == "map" else e[1], TRUE))
                elif e[0] == "each":
                    b = I.new_it(e[1].a[0])
                    m = {e[1]: b}
                    k, x, f = subst(e[2], m), subst(e[3], m), fsubst(e[4], m)
                    parts.append(("each", b, tup(k, x) if kind == "map" else k, f))
                elif e[0] == "all":
                    parts.extend(self.coll_iter(I, e[1], kind).a[0])
                elif e[0] == "del":
                    left = []
                    for p in parts:
                        k = p[1] if p[0] == "item" else p[2]
                        c = conj([p[-1], neg(mk_eq(field(k, "0") if kind == "map" else k, e[1]))])
                        if c.k != "false":
                            left.append(p[:-1] + (c,))
                    parts = left
                else:
                    ok = False
            if ok:
                if kind == "set" and 1 < len(parts) <= 4 and v.a[0] is None and any(p[0] == "each" for p in parts):
                    parts = self.disjoint(parts)
                return mk("iter", tuple(parts))
        if kind == "set":
            if v.op == "keys":
                b = I.new_it(v.a[0])
                return mk("iter", (("each", b, mk("key", b), TRUE),))
            TM.SETS.add(v)
            b = I.new_it(v)
            return mk("iter", (("each", b, mk("elem", b), TRUE),))
        b = I.new_it(v)
        return mk("iter", (("each", b, tup(mk("key", b), mk("val", b)), TRUE),))

    def disjoint(self, parts):
        """elements of a set are visited once: what an earlier part contributes is not in a later one"""
        out = []
        ents = []
        for p in parts:
            k = p[1] if p[0] == "item" else p[2]
            c = p[-1]
            for e, g in ents:
                m = TM._set_member(e, k)
                if m is not None:
                    c = conj([c, neg(conj([g, m]))])
            out.append(p[:-1] + (c,))
            if p[0] == "item":
                ents.append((("item", k, UNIT), p[-1]))
            elif p[0] == "each":
                ents.append((each_kv(p[1], k, UNIT, p[3]), TRUE))
        return out

    def _opaque_iter(self, I, v):
        b = I.new_it(v)
        return mk("iter", (("each", b, mk("elem", b), TRUE),))

    def iter_mut(self, I, st, ref, v, ty, valsonly=False):
        if is_map_ty(ty):
            b = I.new_it(v)
            el = ref_ext(ref, ("get", mk("key", b)))
            return mk("iter", (("each", b, el if valsonly else tup(mk("key", b), el), TRUE),))
        n = mk_len(v)
        if n.op == "int" and n.a[0] <= 8:
            return mk("iter", tuple(("item", ref_ext(ref, ("i", const(i))), TRUE) for i in range(n.a[0])))
        d = fuse_dom(v)[0]
        if n.op == "len":
            d = fuse_dom(n.a[0])[0]
        b = I.new_it(d)
        return mk("iter", (("each", b, ref_ext(ref, ("i", mk_idx(b))), TRUE),))

    def it_single(self, it_):
        """the single unfiltered part of an iterator, or None"""
        if it_.op == "iter" and len(it_.a[0]) == 1 and it_.a[0][0][0] == "each" and it_.a[0][0][3].k == "true":
            return it_.a[0][0]
        return None

    def at_iter(self, part, i):
        """element of an unfiltered part at position i"""
        _, b, e, F = part
        return at_point(e, b, i)

    def collect_seq(self, parts):
        segs = []
        for p in parts:
            if p[0] == "item":
                if p[2].k == "true":
                    segs.append(("item", p[1]))
                else:
                    segs.append(("all", mk_phi([(p[2], seq([("item", p[1])])), (neg(p[2]), EMPTY)])))
            elif p[0] == "each":
                segs.append(each(p[1], p[2], p[3]))
            else:
                segs.append(("all", mk("inf", *p[1:])))
        return seq(segs)

    def collect_map(self, parts, kind):
        ents = []
        for p in parts:
            if kind == "map":
                k, v = field(p[2] if p[0] == "each" else p[1], "0"), field(p[2] if p[0] == "each" else p[1], "1")
            else:
                k, v = (p[2] if p[0] == "each" else p[1]), UNIT
            if p[0] == "item":
                ents.append(("item", k, v))
            elif p[0] == "each":
                ents.append(each_kv(p[1], k, v, p[3]))
        return mapb(None, ents, kind)

    def collect(self, I, st, it_, ty):
        if it_.op != "iter":
            return app("collect", I.deep(st, it_))
        parts = it_.a[0]
        parts = tuple(_deep_part(I, st, p) for p in parts)
        t = strip_ref(ty)
        if t.startswith("core::result::Result<") or t.startswith("core::option::Option<"):
            res = t.startswith("core::result::Result<")
            good = "Ok" if res else "Some"
            inner = _first_generic(t)
            fs = []
            np = []
            errs = []
            for p in parts:
                e = p[2] if p[0] == "each" else p[1]
                g = mk_is(e, good)
                np.append(("each", p[1], payload(e, good, 0), p[3]) if p[0] == "each" else ("item", payload(e, good, 0), p[2]))
                F = p[-1]
                f = disj([neg(F), g])
                fs.append(_all_b(p[1], f) if p[0] == "each" else f)
                errs.append(payload(e, "Err", 0))
            c = conj(fs)
            v = self.collect(I, st, mk("iter", tuple(np)), inner)
            okv = Ok(v) if res else Some(v)
            if c.k == "true":
                return okv
            bad = Err(mk("errs", frozenset(errs))) if res else NONE
            return mk_phi([(c, okv), (neg(c), bad)])
        if is_map_ty(t):
            return self.collect_map(parts, "map")
        if is_set_ty(t):
            return self.collect_map(parts, "set")
        return self.collect_seq(parts)

    def map_parts(self, I, st, it_, fn):
        """apply fn(state, item) -> value to every element (effects summarised)"""
        if it_.op != "iter":
            return app("map", it_)
        out = []
        for p in it_.a[0]:
            if p[0] == "item":
                if p[2].k == "true":
                    out.append(("item", fn(st, p[1]), TRUE))
                else:
                    v = branch(I, st, p[2], lambda s: fn(s, p[1]), lambda s: mk("undef"))
                    out.append(("item", payload_under(v, p[2]), p[2]))
            elif p[0] == "each":
                _, b, e, F = p
                s = st.fork()
                s.pc = F
                ev0 = len(I.events)
                I.bstack.append(b)
                try:
                    v = fn(s, e)
                finally:
                    I.bstack.pop()
                changed = _changed(I, st, s)
                if changed:
                    # side effects: run as a proper loop collecting the results
                    del I.events[ev0:]
                    I.fid += 1
                    acc = ("acc", I.fid)
                    st.set_out(acc, EMPTY)

                    def body(s2, item):
                        x = fn(s2, item)
                        I.write_ref(s2, mref(acc), seq([("all", I.loc_get(s2, acc)), ("item", x)]))

                    I.loop_model(st, [p], body)
                    r = I.loc_get(st, acc)
                    for q in self.coll_iter(I, r, "seq").a[0]:
                        out.append(q)
                    continue
                c = s.pc
                for ev in I.events[ev0:]:
                    ev.pc = conj([st.pc, _ex_b(b, ev.pc)])
                if F.k != "true":
                    c = disj([neg(F), c])
                st.pc = conj([st.pc, _all_b(b, c)])
                out.append(("each", b, v, F))
            else:
                return app("map", it_)
        return mk("iter", tuple(out))

    def filter_parts(self, I, st, it_, fn, mode="filter"):
        if it_.op != "iter":
            return app("filter", it_)
        m = self.map_parts(I, st, it_, lambda s, e: tup(fn(s, e), e))
        if m.op != "iter":
            return app("filter", it_)
        out = []
        for p in m.a[0]:
            e = p[2] if p[0] == "each" else p[1]
            r, x = field(e, "0"), field(e, "1")
            if mode == "filter":
                F = truth(r)
            elif mode == "filter_map":
                F = mk_is(r, "Some")
                x = payload(r, "Some", 0)
            F = conj([p[-1], F])
            if F.k == "false":
                continue
            out.append(("each", p[1], x, F) if p[0] == "each" else ("item", x, F))
        return mk("iter", tuple(out))

    def zip(self, I, st, a, b):
        if a.op != "iter" or b.op != "iter":
            return app("zip", a, b)
        pa, pb = a.a[0], b.a[0]
        if len(pa) == 1 and pa[0][0] == "from":
            z = self.zip(I, st, b, a)
            if z.op != "iter":
                return z
            return mk("iter", tuple(("each", p[1], tup(field(p[2], "1"), field(p[2], "0")), p[3]) if p[0] == "each" else ("item", tup(field(p[1], "1"), field(p[1], "0")), p[2]) for p in z.a[0]))
        if len(pb) == 1 and pb[0][0] == "from":
            st0 = pb[0][1]
            e = self.enumerate(I, a)
            if e.op != "iter":
                return app("zip", a, b)
            return mk("iter", tuple(("each", p[1], tup(field(p[2], "1"), p_add(st0, field(p[2], "0"))), p[3]) if p[0] == "each" else ("item", tup(field(p[1], "1"), p_add(st0, field(p[1], "0"))), p[2]) for p in e.a[0]))
        if len(pb) == 1 and pb[0][0] == "repeat":
            return mk("iter", tuple(("each", p[1], tup(p[2], pb[0][1]), p[3]) if p[0] == "each" else ("item", tup(p[1], pb[0][1]), p[2]) for p in pa))
        if len(pa) == 1 and pa[0][0] == "repeat":
            return mk("iter", tuple(("each", p[1], tup(pa[0][1], p[2]), p[3]) if p[0] == "each" else ("item", tup(pa[0][1], p[1]), p[2]) for p in pb))
        r = self.align(I, st, list(pa), list(pb))
        if r is not None:
            return mk("iter", tuple(r))
        s = self.collect_seq(_dp(I, st, pa))
        x = self._opaque_iter(I, s).a[0][0]
        s = self.collect_seq(_dp(I, st, pb))
        y = self._opaque_iter(I, s).a[0][0]
        return mk("iter", (self.zip_each(I, st, x, y),))

    def zip_each(self, I, st, x, y):
        _, b1, e1, F = x
        _, b2, e2, _ = y
        d1, d2 = b1.a[0], b2.a[0]
        if d1 is d2:
            return ("each", b1, tup(e1, subst(e2, {b2: b1})), F)
        l1, l2 = mk_domlen(d1), mk_domlen(d2)
        if l1 is l2:
            d = min((d1, d2), key=lambda d: (d.op == "range", show(d)))
        elif implies(st.pc, mk_eq(l1, l2)):
            d = min((d1, d2), key=lambda d: (d.op == "range", show(d)))
        elif implies(st.pc, mk_le(l1, l2)):
            d = d1
        elif implies(st.pc, mk_le(l2, l1)):
            d = d2
        else:
            d = zip_dom(st.pc, d1, d2)
        nb = I.new_it(d)
        f1 = subst(e1, {b1: nb}) if d is d1 else at_point(e1, b1, rel_idx(nb))
        f2 = subst(e2, {b2: nb}) if d is d2 else at_point(e2, b2, rel_idx(nb))
        return ("each", nb, tup(f1, f2), TRUE)

    def align(self, I, st, pa, pb):
        """pair up two part lists; None when they cannot be lined up"""
        out = []
        while pa and pb:
            x, y = pa[0], pb[0]
            if x[-1].k != "true" or y[-1].k != "true":
                if x[0] == "each" and y[0] == "each" and x[1].a[0] is y[1].a[0] and fsubst(y[3], {y[1]: x[1]}) is x[3]:
                    out.append(("each", x[1], tup(x[2], subst(y[2], {y[1]: x[1]})), x[3]))
                    pa, pb = pa[1:], pb[1:]
                    continue
                return None
            if x[0] not in ("item", "each") or y[0] not in ("item", "each"):
                return None
            if x[0] == "item" and y[0] == "item":
                out.append(("item", tup(x[1], y[1]), TRUE))
                pa, pb = pa[1:], pb[1:]
                continue
            if x[0] == "each" and y[0] == "each":
                l1, l2 = mk_domlen(x[1].a[0]), mk_domlen(y[1].a[0])
                if l1 is l2 or implies(st.pc, mk_eq(l1, l2)) or (len(pa) == 1 and len(pb) == 1):
                    out.append(self.zip_each(I, st, x, y))
                    pa, pb = pa[1:], pb[1:]
                    continue
                return None
            sw = x[0] == "each"
            e, p = (x, y) if sw else (y, x)
            n = mk_domlen(e[1].a[0])
            F = mk_lt(ZERO, n)
            if F.k == "false":
                if sw:
                    pa = pa[1:]
                else:
                    pb = pb[1:]
                continue
            if implies(st.pc, F):
                F = TRUE
            v0 = self.at_iter(e, ZERO)
            out.append(("item", tup(v0, p[1]) if sw else tup(p[1], v0), F))
            rest = list(self.sub_iter(I, mk("iter", (e,)), ONE, None).a[0])
            if sw:
                pa, pb = rest + pa[1:], pb[1:]
            else:
                pa, pb = pa[1:], rest + pb[1:]
            if F.k != "true" and ((sw and len(pa) > len(rest)) or (not sw and len(pb) > len(rest))):
                return None
        return out

    def enumerate(self, I, a):
        if a.op != "iter":
            return app("enumerate", a)
        ps = a.a[0]
        if len(ps) == 1 and ps[0][0] == "each" and ps[0][3].k == "true":
            _, b, e, F = ps[0]
            ix = mk_idx(b)
            if b.a[0].op == "range":
                ix = p_sub(ix, b.a[0].a[0])
            return mk("iter", (("each", b, tup(ix, e), F),))
        off = ZERO
        out = []
        for p in ps:
            if p[-1].k != "true":
                if p[0] == "each" and len(ps) == 1:
                    _, b, e, F = p
                    return mk("iter", (("each", b, tup(closeb("rank", b, (), F) if False else mk("rank", b, F), e), F),))
                s = self.collect_seq(ps)
                _, b, e, F = self._opaque_iter(I, s).a[0][0]
                return mk("iter", (("each", b, tup(mk_idx(b), e), F),))
            if p[0] == "item":
                out.append(("item", tup(off, p[1]), TRUE))
                off = p_add(off, ONE)
            else:
                ix = mk_idx(p[1])
                if p[1].a[0].op == "range":
                    ix = p_sub(ix, p[1].a[0].a[0])
                out.append(("each", p[1], tup(p_add(off, ix), p[2]), TRUE))
                off = p_add(off, mk_domlen(p[1].a[0]))
        return mk("iter", tuple(out))

    def sub_iter(self, I, a, lo, hi):
        """elements lo..hi of an iterator (hi None = rest)"""
        if a.op != "iter":
            return app("subiter", a, lo, hi if hi is not None else UNIT)
        ps = a.a[0]
        if len(ps) == 1 and ps[0][0] == "from":
            if hi is None:
                return mk("iter", (("from", p_add(ps[0][1], lo)),))
            return self.range_iter(I, p_add(ps[0][1], lo), p_add(ps[0][1], hi))
        if len(ps) == 1 and ps[0][0] == "repeat":
            n = hi if hi is not None else None
            if n is None:
                return a
            return self.coll_iter(I, mk("repeat", ps[0][1], p_sub(n, lo)), "seq")
        if all(p[0] == "item" and p[2].k == "true" for p in ps) and lo.op == "int" and (hi is None or hi.op == "int"):
            return mk("iter", ps[lo.a[0] : (hi.a[0] if hi is not None else None)])
        if lo.op == "int" and hi is None and all(p[-1].k == "true" for p in ps):
            k = lo.a[0]
            i = 0
            while k and i < len(ps) and ps[i][0] == "item":
                i += 1
                k -= 1
            if k == 0:
                return mk("iter", ps[i:])
            if i:
                return self.sub_iter(I, mk("iter", ps[i:]), const(k), None)
        x = self.it_single(a)
        if x is None:
            s = self.collect_seq(ps)
            x = self._opaque_iter(I, s).a[0][0]
        _, b, e, _ = x
        d = b.a[0]
        if d.op == "range":
            l2 = p_add(d.a[0], lo)
            h2 = d.a[1] if hi is None else p_add(d.a[0], hi)
            if l2.op == "int" and h2.op == "int" and h2.a[0] - l2.a[0] <= 8:
                return mk("iter", tuple(("item", self.at_iter(x, const(i - d.a[0].a[0] if d.a[0].op == "int" else i)), TRUE) for i in range(l2.a[0], max(l2.a[0], h2.a[0]))))
            nd = mk_range(l2, h2)
            nb = I.new_it(nd)
            el = t_elem(nb) if nd.op == "range" else mk_idx(nb)
            return mk("iter", (("each", nb, subst(e, {t_elem(b): el}), TRUE),))
        n = mk_domlen(d)
        if hi is None:
            nb = I.new_it(mk_range(lo, n))
            return mk("iter", (("each", nb, at_point(e, b, mk_idx(nb)), TRUE),))
        nd = mk("slice", d, lo, hi)
        if hi is not None and lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 8:
            return mk("iter", tuple(("item", self.at_iter(x, const(i)), mk_lt(const(i), n)) for i in range(lo.a[0], hi.a[0])))
        nb = I.new_it(nd)
        return mk("iter", (("each", nb, at_point(e, b, p_add(lo, mk_idx(nb))), TRUE),))

    def rev(self, I, a):
        if a.op != "iter":
            return app("rev", a)
        out = []
        for p in reversed(a.a[0]):
            if p[0] == "item":
                out.append(p)
            elif p[0] == "each":
                d = p[1].a[0]
                if d.op == "rev":
                    nb = I.new_it(d.a[0])
                    e2 = at_point(p[2], p[1], p_sub(p_sub(mk_domlen(d.a[0]), ONE), mk_idx(nb)))
                    out.append(("each", nb, e2, p[3]))
                    continue
                nb = I.new_it(mk("rev", d))
                n = mk_domlen(d)
                ix = p_sub(p_sub(n, ONE), mk("idx", nb))
                if d.op == "range":
                    e2 = subst(p[2], {t_elem(p[1]): p_add(d.a[0], ix)})
                    F2 = fsubst(p[3], {t_elem(p[1]): p_add(d.a[0], ix)})
                else:
                    e2 = at_point(p[2], p[1], ix)
                    F2 = p[3]
                    if F2.k != "true":
                        return app("rev", a)
                out.append(("each", nb, e2, F2))
            else:
                return app("rev", a)
        return mk("iter", tuple(out))

    def to_iter(self, c, i=0):
        """argument i of the call as an iterator term"""
        a = c.args[i]
        v = c.I.deref_all(c.st, c.I.read_ref(c.st, a))
        ty = c.ty(i)
        return self.into_iter(c.I, c.st, v, ty, a if a.op == "mref" else None)


def _dp(I, st, ps):
    return tuple(_deep_part(I, st, p) for p in ps)


def _deep_part(I, st, p):
    if p[0] == "each":
        return ("each", p[1], I.deep(st, p[2]), p[3])
    if p[0] == "item":
        return ("item", I.deep(st, p[1]), p[2])
    return p


def payload_under(v, c):
    if v.op == "phi":
        xs = [(g, x) for g, x in v.a[0] if x.op != "undef"]
        if len(xs) == 1:
            return xs[0][1]
    return v


def _changed(I, a, b):
    for k, v in b.cur.items():
        o = a.cur.get(k)
        if o is not None and o is not v:
            return True
    if b.out is not a.out:
        for k, v in b.out.items():
            o = a.out.get(k)
            if o is not None and o is not v:
                return True
    return False


def _nogen(k):
    """strip the trailing instance generics of an instance key: path<..>"""
    if k.endswith(">") and not k.startswith("<"):
        d = 0
        for i in range(len(k) - 1, -1, -1):
            ch = k[i]
            if ch == ">" and (i == 0 or k[i - 1] != "-"):
                d += 1
            elif ch == "<":
                d -= 1
                if d == 0:
                    if i >= 2 and k[i - 2 : i] == "::":
                        return k[: i - 2]
                    return k[:i]
    return k


def _first_generic(t):
    i = t.index("<") + 1
    d = 0
    for j in range(i, len(t)):
        ch = t[j]
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            if ch == ">" and t[j - 1] == "-":
                continue
            if d == 0:
                return t[i:j]
            d -= 1
        elif ch == "," and d == 0:
            return t[i:j]
    return ""


def branch(I, st, c, ft, fe):
    """if c then ft(state) else fe(state); merges the two states into st; returns phi"""
    if c.k == "true":
        return ft(st)
    if c.k == "false":
        return fe(st)
    e0 = len(I.events)
    s1 = st.fork()
    s2 = st.fork()
    pc0 = st.pc
    s1.pc = c
    s2.pc = neg(c)
    v1 = ft(s1)
    v2 = fe(s2)
    for ev in I.events[e0:]:
        ev.pc = conj([pc0, ev.pc])
    if s1.pc.k == "false" and s2.pc.k == "false":
        st.pc = FALSE
        return mk("undef")
    alive = [(s, v) for s, v in ((s1, v1), (s2, v2)) if s.pc.k != "false"]
    if len(alive) == 1:
        s, v = alive[0]
        st.pc = conj([pc0, s.pc])
        st.cur, st.out, st.own = s.cur, s.out, False
        return v
    keys = set(s1.cur) | set(s2.cur)
    m = I.merge([s1, s2], keys)
    st.pc = conj([pc0, m.pc])
    st.cur, st.out, st.own = m.cur, m.out, m.own
    # guards: what each side needed beyond the common part
    sa = set(s1.pc.a) if s1.pc.k == "and" else {s1.pc}
    sb = set(s2.pc.a) if s2.pc.k == "and" else {s2.pc}
    return mk_phi([(conj(sa - sb), v1), (conj(sb - sa), v2)])


class Call(object):
    __slots__ = ("M", "I", "st", "fr", "args", "argtys", "destty")

    def __init__(self, M, I, st, fr, args, argtys, destty):
        self.M, self.I, self.st, self.fr = M, I, st, fr
        self.args, self.argtys, self.destty = args, argtys, destty

    def v(self, i):
        """value of argument i, references followed"""
        return self.I.deref_all(self.st, self.I.read_ref(self.st, self.args[i]))

    def dv(self, i):
        return self.I.deep(self.st, self.v(i))

    def ty(self, i):
        if i < len(self.argtys) and self.argtys[i]:
            return self.argtys[i]
        if i == 0 and self.fr.self_:
            return self.fr.self_
        return ""

    def set(self, i, v):
        r = self.I._norm_ref(self.st, self.args[i])
        self.I.write_ref(self.st, r, v)

    def call(self, f, *xs, **kw):
        return self.I.call_any(kw.get("st", self.st), f, list(xs))

    def panic(self, kind, cnd, *data):
        """the call panics when formula cnd holds"""
        if cnd.k == "false":
            return
        if "panic" in self.I.want:
            s = self.st.fork()
            s.pc = conj([self.st.pc, cnd])
            if s.pc.k != "false":
                self.I.event("panic", s, (kind,) + data)
        if kind not in ("index", "slice", "copylen") or "panic" in self.I.want:
            self.st.pc = conj([self.st.pc, neg(cnd)])

    @property
    def n(self):
        return len(self.args)


# ================================================================ registration
def register(M):
    E = M.exact

    def ex(*names):
        def deco(f):
            for n in names:
                E[n] = f
            return f

        return deco

    def pre(*names):
        def deco(f):
            for n in names:
                M.pref.append((n, f))
            return f

        return deco

    OPT = "core::option::Option::<T>::"
    RES = "core::result::Result::<T, E>::"

    # ---------------------------------------------------------- identity-like
    def ident(c):
        return c.args[0]

    def identv(c):
        return c.v(0)

    for n in [
        "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "alloc::borrow::ToOwned::to_owned",
        "core::clone::Clone::clone", "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
        "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
        "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::into_boxed_slice",
        "alloc::boxed::Box::<T>::new", "alloc::rc::Rc::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::boxed::Box::<T>::into_raw",
        "core::cell::RefCell::<T>::new", "core::cell::Cell::<T>::new", "core::hint::must_use",
        "alloc::string::String::as_bytes", "alloc::string::String::as_str", "core::str::<impl str>::as_bytes", "alloc::string::String::into_bytes",
        "alloc::str::<impl str>::to_owned", "core::mem::manually_drop::ManuallyDrop::<T>::new", "core::slice::<impl [T]>::as_ptr",
        "core::iter::traits::iterator::Iterator::by_ref", "core::iter::traits::iterator::Iterator::peekable", "core::iter::traits::iterator::Iterator::fuse",
        "core::array::<impl [T; N]>::as_slice", "alloc::vec::Vec::<T, A>::into_iter", "core::convert::identity", "core::ptr::mut_ptr::<impl *mut T>::cast", "core::ptr::const_ptr::<impl *const T>::cast",
        "alloc::borrow::Cow::<'_, B>::into_owned", "core::borrow::BorrowMut::borrow_mut", "core::array::<impl [T; N]>::map_identity",
        "alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::box_new", "core::pin::Pin::<Ptr>::new",
        "core::cell::RefCell::<T>::borrow", "alloc::vec::Vec::<T, A>::leak", "core::slice::<impl [T]>::into_vec",
        "amcl_wrapper::field_elem::FieldElementVector::as_slice", "amcl_wrapper::group_elem::GroupElementVector::as_slice",
        "typenum::marker_traits::Unsigned::to_usize_",
        "generic_array::GenericArray::<T, N>::as_slice", "core::num::NonZero::<T>::get",
        "ffi_support::ffistr::FfiStr::<'a>::from_raw",
    ]:
        E[n] = identv

    for n in [
        "core::convert::AsMut::as_mut", "core::ops::deref::DerefMut::deref_mut", "alloc::vec::Vec::<T, A>::as_mut_slice",
        "core::cell::RefCell::<T>::borrow_mut", "generic_array::GenericArray::<T, N>::as_mut_slice", "core::slice::<impl [T]>::as_mut_ptr",
        "amcl_wrapper::group_elem::GroupElementVector::as_mut_slice", "amcl_wrapper::field_elem::FieldElementVector::as_mut_slice",
        "alloc::boxed::Box::<T>::leak",
    ]:
        E[n] = ident

    @ex("core::ops::deref::Deref::deref")
    def deref(c):
        v = c.v(0)
        if v.op == "static" or "lazy_static" in (c.fr.key or ""):
            return v
        return v

    @ex("core::convert::Into::into", "core::convert::From::from")
    def into(c):
        frm, to = "", strip_ref(c.destty)
        v = c.v(0)
        src = strip_ref(c.ty(0))
        if c.fr.m.endswith("Into::into"):
            # blanket impl: find a workspace From impl
            ga = c.fr.ga
            if len(ga) >= 2:
                f = find_impl(c.I.prog, "core::convert::From", ga[1], ga[0], "from")
                if f is not None:
                    return c.I.run_fn(f, [c.args[0]], c.st, c.I.cur_line)
        if is_map_ty(to) or is_set_ty(to):
            return c.M.collect(c.I, c.st, c.M.into_iter(c.I, c.st, v, c.ty(0)), to)
        if is_error_ty(to):
            return app("err", v)
        if "amcl_wrapper::" in to and src in ("u8", "u32", "u64", "i32"):
            return v
        return v

    @ex("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
    def try_from(c):
        if c.fr.m.endswith("TryInto::try_into"):
            ga = c.fr.ga
            if len(ga) >= 2:
                f = find_impl(c.I.prog, "core::convert::TryFrom", ga[1], ga[0], "try_from")
                if f is not None:
                    return c.I.run_fn(f, [c.args[0]], c.st, c.I.cur_line)
        # slice -> array
        m = re.match(r"core::result::Result<&?\[[\w:]+; (\d+)\]", c.destty)
        v = c.dv(0)
        if m:
            ok = mk_eq(mk_len(v), const(int(m.group(1))))
            return mk_phi([(ok, Ok(v)), (neg(ok), Err(app("err")))])
        return app("try_from:" + c.destty, v)

    # ---------------------------------------------------------- Try
    @ex("core::ops::try_trait::Try::branch")
    def try_branch(c):
        v = c.v(0)
        good = "Some" if strip_ref(c.ty(0)).startswith("core::option::Option") else "Ok"
        if good == "Ok" and not strip_ref(c.ty(0)).startswith("core::result::Result"):
            if v.op == "agg" and v.a[1] in ("Some", "None"):
                good = "Some"
        return mk("cf", v, good)

    @ex("core::ops::try_trait::FromResidual::from_residual")
    def from_residual(c):
        v = c.v(0)
        if strip_ref(c.destty).startswith("core::option::Option"):
            return NONE
        x = v
        if v.op == "resid":
            e = payload(v.a[0], "Err", 0)
        elif v.op == "agg" and v.a[1] == "Err":
            e = v.a[3][0]
        else:
            e = app("err", v)
        # error conversion is not followed: errors are errors
        return Err(mk("errs", frozenset(_es(e))))

    @ex("core::ops::try_trait::Try::from_output")
    def from_output(c):
        return Some(c.v(0)) if strip_ref(c.destty).startswith("core::option") else Ok(c.v(0))

    # ---------------------------------------------------------- Option / Result
    @ex(OPT + "is_some", RES + "is_ok")
    def is_some(c):
        return cond(mk_is(c.v(0), "Some" if "option" in c.fr.m else "Ok"))

    @ex(OPT + "is_none", RES + "is_err")
    def is_none(c):
        return cond(neg(mk_is(c.v(0), "Some" if "option" in c.fr.m else "Ok")))

    @ex(OPT + "is_some_and", RES + "is_ok_and")
    def is_some_and(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        return branch(c.I, c.st, mk_is(v, good), lambda s: c.call(c.args[1], payload(v, good, 0), st=s), lambda s: FALSE_T)

    def unwrap(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        g = mk_is(v, good)
        c.panic("unwrap", neg(g), v)
        return payload(v, good, 0)

    for n in (OPT + "unwrap", OPT + "expect", RES + "unwrap", RES + "expect"):
        E[n] = unwrap

    @ex(RES + "unwrap_err", RES + "expect_err")
    def unwrap_err(c):
        v = c.v(0)
        c.panic("unwrap", mk_is(v, "Ok"), v)
        return payload(v, "Err", 0)

    @ex(OPT + "map", RES + "map")
    def o_map(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        wrap = Some if good == "Some" else Ok
        return branch(
            c.I, c.st, mk_is(v, good),
            lambda s: wrap(c.call(c.args[1], payload(v, good, 0), st=s)),
            lambda s: NONE if good == "Some" else Err(payload(v, "Err", 0)),
        )

    @ex(OPT + "and_then", RES + "and_then")
    def o_and_then(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        return branch(
            c.I, c.st, mk_is(v, good),
            lambda s: c.call(c.args[1], payload(v, good, 0), st=s),
            lambda s: NONE if good == "Some" else Err(payload(v, "Err", 0)),
        )

    @ex(RES + "map_err")
    def r_map_err(c):
        v = c.v(0)
        g = mk_is(v, "Ok")
        return mk_phi([(g, Ok(payload(v, "Ok", 0))), (neg(g), Err(mk("errs", frozenset(_es(payload(v, "Err", 0))))))])

    @ex(RES + "or_else", OPT + "or_else")
    def r_or_else(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        wrap = Some if good == "Some" else Ok
        return branch(
            c.I, c.st, mk_is(v, good),
            lambda s: wrap(payload(v, good, 0)),
            lambda s: c.call(c.args[1], *([] if good == "Some" else [payload(v, "Err", 0)]), st=s),
        )

    @ex(OPT + "or", RES + "or")
    def o_or(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v, w = c.v(0), c.v(1)
        g = mk_is(v, good)
        return mk_phi([(g, v), (neg(g), w)])

    @ex(OPT + "and", RES + "and")
    def o_and(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v, w = c.v(0), c.v(1)
        g = mk_is(v, good)
        return mk_phi([(g, w), (neg(g), NONE if good == "Some" else Err(payload(v, "Err", 0)))])

    @ex(RES + "ok")
    def r_ok(c):
        v = c.v(0)
        g = mk_is(v, "Ok")
        return mk_phi([(g, Some(payload(v, "Ok", 0))), (neg(g), NONE)])

    @ex(RES + "err")
    def r_err(c):
        v = c.v(0)
        g = mk_is(v, "Ok")
        return mk_phi([(g, NONE), (neg(g), Some(payload(v, "Err", 0)))])

    @ex(OPT + "ok_or", OPT + "ok_or_else")
    def o_ok_or(c):
        v = c.v(0)
        g = mk_is(v, "Some")
        e = app("err") if c.fr.m.endswith("else") else c.v(1)
        return mk_phi([(g, Ok(payload(v, "Some", 0))), (neg(g), Err(e))])

    @ex(OPT + "unwrap_or", RES + "unwrap_or")
    def o_unwrap_or(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        g = mk_is(v, good)
        return mk_phi([(g, payload(v, good, 0)), (neg(g), c.v(1))])

    @ex(OPT + "unwrap_or_else", RES + "unwrap_or_else")
    def o_unwrap_or_else(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        return branch(
            c.I, c.st, mk_is(v, good),
            lambda s: payload(v, good, 0),
            lambda s: c.call(c.args[1], *([] if good == "Some" else [payload(v, "Err", 0)]), st=s),
        )

    @ex(OPT + "unwrap_or_default", RES + "unwrap_or_default")
    def o_unwrap_or_default(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        g = mk_is(v, good)
        return mk_phi([(g, payload(v, good, 0)), (neg(g), default_of(c.destty))])

    @ex(OPT + "map_or", RES + "map_or")
    def o_map_or(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        return branch(c.I, c.st, mk_is(v, good), lambda s: c.call(c.args[2], payload(v, good, 0), st=s), lambda s: c.v(1))

    @ex(OPT + "map_or_else", RES + "map_or_else")
    def o_map_or_else(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        v = c.v(0)
        return branch(c.I, c.st, mk_is(v, good), lambda s: c.call(c.args[2], payload(v, good, 0), st=s), lambda s: c.call(c.args[1], *([] if good == "Some" else [payload(v, "Err", 0)]), st=s))

    @ex(OPT + "filter")
    def o_filter(c):
        v = c.v(0)
        return branch(
            c.I, c.st, mk_is(v, "Some"),
            lambda s: (lambda t: mk_phi([(t, Some(payload(v, "Some", 0))), (neg(t), NONE)]))(truth(c.call(c.args[1], payload(v, "Some", 0), st=s))),
            lambda s: NONE,
        )

    @ex(OPT + "as_ref", RES + "as_ref", OPT + "as_deref", RES + "as_deref")
    def o_as_ref(c):
        return c.v(0)

    @ex(OPT + "as_mut", RES + "as_mut", OPT + "as_deref_mut")
    def o_as_mut(c):
        good = "Some" if "option" in c.fr.m else "Ok"
        r = c.I._norm_ref(c.st, c.args[0])
        v = c.v(0)
        g = mk_is(v, good)
        if r.op != "mref":
            return v
        wrap = Some if good == "Some" else Ok
        return mk_phi([(g, wrap(ref_ext(r, ("p", good, 0)))), (neg(g), NONE if good == "Some" else v)])

    @ex(OPT + "take")
    def o_take(c):
        v = c.v(0)
        c.set(0, NONE)
        return v

    @ex(OPT + "replace", OPT + "insert")
    def o_replace(c):
        v = c.v(0)
        c.set(0, Some(c.v(1)))
        return v

    @ex(OPT + "get_or_insert", OPT + "get_or_insert_with")
    def o_goi(c):
        v = c.v(0)
        g = mk_is(v, "Some")
        n = c.v(1) if not c.fr.m.endswith("with") else c.call(c.args[1])
        c.set(0, Some(mk_phi([(g, payload(v, "Some", 0)), (neg(g), n)])))
        r = c.I._norm_ref(c.st, c.args[0])
        return ref_ext(r, ("p", "Some", 0)) if r.op == "mref" else n

    @ex(OPT + "zip")
    def o_zip(c):
        v, w = c.v(0), c.v(1)
        g = conj([mk_is(v, "Some"), mk_is(w, "Some")])
        return mk_phi([(g, Some(tup(payload(v, "Some", 0), payload(w, "Some", 0)))), (neg(g), NONE)])

    @ex(OPT + "iter", OPT + "into_iter")
    def o_iter(c):
        v = c.v(0)
        return mk("iter", (("item", payload(v, "Some", 0), mk_is(v, "Some")),))

    @ex("core::option::Option::<core::result::Result<T, E>>::transpose")
    def o_transpose(c):
        v = c.v(0)
        g = mk_is(v, "Some")
        p = payload(v, "Some", 0)
        gg = mk_is(p, "Ok")
        return mk_phi([(neg(g), Ok(NONE)), (conj([g, gg]), Ok(Some(payload(p, "Ok", 0)))), (conj([g, neg(gg)]), Err(payload(p, "Err", 0)))])

    # ---------------------------------------------------------- comparison
    @ex("core::cmp::PartialEq::eq")
    def eq(c):
        return cond(mk_eq(c.dv(0), c.dv(1)))

    @ex("core::cmp::PartialEq::ne")
    def ne(c):
        # default `ne` = !eq: follow a workspace eq
        f = find_impl2(c.I.prog, "core::cmp::PartialEq", strip_ref(c.ty(0)), "eq")
        lf = f is not None and c.M.leaf.get(_nogen(f["key"]))
        if lf:
            return cond(neg(truth(lf(c))))
        if f is not None and not f.get("derived"):
            return cond(neg(truth(c.I.run_fn(f, [c.v(0), c.v(1)], c.st, c.I.cur_line))))
        return cond(neg(mk_eq(c.dv(0), c.dv(1))))

    def is_level(c):
        return any("log::Level" in c.ty(i) for i in range(c.n))

    @ex("core::cmp::PartialOrd::lt")
    def lt(c):
        return FALSE_T if is_level(c) else cond(mk_lt(c.dv(0), c.dv(1)))

    @ex("core::cmp::PartialOrd::le")
    def le(c):
        return FALSE_T if is_level(c) else cond(mk_le(c.dv(0), c.dv(1)))

    @ex("core::cmp::PartialOrd::gt")
    def gt(c):
        return FALSE_T if is_level(c) else cond(mk_lt(c.dv(1), c.dv(0)))

    @ex("core::cmp::PartialOrd::ge")
    def ge(c):
        return FALSE_T if is_level(c) else cond(mk_le(c.dv(1), c.dv(0)))

    @ex("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
    def cmp(c):
        a, b = c.dv(0), c.dv(1)
        l, g = mk_lt(a, b), mk_lt(b, a)
        O = "core::cmp::Ordering"
        v = mk_phi([(l, agg(O, "Less", (), ())), (conj([neg(l), g]), agg(O, "Greater", (), ())), (conj([neg(l), neg(g)]), agg(O, "Equal", (), ()))])
        return Some(v) if c.fr.m.endswith("partial_cmp") else v

    @ex("core::cmp::max", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::Ord::min")
    def maxmin(c):
        a, b = c.dv(0), c.dv(1)
        if a.op == "int" and b.op == "int":
            return const(max(a.a[0], b.a[0]) if c.fr.m.endswith("max") else min(a.a[0], b.a[0]))
        x, y = (a, b) if a.id < b.id else (b, a)
        return app(c.fr.m.split("::")[-1], x, y)

    @ex("subtle::ConstantTimeEq::ct_eq")
    def ct_eq(c):
        return cond(mk_eq(c.dv(0), c.dv(1)))

    @ex("subtle::Choice::unwrap_u8")
    def unwrap_u8(c):
        f = truth(c.dv(0))
        return mk_phi([(f, ONE), (neg(f), ZERO)])

    # ---------------------------------------------------------- default / mem
    @ex("core::default::Default::default")
    def default(c):
        return default_of(c.destty, c)

    @ex("core::mem::replace")
    def replace(c):
        v = c.v(0)
        c.set(0, c.args[1])
        return v

    @ex("core::mem::take")
    def take(c):
        v = c.v(0)
        c.set(0, default_of(strip_ref(c.ty(0)), c))
        return v

    @ex("core::mem::swap")
    def swap(c):
        a, b = c.v(0), c.v(1)
        c.set(0, b)
        c.set(1, a)
        return UNIT

    @ex("core::mem::forget", "core::mem::drop", "core::ops::drop::Drop::drop", "zeroize::Zeroize::zeroize", "core::sync::atomic::compiler_fence")
    def nop(c):
        if c.fr.m == "zeroize::Zeroize::zeroize" and c.args[0].op == "mref":
            c.I.event("zeroize", c.st, c.dv(0))
            c.set(0, app("zeroized"))
        return UNIT

    @ex("alloc::boxed::Box::<T>::from_raw")
    def from_raw(c):
        v = c.v(0)
        c.I.event("from_raw", c.st, (v, c.destty))
        return c.M.rawderef(v)

    @ex("core::ptr::const_ptr::<impl *const T>::is_null", "core::ptr::mut_ptr::<impl *mut T>::is_null")
    def is_null(c):
        return cond(mk_eq(c.v(0), mk("named", "null")))

    @ex("core::ptr::null", "core::ptr::null_mut")
    def null(c):
        return mk("named", "null")

    @ex("core::slice::raw::from_raw_parts")
    def from_raw_parts(c):
        c.I.event("rawparts", c.st, (c.v(0), c.v(1), c.destty))
        return mk("rawslice", c.v(0), c.v(1))

    # ---------------------------------------------------------- function values
    @ex("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
    def fncall(c):
        f = c.args[0]
        fv = c.I.deref_all(c.st, c.I.read_ref(c.st, f))
        a = c.v(1)
        xs = list(a.a) if a.op == "tuple" else [a]
        if fv.op == "closure" and f.op == "mref":
            body = c.I.prog.fn(fv.a[0])
            if body is not None:
                envty = body["_types"][body["locals"][1]]
                return c.I.run_fn(body, [c.I._norm_ref(c.st, f) if envty.startswith("&") else fv] + xs, c.st, c.I.cur_line)
        return c.I.call_any(c.st, fv, xs)

    # ---------------------------------------------------------- Vec
    VEC = "alloc::vec::Vec::<T, A>::"

    @ex("alloc::vec::Vec::<T>::new", "alloc::string::String::new", "alloc::vec::Vec::<T>::new_in")
    def vnew(c):
        return EMPTY

    @ex("alloc::vec::Vec::<T>::with_capacity", "alloc::string::String::with_capacity", "amcl_wrapper::field_elem::FieldElementVector::with_capacity", "amcl_wrapper::group_elem::GroupElementVector::with_capacity")
    def vwc(c):
        c.I.event("alloc", c.st, c.dv(0))
        return EMPTY

    @ex("alloc::vec::from_elem")
    def from_elem(c):
        c.I.event("alloc", c.st, c.dv(1))
        return mk("repeat", c.dv(0), c.dv(1))

    @ex(VEC + "push", "alloc::string::String::push", "amcl_wrapper::field_elem::FieldElementVector::push", "amcl_wrapper::group_elem::GroupElementVector::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
    def push(c):
        v = c.v(0)
        c.set(0, seq([("all", v), ("item", c.dv(1) if c.args[1].op != "mref" else c.args[1])]))
        return UNIT

    @ex(VEC + "extend_from_slice", "alloc::string::String::push_str", "core::iter::traits::collect::Extend::extend", VEC + "append", "amcl_wrapper::field_elem::FieldElementVector::append", "amcl_wrapper::group_elem::GroupElementVector::append", "core::io::write::Write::write_all")
    def extend(c):
        v = c.v(0)
        if is_map_ty(c.ty(0)) or is_set_ty(c.ty(0)) or (c.fr.self_ and (is_map_ty(c.fr.self_) or is_set_ty(c.fr.self_))):
            ty = c.ty(0)
            kind = "map" if is_map_ty(ty) or is_map_ty(c.fr.self_ or "") else "set"
            itr = c.M.to_iter(c, 1)
            if itr.op != "iter":
                c.set(0, app("extend", v, itr))
            else:
                m = c.M.collect_map(_dp(c.I, c.st, itr.a[0]), kind)
                ents = m.a[1] if m.op == "mapb" and m.a[0] is None else (("all", m),)
                c.set(0, mapb(None if (v.op == "seq" and not v.a[0]) else v, ents, kind))
            return UNIT
        if c.fr.m.endswith("Extend::extend"):
            itr = c.M.to_iter(c, 1)
            w = c.M.collect_seq(_dp(c.I, c.st, itr.a[0])) if itr.op == "iter" else itr
        else:
            w = c.dv(1)
        c.set(0, seq([("all", v), ("all", w)]))
        if c.fr.m.endswith("::append"):
            c.set(1, EMPTY)
        return Ok(UNIT) if c.destty.startswith("core::result") else UNIT

    @ex(VEC + "len", "core::slice::<impl [T]>::len", "alloc::string::String::len", "core::str::<impl str>::len", "std::collections::hash::map::HashMap::<K, V, S, A>::len", "std::collections::hash::map::HashMap::<K, V, S>::len", "alloc::collections::btree::map::BTreeMap::<K, V, A>::len", "std::collections::hash::set::HashSet::<T, S, A>::len", "std::collections::hash::set::HashSet::<T, S>::len", "alloc::collections::btree::set::BTreeSet::<T, A>::len", "amcl_wrapper::field_elem::FieldElementVector::len", "amcl_wrapper::group_elem::GroupElementVector::len", "core::iter::traits::exact_size::ExactSizeIterator::len")
    def vlen(c):
        v = c.v(0)
        if v.op == "iter":
            v = c.M.collect_seq(v.a[0])
        return mk_len(v)

    @ex(VEC + "is_empty", "core::slice::<impl [T]>::is_empty", "alloc::string::String::is_empty", "core::str::<impl str>::is_empty", "std::collections::hash::map::HashMap::<K, V, S, A>::is_empty", "std::collections::hash::map::HashMap::<K, V, S>::is_empty", "alloc::collections::btree::map::BTreeMap::<K, V, A>::is_empty", "std::collections::hash::set::HashSet::<T, S, A>::is_empty", "std::collections::hash::set::HashSet::<T, S>::is_empty", "alloc::collections::btree::set::BTreeSet::<T, A>::is_empty")
    def visempty(c):
        return cond(mk_eq0(mk_len(c.v(0))))

    @ex(VEC + "clear", "std::collections::hash::map::HashMap::<K, V, S, A>::clear")
    def vclear(c):
        c.set(0, EMPTY)
        return UNIT

    @ex(VEC + "truncate")
    def vtrunc(c):
        v = c.v(0)
        c.set(0, c.M.mk_slice(v, ZERO, app("min", mk_len(v), c.v(1)) if not (c.v(1) is mk_len(v)) else mk_len(v)))
        return UNIT

    @ex(VEC + "resize")
    def vresize(c):
        v, n, x = c.v(0), c.v(1), c.v(2)
        c.I.event("alloc", c.st, n)
        ln = mk_len(v)
        if ln.op == "int" and ln.a[0] == 0:
            c.set(0, mk("repeat", x, n))
        else:
            d = p_sub(n, ln)
            c.set(0, seq([("all", v), ("all", mk("repeat", x, d))]))
        return UNIT

    @ex(VEC + "pop")
    def vpop(c):
        v = c.v(0)
        if v.op == "seq" and v.a[0] and v.a[0][-1][0] == "item":
            c.set(0, seq(v.a[0][:-1]))
            return Some(v.a[0][-1][1])
        n = mk_len(v)
        g = neg(mk_eq0(n))
        c.set(0, c.M.mk_slice_raw(v, ZERO, p_sub(n, ONE)))
        return mk("opt", g, mk_at(v, p_sub(n, ONE)))

    @ex(VEC + "insert")
    def vinsert(c):
        v, i, x = c.v(0), c.v(1), c.dv(2)
        c.panic("index", mk_lt(mk_len(v), i), v, i)
        if i.op == "int" and i.a[0] == 0:
            c.set(0, seq([("item", x), ("all", v)]))
        else:
            c.set(0, mk("insertat", v, i, x))
        return UNIT

    @ex(VEC + "remove", VEC + "swap_remove")
    def vremove(c):
        v, i = c.v(0), c.v(1)
        c.panic("index", mk_le(mk_len(v), i), v, i)
        if v.op == "seq" and i.op == "int" and len(v.a[0]) > i.a[0] and all(s[0] == "item" for s in v.a[0][: i.a[0] + 1]):
            x = v.a[0][i.a[0]][1]
            c.set(0, seq(v.a[0][: i.a[0]] + v.a[0][i.a[0] + 1 :]))
            return x
        if i.op == "int" and i.a[0] == 0:
            c.set(0, c.M.mk_slice_raw(v, ONE, mk_len(v)))
        else:
            c.set(0, mk("removeat", v, i))
        return mk_at(v, i)

    @ex(VEC + "drain", "alloc::string::String::drain")
    def vdrain(c):
        v, r = c.v(0), c.v(1)
        lo, hi = range_bounds(r, mk_len(v))
        s = c.M.mk_slice(v, lo, hi)
        c.set(0, seq([("all", c.M.mk_slice(v, ZERO, lo)), ("all", c.M.mk_slice(v, hi, None))]) if not (hi is mk_len(v)) else c.M.mk_slice(v, ZERO, lo))
        return c.M.coll_iter(c.I, s, "seq")

    @ex(VEC + "split_off")
    def vsplitoff(c):
        v, i = c.v(0), c.v(1)
        c.panic("index", mk_lt(mk_len(v), i), v, i)
        c.set(0, c.M.mk_slice(v, ZERO, i))
        return c.M.mk_slice(v, i, None)

    SL = "core::slice::<impl [T]>::"

    @ex(SL + "iter", "amcl_wrapper::field_elem::FieldElementVector::iter", "amcl_wrapper::group_elem::GroupElementVector::iter", "rayon::iter::IntoParallelRefIterator::par_iter", "core::iter::traits::collect::IntoIterator::into_iter", "rayon::iter::IntoParallelIterator::into_par_iter", "std::collections::hash::map::HashMap::<K, V, S, A>::iter", "std::collections::hash::map::HashMap::<K, V, S>::iter", "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter", "std::collections::hash::set::HashSet::<T, S, A>::iter", "std::collections::hash::set::HashSet::<T, S>::iter", "alloc::collections::btree::set::BTreeSet::<T, A>::iter", "alloc::vec::Vec::<T, A>::iter")
    def into_iter(c):
        a = c.args[0]
        v = c.v(0)
        if v.op in ("iter", "oneshot", "exhausted"):
            return a if a.op == "mref" and c.ty(0).startswith("&mut") else v
        ty = c.ty(0)
        if c.fr.m.endswith("::iter") and ty.startswith("&mut"):
            ty = "&" + ty[5:]
        if c.fr.m.startswith("std::collections::hash::map") or c.fr.m.startswith("alloc::collections::btree::map"):
            if not is_map_ty(ty):
                ty = "std::collections::hash::map::HashMap<"
        elif c.fr.m.startswith("std::collections::hash::set") or c.fr.m.startswith("alloc::collections::btree::set"):
            if not is_set_ty(ty):
                ty = "std::collections::hash::set::HashSet<"
        return c.M.into_iter(c.I, c.st, v, ty, a if a.op == "mref" and ty.startswith("&mut") else None)

    @ex(SL + "iter_mut", "std::collections::hash::map::HashMap::<K, V, S, A>::iter_mut", "std::collections::hash::map::HashMap::<K, V, S>::iter_mut", "std::collections::hash::map::HashMap::<K, V, S, A>::values_mut", "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter_mut", "alloc::collections::btree::map::BTreeMap::<K, V, A>::values_mut", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut")
    def iter_mut(c):
        r = c.I._norm_ref(c.st, c.args[0])
        ty = c.ty(0)
        if "map::" in c.fr.m and not is_map_ty(ty):
            ty = "std::collections::hash::map::HashMap<"
        return c.M.iter_mut(c.I, c.st, r, c.v(0), ty, c.fr.m.endswith("values_mut"))

    @ex(SL + "get", "core::slice::<impl [T]>::get::<I>")
    def sl_get(c):
        v, i = c.v(0), c.v(1)
        if i.op == "agg":
            lo, hi = range_bounds(i, mk_len(v))
            g = conj([mk_le(lo, hi), mk_le(hi, mk_len(v))])
            return mk("opt", g, c.M.mk_slice(v, lo, hi)) if g.k != "true" else Some(c.M.mk_slice(v, lo, hi))
        return opt(in_bounds(v, i), mk_at(v, i))

    @ex(SL + "get_mut")
    def sl_get_mut(c):
        v, i = c.v(0), c.v(1)
        r = c.I._norm_ref(c.st, c.args[0])
        return opt(in_bounds(v, i), ref_ext(r, ("i", i)) if r.op == "mref" else mk_at(v, i))

    @ex(SL + "first", SL + "last")
    def sl_first(c):
        v = c.v(0)
        n = mk_len(v)
        i = ZERO if c.fr.m.endswith("first") else p_sub(n, ONE)
        if v.op == "seq" and v.a[0] and v.a[0][-1 if i is not ZERO else 0][0] == "item":
            return Some(v.a[0][-1 if i is not ZERO else 0][1])
        return opt(neg(mk_eq0(n)), mk_at(v, i))

    @ex(SL + "contains", VEC + "contains")
    def sl_contains(c):
        return cond(mk_has(c.v(0), c.dv(1)))

    @ex(SL + "split_at", "amcl_wrapper::field_elem::FieldElementVector::split_at", "amcl_wrapper::group_elem_g1::G1Vector::split_at", "core::str::<impl str>::split_at")
    def split_at(c):
        v, i = c.v(0), c.v(1)
        c.panic("slice", mk_lt(mk_len(v), i), v, i)
        return tup(c.M.mk_slice(v, ZERO, i), c.M.mk_slice(v, i, None))

    @ex(SL + "split_at_mut")
    def split_at_mut(c):
        v, i = c.v(0), c.v(1)
        r = c.I._norm_ref(c.st, c.args[0])
        return tup(ref_ext(r, ("sl", ZERO, i)), ref_ext(r, ("sl", i, mk_len(v))))

    @ex("alloc::slice::<impl [T]>::concat")
    def sl_concat(c):
        v = c.v(0)
        if v.op == "array":
            return seq([("all", x) for x in v.a])
        if v.op == "seq" and all(s[0] == "item" for s in v.a[0]):
            return seq([("all", s[1]) for s in v.a[0]])
        return app("concat", v)

    @ex(SL + "reverse")
    def sl_rev(c):
        it_ = c.M.rev(c.I, c.M.coll_iter(c.I, c.v(0), "seq"))
        c.set(0, c.M.collect_seq(it_.a[0]) if it_.op == "iter" else it_)
        return UNIT

    @ex(SL + "copy_from_slice", SL + "clone_from_slice", "core::clone::Clone::clone_from")
    def sl_copy(c):
        v, w = c.v(0), c.dv(1)
        if not c.fr.m.endswith("clone_from"):
            c.panic("copylen", neg(mk_eq(mk_len(v), mk_len(w))), v, w)
        c.set(0, w)
        return UNIT

    @ex(SL + "fill")
    def sl_fill(c):
        v = c.v(0)
        c.set(0, mk("repeat", c.v(1), mk_len(v)))
        return UNIT

    @ex(SL + "swap")
    def sl_swap(c):
        v, i, j = c.v(0), c.v(1), c.v(2)
        c.set(0, set_at(set_at(v, i, mk_at(v, j)), j, mk_at(v, i)))
        return UNIT

    @ex(SL + "starts_with", SL + "ends_with")
    def sl_sw(c):
        return app(c.fr.m.split("::")[-1], c.v(0), c.v(1))

    @ex(SL + "chunks", SL + "windows", SL + "chunks_exact")
    def sl_chunks(c):
        return c.M._opaque_iter(c.I, app(c.fr.m.split("::")[-1], c.v(0), c.v(1)))

    # ---------------------------------------------------------- Index
    @ex("core::ops::index::Index::index")
    def index(c):
        v, i = c.v(0), c.v(1)
        if is_map_ty(c.ty(0)) or is_map_ty(c.fr.self_ or ""):
            c.panic("mapindex", neg(mk_has(v, i)), v, i)
            return mk_get(v, i)
        if i.op == "agg" and "::range::" in i.a[0]:
            n = mk_len(v)
            lo, hi = range_bounds(i, n)
            c.panic("slice", disj([mk_lt(n, hi), mk_lt(hi, lo)]) if not (hi is n) else mk_lt(n, lo), v, lo, hi)
            return c.M.mk_slice(v, lo, hi)
        c.panic("index", neg(in_bounds(v, i)), v, i)
        return mk_at(v, i)

    @ex("core::ops::index::IndexMut::index_mut")
    def index_mut(c):
        v, i = c.v(0), c.v(1)
        r = c.I._norm_ref(c.st, c.args[0])
        if r.op != "mref":
            return mk_at(v, i)
        if is_map_ty(c.ty(0)) or is_map_ty(c.fr.self_ or ""):
            return ref_ext(r, ("get", i))
        if i.op == "agg" and "::range::" in i.a[0]:
            n = mk_len(v)
            lo, hi = range_bounds(i, n)
            c.panic("slice", disj([mk_lt(n, hi), mk_lt(hi, lo)]) if not (hi is n) else mk_lt(n, lo), v, lo, hi)
            return ref_ext(r, ("sl", lo, hi))
        c.panic("index", neg(in_bounds(v, i)), v, i)
        return ref_ext(r, ("i", i))

    # ---------------------------------------------------------- maps / sets
    def both(prefixes, names, f):
        for p in prefixes:
            for n in names:
                E[p + n] = f

    MAPS = ["std::collections::hash::map::HashMap::<K, V, S, A>::", "std::collections::hash::map::HashMap::<K, V, S>::", "alloc::collections::btree::map::BTreeMap::<K, V, A>::", "serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::", "alloc::collections::btree::map::BTreeMap::<K, V>::", "std::collections::hash::map::HashMap::<K, V>::", "std::collections::hash::map::HashMap::<K, V, std::hash::random::RandomState>::"]
    SETS = ["std::collections::hash::set::HashSet::<T, S, A>::", "std::collections::hash::set::HashSet::<T, S>::", "alloc::collections::btree::set::BTreeSet::<T, A>::", "alloc::collections::btree::set::BTreeSet::<T>::", "std::collections::hash::set::HashSet::<T>::", "std::collections::hash::set::HashSet::<T, std::hash::random::RandomState>::"]
    both(MAPS, ["new", "with_capacity", "with_hasher", "with_capacity_and_hasher"], lambda c: mapb(None, (), "map"))
    both(SETS, ["new", "with_capacity", "with_hasher"], lambda c: mapb(None, (), "set"))

    def m_insert(c):
        v, k, x = c.v(0), c.dv(1), c.dv(2)
        c.I.event("mapinsert", c.st, (v, k, x))
        g = mk_has(v, k)
        old = mk_get(v, k)
        c.set(0, mapb(v, [("item", k, x)], "map") if not (v.op == "seq" and not v.a[0]) else mapb(None, [("item", k, x)], "map"))
        return opt(g, old)

    both(MAPS, ["insert"], m_insert)

    def s_insert(c):
        v, k = c.v(0), c.dv(1)
        g = mk_has(v, k)
        c.set(0, mapb(v, [("item", k, UNIT)], "set"))
        return cond(neg(g))

    both(SETS, ["insert"], s_insert)
    both(MAPS, ["get"], lambda c: opt(mk_has(c.v(0), c.dv(1)), mk_get(c.v(0), c.dv(1))))
    both(SETS, ["get"], lambda c: opt(mk_has(c.v(0), c.dv(1)), c.dv(1)))

    def m_get_mut(c):
        v, k = c.v(0), c.dv(1)
        r = c.I._norm_ref(c.st, c.args[0])
        return opt(mk_has(v, k), ref_ext(r, ("get", k)) if r.op == "mref" else mk_get(v, k))

    both(MAPS, ["get_mut"], m_get_mut)
    both(MAPS, ["contains_key"], lambda c: cond(mk_has(c.v(0), c.dv(1))))
    both(SETS, ["contains"], lambda c: cond(mk_has(c.v(0), c.dv(1))))

    def m_remove(c):
        v, k = c.v(0), c.dv(1)
        g = mk_has(v, k)
        x = mk_get(v, k)
        c.set(0, mapb(v, [("del", k)], v.a[2] if v.op == "mapb" else ("set" if is_set_ty(c.ty(0)) else "map")))
        if c.destty == "bool":
            return cond(g)
        return opt(g, x)

    both(MAPS + SETS, ["remove", "take"], m_remove)

    def m_keys(c):
        v = c.v(0)
        it_ = c.M.coll_iter(c.I, v, "map")
        if it_.op != "iter":
            return app("keys", v)
        return mk("iter", tuple(("each", p[1], field(p[2], "0"), p[3]) if p[0] == "each" else ("item", field(p[1], "0"), p[2]) for p in it_.a[0]))

    both(MAPS, ["keys", "into_keys"], m_keys)

    def m_values(c):
        v = c.v(0)
        it_ = c.M.coll_iter(c.I, v, "map")
        if it_.op != "iter":
            return app("values", v)
        return mk("iter", tuple(("each", p[1], field(p[2], "1"), p[3]) if p[0] == "each" else ("item", field(p[1], "1"), p[2]) for p in it_.a[0]))

    both(MAPS, ["values", "into_values"], m_values)

    def s_difference(c):
        a = c.M.coll_iter(c.I, c.v(0), "set")
        b = c.v(1)
        return c.M.filter_parts(c.I, c.st, a, lambda s, e: cond(neg(mk_has(b, e))))

    both(SETS, ["difference"], s_difference)

    def s_intersection(c):
        a = c.M.coll_iter(c.I, c.v(0), "set")
        b = c.v(1)
        return c.M.filter_parts(c.I, c.st, a, lambda s, e: cond(mk_has(b, e)))

    both(SETS, ["intersection"], s_intersection)

    def s_union(c):
        x = c.v(0)
        a = c.M.coll_iter(c.I, x, "set")
        b = c.M.filter_parts(c.I, c.st, c.M.coll_iter(c.I, c.v(1), "set"), lambda s, e: cond(neg(mk_has(x, e))))
        if a.op == "iter" and b.op == "iter":
            return mk("iter", a.a[0] + b.a[0])
        return app("union", a, b)

    both(SETS, ["union"], s_union)

    def s_subset(c):
        x, y = (c.v(0), c.v(1)) if c.fr.m.endswith("is_subset") else (c.v(1), c.v(0))
        a = c.M.coll_iter(c.I, x, "set")
        fs = []
        for p in a.a[0]:
            e = p[2] if p[0] == "each" else p[1]
            f = disj([neg(p[-1]), mk_has(y, e)])
            fs.append(_all_b(p[1], f) if p[0] == "each" else f)
        return cond(conj(fs))

    both(SETS, ["is_subset", "is_superset"], s_subset)

    def s_disjoint(c):
        x, y = c.v(0), c.v(1)
        a = c.M.coll_iter(c.I, x, "set")
        fs = []
        for p in a.a[0]:
            e = p[2] if p[0] == "each" else p[1]
            f = disj([neg(p[-1]), neg(mk_has(y, e))])
            fs.append(_all_b(p[1], f) if p[0] == "each" else f)
        return cond(conj(fs))

    both(SETS, ["is_disjoint"], s_disjoint)

    def m_entry(c):
        r = c.I._norm_ref(c.st, c.args[0])
        k, v = c.dv(1), c.v(0)
        g = mk_has(v, k)
        en = "alloc::collections::btree::map::entry::Entry" if "btree" in c.fr.m else "std::collections::hash::map::Entry"
        e = mk("entry", r, k, v)
        return mk_phi([(g, agg(en, "Occupied", ("0",), (e,))), (neg(g), agg(en, "Vacant", ("0",), (e,)))])

    both(MAPS, ["entry"], m_entry)

    def _entry(v):
        """the (map reference, key, map) an entry stands for"""
        for _, x in alts(v):
            if x.op == "agg" and x.a[1] in ("Occupied", "Vacant"):
                x = x.a[3][0]
            if x.op == "entry":
                return x
        return None

    def entry_or(c):
        e = _entry(c.v(0))
        if e is None:
            return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)
        r, k, v = e.a
        g = mk_has(v, k)
        n = c.fr.m.split("::")[-1]
        if n == "or_insert":
            d = c.dv(1)
        elif n == "or_default":
            d = default_of(strip_ref(c.destty), c)
        else:
            d = branch(c.I, c.st, neg(g), lambda s: c.I.call_any(s, c.args[1], []), lambda s: mk("undef"))
        x = mk_phi([(g, mk_get(v, k)), (neg(g), d)])
        if r.op == "mref":
            if g.k != "true":
                c.I.write_ref(c.st, r, mapb(v, [("item", k, x)]))
            return ref_ext(r, ("get", k))
        return x

    def entry_and_modify(c):
        e = _entry(c.v(0))
        if e is None:
            return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)
        r, k, v = e.a
        g = mk_has(v, k)
        branch(c.I, c.st, g, lambda s: c.I.call_any(s, c.args[1], [ref_ext(r, ("get", k))]), lambda s: UNIT)
        nv = c.I._cur(c.st, r) if r.op == "mref" else v
        en = "alloc::collections::btree::map::entry::Entry" if "btree" in c.fr.m else "std::collections::hash::map::Entry"
        e = mk("entry", r, k, nv)
        return mk_phi([(g, agg(en, "Occupied", ("0",), (e,))), (neg(g), agg(en, "Vacant", ("0",), (e,)))])

    def occ(c):
        e = _entry(c.v(0))
        if e is None:
            return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)
        r, k, v = e.a
        n = c.fr.m.split("::")[-1]
        el = ref_ext(r, ("get", k))
        if n in ("get_mut", "into_mut"):
            return el
        if n == "get":
            return c.I._cur(c.st, el) if el.op == "mref" else el
        if n == "key":
            return k
        if n == "insert":
            x = c.dv(1)
            old = mk_get(v, k)
            if r.op == "mref":
                c.I.write_ref(c.st, r, mapb(c.I._cur(c.st, r), [("item", k, x)]))
            return el if "Vacant" in c.fr.m else old
        return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)

    for base in ("std::collections::hash::map::", "alloc::collections::btree::map::entry::"):
        for gen in ("<'a, K, V, A>::", "<'a, K, V>::"):
            for n in ("or_insert", "or_insert_with", "or_default"):
                E[base + "Entry::" + gen + n] = entry_or
            E[base + "Entry::" + gen + "and_modify"] = entry_and_modify
            for n in ("get", "get_mut", "into_mut", "insert", "key"):
                E[base + "OccupiedEntry::" + gen + n] = occ
                E[base + "VacantEntry::" + gen + n] = occ

    # lazy_static: the value is what the initialiser returns
    def lazy_get(c):
        k = ("lazy", c.args[1])
        r = c.I.memo.get(k)
        if r is None:
            st = c.st.fork()
            n = len(c.I.events)
            r = c.I.deep(st, c.I.call_any(st, c.args[1], []))
            del c.I.events[n:]
            c.I.memo[k] = r
        return r

    E["lazy_static::lazy::Lazy::<T>::get"] = lazy_get
    # the vec![..] lowering
    def new_uninit(c):
        c.I.fid += 1
        k = ("heap", c.I.fid)
        inner = agg("core::mem::manually_drop::ManuallyDrop", "", ("value",), (mk("undef"),))
        c.st.set_out(k, agg("core::mem::maybe_uninit::MaybeUninit", "", ("value",), (inner,)))
        return mref(k)

    def uninit_read(c):
        v = c.I.read_ref(c.st, c.args[0]) if c.args[0].op == "mref" else c.args[0]
        v = field(field(c.I.deep(c.st, v), "value"), "value")
        return seq([("all", v)]) if "vec" in c.fr.m else v

    E["alloc::boxed::Box::<T>::new_uninit"] = new_uninit
    E["alloc::boxed::box_assume_init_into_vec_unsafe"] = uninit_read
    E["alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init"] = uninit_read

    # ---------------------------------------------------------- iterator adaptors
    IT = "core::iter::traits::iterator::Iterator::"
    RAY = "rayon::iter::ParallelIterator::"
    RAYI = "rayon::iter::IndexedParallelIterator::"

    @ex(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
    def it_next(c):
        r = c.I._norm_ref(c.st, c.args[0])
        v = c.v(0)
        if v.op == "oneshot":
            c.set(0, mk("consumed"))
            return Some(v.a[0])
        if v.op == "exhausted" or v.op == "consumed":
            return NONE
        v = c.M.into_iter(c.I, c.st, v, c.ty(0))
        if v.op == "iter":
            if c.fr.m.endswith("next_back"):
                v = c.M.rev(c.I, v)
            if v.op == "iter":
                ps = v.a[0]
                if not ps:
                    return NONE
                if ps[0][0] == "item":
                    p = ps[0]
                    rest = mk("iter", ps[1:])
                    if p[2].k == "true":
                        c.set(0, rest)
                        return Some(p[1])
                elif ps[0][0] == "from":
                    c.set(0, mk("iter", (("from", p_add(ps[0][1], ONE)),)))
                    return Some(ps[0][1])
                elif ps[0][0] == "each" and ps[0][3].k == "true" and not c.fr.m.endswith("next_back"):
                    x = ps[0]
                    n = mk_domlen(x[1].a[0])
                    c.set(0, c.M.sub_iter(c.I, v, ONE, None))
                    return opt(neg(mk_eq0(n)), c.M.at_iter(x, ZERO))
        dvv = c.I.deep(c.st, v)
        c.set(0, app("advanced", dvv))
        return app("next", dvv)

    @ex(IT + "map", RAY + "map")
    def it_map(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        return c.M.map_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]))

    @ex(IT + "filter", RAY + "filter")
    def it_filter(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        return c.M.filter_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]))

    @ex(IT + "filter_map")
    def it_filter_map(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        return c.M.filter_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]), "filter_map")

    @ex(IT + "flat_map", IT + "flatten")
    def it_flat(c):
        a = c.M.to_iter(c, 0)
        if c.fr.m.endswith("flat_map"):
            f = c.args[1]
            a = c.M.map_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]))
        if a.op == "iter" and all(p[0] == "item" for p in a.a[0]):
            parts = []
            for p in a.a[0]:
                x = c.M.into_iter(c.I, c.st, p[1], "")
                if x.op != "iter":
                    break
                parts.extend(x.a[0])
            else:
                return mk("iter", tuple(parts))
        if a.op == "iter":
            s = c.M.collect_seq(_dp(c.I, c.st, tuple(("each", p[1], mk("concat", _unit(p[2])), p[3]) if p[0] == "each" else p for p in a.a[0])))
            return c.M._opaque_iter(c.I, s)
        return app("flat", a)

    @ex(IT + "zip", RAYI + "zip")
    def it_zip(c):
        a = c.M.to_iter(c, 0)
        b = c.M.to_iter(c, 1)
        return c.M.zip(c.I, c.st, a, b)

    @ex("core::iter::adapters::zip::zip")
    def it_zip2(c):
        return c.M.zip(c.I, c.st, c.M.to_iter(c, 0), c.M.to_iter(c, 1))

    @ex(IT + "chain", RAY + "chain")
    def it_chain(c):
        a, b = c.M.to_iter(c, 0), c.M.to_iter(c, 1)
        if a.op == "iter" and b.op == "iter":
            return mk("iter", a.a[0] + b.a[0])
        return app("chain", a, b)

    @ex(IT + "enumerate", RAYI + "enumerate")
    def it_enum(c):
        return c.M.enumerate(c.I, c.M.to_iter(c, 0))

    @ex(IT + "skip", RAYI + "skip")
    def it_skip(c):
        return c.M.sub_iter(c.I, c.M.to_iter(c, 0), c.v(1), None)

    @ex(IT + "take", RAYI + "take")
    def it_take(c):
        return c.M.sub_iter(c.I, c.M.to_iter(c, 0), ZERO, c.v(1))

    @ex(IT + "rev", RAYI + "rev")
    def it_rev(c):
        return c.M.rev(c.I, c.M.to_iter(c, 0))

    @ex(IT + "step_by")
    def it_step(c):
        a = c.M.to_iter(c, 0)
        k = c.v(1)
        x = c.M.it_single(a)
        if a.op == "iter" and all(p[0] == "item" for p in a.a[0]) and k.op == "int":
            return mk("iter", a.a[0][:: k.a[0]])
        s = app("step_by", c.M.collect_seq(_dp(c.I, c.st, a.a[0])) if a.op == "iter" else a, k)
        return c.M._opaque_iter(c.I, s)

    @ex("core::iter::sources::repeat::repeat")
    def it_repeat(c):
        return mk("iter", (("repeat", c.dv(0)),))

    @ex("core::iter::sources::once::once")
    def it_once(c):
        return mk("iter", (("item", c.dv(0), TRUE),))

    @ex("core::iter::sources::empty::empty")
    def it_empty(c):
        return mk("iter", ())

    @ex(IT + "collect", RAY + "collect", "core::iter::traits::collect::FromIterator::from_iter")
    def it_collect(c):
        return c.M.collect(c.I, c.st, c.M.to_iter(c, 0), c.destty)

    @ex(IT + "any", IT + "all")
    def it_any(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        m = c.M.map_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]))
        if m.op != "iter":
            return app(c.fr.m.split("::")[-1], m)
        anyq = c.fr.m.endswith("any")
        fs = []
        for p in m.a[0]:
            g = truth(p[2] if p[0] == "each" else p[1])
            if anyq:
                g = conj([p[-1], g])
                fs.append(_ex_b(p[1], g) if p[0] == "each" else g)
            else:
                g = disj([neg(p[-1]), g])
                fs.append(_all_b(p[1], g) if p[0] == "each" else g)
        return cond(disj(fs) if anyq else conj(fs))

    @ex(IT + "count")
    def it_count(c):
        a = c.M.to_iter(c, 0)
        if a.op == "iter":
            return mk_len(c.M.collect_seq(_dp(c.I, c.st, a.a[0])))
        return app("count", a)

    def run_fold(c, a, init, step):
        I, st = c.I, c.st
        I.fid += 1
        acc = ("acc", I.fid)
        st.set_out(acc, init)

        def body(s2, item):
            cur = I.loc_get(s2, acc)
            x = step(s2, cur, item)
            I.write_ref(s2, mref(acc), x)

        I.loop_model(st, a.a[0], body)
        return I.loc_get(st, acc)

    @ex(IT + "fold")
    def it_fold(c):
        a = c.M.to_iter(c, 0)
        if a.op != "iter":
            return app("fold", a, c.dv(1))
        f = c.args[2]
        return run_fold(c, a, c.dv(1), lambda s, acc, x: c.I.call_any(s, f, [acc, x]))

    @ex(RAY + "reduce")
    def ray_reduce(c):
        a = c.M.to_iter(c, 0)
        if a.op != "iter":
            return app("reduce", a)
        init = c.I.call_any(c.st, c.args[1], [])
        f = c.args[2]
        return run_fold(c, a, init, lambda s, acc, x: c.I.call_any(s, f, [acc, x]))

    @ex(IT + "sum", IT + "product")
    def it_sum(c):
        a = c.M.to_iter(c, 0)
        if a.op != "iter":
            return app("sum", a)
        if c.fr.m.endswith("sum"):
            return run_fold(c, a, ZERO, lambda s, acc, x: p_add(acc, x))
        return run_fold(c, a, ONE, lambda s, acc, x: p_mul(acc, x))

    @ex(IT + "for_each", RAY + "for_each")
    def it_for_each(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        if a.op != "iter":
            return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)
        c.I.loop_model(c.st, a.a[0], lambda s, x: c.I.call_any(s, f, [x]) and None)
        return UNIT

    @ex(IT + "try_for_each")
    def it_try_for_each(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        if a.op != "iter":
            return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)
        m = c.M.map_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]))
        r = c.M.collect(c.I, c.st, m, c.destty)
        g = mk_is(r, "Ok")
        return mk_phi([(g, Ok(UNIT)), (neg(g), Err(payload(r, "Err", 0)))])

    @ex(IT + "try_fold")
    def it_try_fold(c):
        a = c.M.to_iter(c, 0)
        f = c.args[2]
        if a.op != "iter":
            return c.M.opaque(c.I, c.st, c.fr.m, c.args, c.argtys, c.destty)
        good = "Ok" if strip_ref(c.destty).startswith("core::result") else "Some"
        I, st = c.I, c.st
        I.fid += 1
        acc, flag = ("acc", I.fid), ("flag", I.fid)
        st.set_out(acc, c.dv(1))
        st.set_out(flag, TRUE_T)

        def body(s2, item):
            cur = I.loc_get(s2, acc)
            r = I.call_any(s2, f, [cur, item])
            g = mk_is(r, good)
            I.write_ref(s2, mref(acc), payload(r, good, 0))
            I.write_ref(s2, mref(flag), cond(conj([truth(I.loc_get(s2, flag)), g])))

        I.loop_model(st, a.a[0], body)
        g = truth(I.loc_get(st, flag))
        v = I.loc_get(st, acc)
        return mk_phi([(g, Ok(v) if good == "Ok" else Some(v)), (neg(g), Err(app("err")) if good == "Ok" else NONE)])

    @ex(IT + "find", IT + "position", IT + "find_map")
    def it_find(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        kind = c.fr.m.split("::")[-1]
        m = c.M.map_parts(c.I, c.st, a, lambda s, e: tup(c.I.call_any(s, f, [e]), e))
        if m.op == "iter" and len(m.a[0]) == 1 and m.a[0][0][0] == "each":
            _, b, e, F = m.a[0][0]
            g = conj([F, truth(field(e, "0")) if kind != "find_map" else mk_is(field(e, "0"), "Some")])
            bb, _, (gb,) = bind(b, (), (g,))
            fb = mk("it", b.a[0], ("first", gb))
            if kind == "find":
                v = subst(field(e, "1"), {b: fb})
            elif kind == "position":
                v = mk("idx", fb)
            else:
                v = subst(payload(field(e, "0"), "Some", 0), {b: fb})
            return opt(_ex_b(b, g), v)
        if m.op == "iter" and all(p[0] == "item" for p in m.a[0]):
            alts_ = []
            prev = []
            for i, p in enumerate(m.a[0]):
                e = p[1]
                g = conj([p[2], truth(field(e, "0")) if kind != "find_map" else mk_is(field(e, "0"), "Some")])
                v = field(e, "1") if kind == "find" else (const(i) if kind == "position" else payload(field(e, "0"), "Some", 0))
                alts_.append((conj(prev + [g]), Some(v)))
                prev.append(neg(g))
            alts_.append((conj(prev), NONE))
            return mk_phi(alts_)
        return app(kind, m)

    @ex(IT + "unzip")
    def it_unzip(c):
        a = c.M.to_iter(c, 0)
        if a.op != "iter":
            return tup(app("unzip0", a), app("unzip1", a))
        ps = _dp(c.I, c.st, a.a[0])
        f = lambda n: c.M.collect_seq(tuple(("each", p[1], field(p[2], n), p[3]) if p[0] == "each" else ("item", field(p[1], n), p[2]) for p in ps))
        return tup(f("0"), f("1"))

    @ex(IT + "partition")
    def it_partition(c):
        a = c.M.to_iter(c, 0)
        f = c.args[1]
        t = c.destty
        x = c.M.filter_parts(c.I, c.st, a, lambda s, e: c.I.call_any(s, f, [e]))
        y = c.M.filter_parts(c.I, c.st, a, lambda s, e: cond(neg(truth(c.I.call_any(s, f, [e])))))
        inner = _first_generic("<" + t.strip("()") + ">") if t.startswith("(") else ""
        return tup(c.M.collect(c.I, c.st, x, inner), c.M.collect(c.I, c.st, y, inner))

    @ex(IT + "last", IT + "nth", IT + "min", IT + "max", IT + "min_by_key", IT + "max_by_key")
    def it_last(c):
        a = c.M.to_iter(c, 0)
        kind = c.fr.m.split("::")[-1]
        if kind == "nth" and a.op == "iter":
            x = c.M.it_single(a)
            if x is not None:
                i = c.v(1)
                c.set(0, c.M.sub_iter(c.I, a, p_add(i, ONE), None))
                return opt(mk_lt(i, mk_domlen(x[1].a[0])), c.M.at_iter(x, i))
        if a.op == "iter":
            a = c.M.collect_seq(_dp(c.I, c.st, a.a[0]))
        if kind == "last":
            n = mk_len(a)
            return opt(neg(mk_eq0(n)), mk_at(a, p_sub(n, ONE)))
        return app(kind, a, *[c.dv(i) for i in range(1, c.n)])

    @ex(IT + "eq")
    def it_eq(c):
        a, b = c.M.to_iter(c, 0), c.M.to_iter(c, 1)
        if a.op == "iter" and b.op == "iter":
            return cond(mk_eq(c.M.collect_seq(_dp(c.I, c.st, a.a[0])), c.M.collect_seq(_dp(c.I, c.st, b.a[0]))))
        return app("iter_eq", a, b)

    @ex("core::ops::range::RangeInclusive::<Idx>::new")
    def ri_new(c):
        return agg("core::ops::range::RangeInclusive", "RangeInclusive", ("start", "end"), (c.v(0), c.v(1)))

    # ---------------------------------------------------------- integers
    @pre("core::num::<impl ")
    def num(c):
        op = c.fr.m.split("::")[-1]
        ty = c.fr.m[len("core::num::<impl ") :].split(">")[0]
        xs = [c.dv(i) for i in range(c.n)]
        if op in ("pow", "wrapping_pow") :
            return p_pow(xs[0], xs[1])
        if op in ("wrapping_add",):
            return p_add(*xs)
        if op in ("wrapping_sub",):
            return p_sub(*xs)
        if op in ("wrapping_mul",):
            return p_mul(*xs)
        if op == "saturating_sub" and ty.startswith("u"):
            less = mk_lt(xs[0], xs[1])
            return mk_phi([(less, ZERO), (neg(less), p_sub(*xs))])
        if op in ("checked_add", "checked_sub", "checked_mul", "checked_pow"):
            f = {"checked_add": p_add, "checked_sub": p_sub, "checked_mul": p_mul, "checked_pow": p_pow}[op]
            r = f(*xs)
            if op == "checked_sub" and ty.startswith("u"):
                g = mk_le(xs[1], xs[0])
            elif r.op == "int":
                g = TRUE if 0 <= r.a[0] < 1 << WIDTH.get(ty, 64) else FALSE
            else:
                g = lit(mk("fits", ty, r))
            return opt(g, r)
        if op in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
            return mk("intbytes", op[3:5], ty, xs[0])
        if op in ("from_be_bytes", "from_le_bytes"):
            if xs[0].op == "intbytes" and xs[0].a[0] == op[5:7]:
                return xs[0].a[2]
            return app("int_" + op[5:7] + ty, xs[0])
        if op == "is_power_of_two" and xs[0].op == "int":
            n = xs[0].a[0]
            return TRUE_T if n > 0 and n & (n - 1) == 0 else FALSE_T
        if op == "next_power_of_two" and xs[0].op == "int":
            n = 1
            while n < xs[0].a[0]:
                n *= 2
            return const(n)
        if op in ("min_value", "max_value"):
            w = WIDTH.get(ty, 64)
            if ty.startswith("u"):
                return const(0 if op == "min_value" else (1 << w) - 1)
            return const(-(1 << (w - 1)) if op == "min_value" else (1 << (w - 1)) - 1)
        if op == "abs" and xs[0].op == "int":
            return const(abs(xs[0].a[0]))
        return app("int_" + op, *xs)

    @ex("core::str::<impl str>::parse")
    def parse(c):
        v = c.dv(0)
        return app("parse:" + _first_generic(c.destty) if "<" in c.destty else "parse", v)

    @ex("alloc::string::ToString::to_string", "alloc::string::String::from_utf8")
    def to_string(c):
        v = c.dv(0)
        t = strip_ref(c.ty(0))
        if v.op == "int" and t not in ("char",):
            return string(str(v.a[0]))
        if t in ("str", "alloc::string::String") or v.op == "str":
            return v
        if re.match(r"[iu](8|16|32|64|128|size)$", t):
            return mk("enc", "dec", v)
        return app("to_string", v)

    # ---------------------------------------------------------- formatting / logging
    @pre("core::fmt::", "alloc::fmt::", "log::", "std::io::stdio::", "env_logger::")
    def fmt(c):
        m = c.fr.m
        if m == "alloc::fmt::format":
            return app("format", c.dv(0))
        if m.startswith("core::fmt::rt::Argument"):
            return app("arg", c.dv(0))
        if m.startswith("core::fmt::Arguments"):
            return app("fmtargs", *[c.dv(i) for i in range(c.n)])
        if m in ("log::max_level",):
            return app("loglevel")
        if c.destty.startswith("core::result::Result"):
            if m.startswith("log::set_") or m.startswith("env_logger::"):
                return app(m)
            return Ok(UNIT)
        if c.destty == "()":
            return UNIT
        return app("fmt")

    @pre("failure::")
    def failure_(c):
        return app("err")

    # ---------------------------------------------------------- amcl_wrapper
    FE = "amcl_wrapper::field_elem::FieldElement::"
    GE = "amcl_wrapper::group_elem::GroupElement::"
    FV = "amcl_wrapper::field_elem::FieldElementVector::"
    GV = "amcl_wrapper::group_elem::GroupElementVector::"

    def fe(name, f):
        E[FE + name] = f

    fe("new", lambda c: ZERO)
    fe("zero", lambda c: ZERO)
    fe("one", lambda c: ONE)
    fe("minus_one", lambda c: const(-1))
    fe("random", lambda c: c.I.rand("Fr"))
    fe("random_using_rng", lambda c: drawn(c, "Fr", 0))
    fe("is_zero", lambda c: cond(mk_eq0(c.dv(0))))
    fe("is_one", lambda c: cond(mk_eq(c.dv(0), ONE)))
    fe("negation", lambda c: p_neg(c.dv(0)))
    fe("inverse", lambda c: p_inv(c.dv(0)))
    fe("square", lambda c: p_pow(c.dv(0), 2))
    fe("plus", lambda c: p_add(c.dv(0), c.dv(1)))
    fe("minus", lambda c: p_sub(c.dv(0), c.dv(1)))
    fe("multiply", lambda c: p_mul(c.dv(0), c.dv(1)))
    fe("pow", lambda c: p_pow(c.dv(0), c.dv(1)))
    fe("to_bytes", lambda c: mk("enc", "Fra", c.dv(0)))
    fe("from_bytes", lambda c: dec("Fr", c.dv(0)))
    fe("from_msg_hash", lambda c: mk("hash", "Fr", c.dv(0)))
    fe("batch_invert", lambda c: _batch_invert(c))

    def fe_mut(f):
        def g(c):
            c.set(0, f(c.dv(0), *[c.dv(i) for i in range(1, c.n)]))
            return UNIT

        return g

    fe("negate", fe_mut(p_neg))
    fe("inverse_mut", fe_mut(p_inv))
    fe("add_assign_", fe_mut(p_add))
    fe("sub_assign_", fe_mut(p_sub))

    def ge(name, f):
        E[GE + name] = f

    ge("new", lambda c: ZERO)
    ge("identity", lambda c: ZERO)
    ge("generator", lambda c: mk("named", "gen:" + strip_ref(c.destty)))
    ge("random", lambda c: c.I.rand(strip_ref(c.destty)))
    ge("random_using_rng", lambda c: drawn(c, strip_ref(c.destty), 0))
    ge("is_identity", lambda c: cond(mk_eq0(to_pt(c.dv(0)))))
    ge("negation", lambda c: pt_neg(c.dv(0)))
    ge("plus", lambda c: pt_add(c.dv(0), c.dv(1)))
    ge("minus", lambda c: pt_sub(c.dv(0), c.dv(1)))
    ge("double", lambda c: pt_scale(c.dv(0), const(2)))
    ge("scalar_mul_const_time", lambda c: pt_scale(c.dv(0), c.dv(1)))
    def gkind(c):
        t = c.ty(0) + " " + (c.fr.self_ or "")
        return "G1a" if "group_elem_g1" in t else "G2a" if "group_elem_g2" in t else "G"

    ge("to_bytes", lambda c: mk("enc", gkind(c), c.dv(0)) if not (c.n > 1) else mk("enc", "G%s" % ("c" if c.v(1) is TRUE_T else ("u" if c.v(1) is FALSE_T else "?")), c.dv(0)))
    ge("from_bytes", lambda c: dec(strip_ref(_first_generic(c.destty)), c.dv(0)))
    ge("from_msg_hash", lambda c: mk("hash", strip_ref(c.destty), c.dv(0)))
    ge("add_assign_", fe_mut(pt_add))
    ge("sub_assign_", fe_mut(pt_sub))
    for g in ("group_elem_g1::G1", "group_elem_g2::G2"):
        E["amcl_wrapper::%s::scalar_mul_variable_time" % g] = lambda c: pt_scale(c.dv(0), c.dv(1))
        E["amcl_wrapper::%s::binary_scalar_mul" % g] = lambda c: pt_add(pt_scale(c.dv(0), c.dv(2)), pt_scale(c.dv(1), c.dv(3)))
        E["amcl_wrapper::%s::wnaf_mul" % g] = lambda c: pt_scale(c.dv(0), c.dv(1))
    fe("to_wnaf", lambda c: c.dv(0))
    E["amcl_wrapper::commitment::commit_to_field_element"] = lambda c: pt_add(pt_scale(c.dv(0), c.dv(2)), pt_scale(c.dv(1), c.dv(3)))
    E["amcl_wrapper::commitment::commit_to_field_element_vectors"] = lambda c: pt_add(
        pt_add(inner_pt(c, c.dv(0), c.dv(3)), inner_pt(c, c.dv(1), c.dv(4))), pt_scale(c.dv(2), c.dv(5))
    )

    GTP = "amcl_wrapper::extension_field_gt::GT::"
    E[GTP + "ate_pairing"] = lambda c: pairing(c.dv(0), c.dv(1))
    E[GTP + "ate_2_pairing"] = lambda c: pt_add(pairing(c.dv(0), c.dv(1)), pairing(c.dv(2), c.dv(3)))
    E[GTP + "ate_multi_pairing"] = lambda c: multi_pairing(c, c.dv(0))
    E[GTP + "is_one"] = lambda c: cond(mk_eq0(to_pt(c.dv(0))))
    E[GTP + "one"] = lambda c: ZERO
    E[GTP + "pow"] = lambda c: pt_scale(c.dv(0), c.dv(1))
    E[GTP + "inverse"] = lambda c: pt_neg(c.dv(0))
    E[GTP + "product"] = lambda c: pt_add(c.dv(0), c.dv(1))
    E[GTP + "to_bytes"] = lambda c: mk("enc", "GT", c.dv(0))
    E[GTP + "from_bytes"] = lambda c: dec("GT", c.dv(0))

    for p in (FV, GV):
        z = ZERO
        E[p + "new"] = lambda c: mk("repeat", ZERO, c.dv(0))
        E[p + "random"] = lambda c: _rand_vec(c)
    E[FV + "new_vandermonde_vector"] = lambda c: _vandermonde(c)
    E[FV + "scaled_by"] = lambda c: _vmap(c, c.dv(0), lambda x: p_mul(x, c.dv(1)))
    E[GV + "scaled_by"] = lambda c: _vmap(c, c.dv(0), lambda x: pt_scale(x, c.dv(1)))

    @ex(FV + "scale", GV + "scale")
    def vscale(c):
        n = c.dv(1)
        f = p_mul if "field_elem" in c.fr.m else pt_scale
        c.set(0, _vmap(c, c.dv(0), lambda x: f(x, n)))
        return UNIT

    @ex(FV + "inner_product")
    def fv_ip(c):
        a, b = c.dv(0), c.dv(1)
        ok = mk_eq(mk_len(a), mk_len(b))
        v = inner_fe(c, a, b)
        return mk_phi([(ok, Ok(v)), (neg(ok), Err(app("err")))])

    @ex(FV + "hadamard_product", FV + "plus", FV + "minus")
    def fv_had(c):
        a, b = c.dv(0), c.dv(1)
        ok = mk_eq(mk_len(a), mk_len(b))
        f = {"hadamard_product": p_mul, "plus": p_add, "minus": p_sub}[c.fr.m.split("::")[-1]]
        z = c.M.zip(c.I, c.st, c.M.coll_iter(c.I, a, "seq"), c.M.coll_iter(c.I, b, "seq"))
        v = c.M.collect_seq(c.M.map_parts(c.I, c.st, z, lambda s, e: f(field(e, "0"), field(e, "1"))).a[0])
        return mk_phi([(ok, Ok(v)), (neg(ok), Err(app("err")))])

    E[FV + "sum"] = lambda c: run_fold(c, c.M.coll_iter(c.I, c.dv(0), "seq"), ZERO, lambda s, acc, x: p_add(acc, x))

    def msm(c):
        a, b = c.dv(0), c.dv(1)
        if c.fr.m.endswith("ref_vecs") or c.fr.m.endswith("with_ref_vecs"):
            pass
        ok = mk_eq(mk_len(a), mk_len(b))
        v = inner_pt(c, a, b)
        return mk_phi([(ok, Ok(v)), (neg(ok), Err(app("err")))])

    for g in ("group_elem_g1::G1Vector", "group_elem_g2::G2Vector"):
        for n in ("inner_product_const_time", "inner_product_var_time", "inner_product_var_time_with_ref_vecs", "multi_scalar_mul_const_time", "multi_scalar_mul_var_time", "multi_scalar_mul_var_time_from_ref_vecs", "multi_scalar_mul_var_time_without_precomputation", "multi_scalar_mul_const_time_naive", "multi_scalar_mul_const_time_without_precomputation"):
            E["amcl_wrapper::%s::%s" % (g, n)] = msm
        E["amcl_wrapper::%s::split_at" % g] = split_at

    def opfn(kind):
        def f(c):
            a, b = c.dv(0), c.dv(1) if c.n > 1 else None
            t = strip_ref(c.ty(0)) + " " + strip_ref(c.ty(1) if c.n > 1 else "")
            grp = any(x in t for x in ("group_elem_g1::G1", "group_elem_g2::G2", "extension_field_gt::GT", "bls12_381::ec::g1", "bls12_381::ec::g2"))
            gt = "extension_field_gt::GT" in t
            if kind == "add":
                return pt_add(a, b) if grp else p_add(a, b)
            if kind == "sub":
                return pt_sub(a, b) if grp else p_sub(a, b)
            if kind == "mul":
                if gt:
                    return pt_add(a, b)
                if grp:
                    if "field_elem::FieldElement" in strip_ref(c.ty(0)):
                        return pt_scale(b, a)
                    return pt_scale(a, b)
                return p_mul(a, b)
            if kind == "neg":
                return pt_neg(a) if grp else p_neg(a)
            if kind == "div":
                return c.M.binop("Div", a, b)
            if kind == "rem":
                return c.M.binop("Rem", a, b)
            return app(kind, a, b)

        return f

    for nm, k in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Neg::neg", "neg"), ("Div::div", "div"), ("Rem::rem", "rem")):
        E["core::ops::arith::" + nm] = opfn(k)
    for nm, k in (("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul")):

        def mkf(k):
            f = opfn(k)

            def g(c):
                c.set(0, f(c))
                return UNIT

            return g

        E["core::ops::arith::" + nm] = mkf(k)
    E["core::ops::bit::Not::not"] = lambda c: c.M.unop("Not", c.v(0))

    # ---------------------------------------------------------- pairing_plus / ff_zeroize (bbs)
    CP = "pairing_plus::CurveProjective::"
    CA = "pairing_plus::CurveAffine::"
    for p in (CP, CA):
        E[p + "zero"] = lambda c: ZERO
        E[p + "one"] = lambda c: mk("named", "gen:" + ("G1" if "g1::G1" in c.destty else "G2"))
        E[p + "is_zero"] = lambda c: cond(mk_eq0(to_pt(c.dv(0))))
        E[p + "negate"] = fe_mut(pt_neg)
    E[CP + "random"] = lambda c: drawn(c, "G1" if "g1::G1" in c.destty else "G2", 0)
    E[CP + "add_assign"] = fe_mut(pt_add)
    E[CP + "add_assign_mixed"] = fe_mut(pt_add)
    E[CP + "sub_assign"] = fe_mut(pt_sub)
    E[CP + "sub_assign_mixed"] = fe_mut(pt_sub)
    E[CP + "double"] = fe_mut(lambda a: pt_scale(a, const(2)))
    E[CP + "mul_assign"] = fe_mut(pt_scale)
    E[CP + "into_affine"] = identv
    E[CA + "into_projective"] = identv
    E[CA + "prepare"] = identv
    E[CA + "mul"] = lambda c: pt_scale(c.dv(0), c.dv(1))
    E[CA + "into_uncompressed"] = lambda c: mk("enc", "Gu", c.dv(0))
    E[CA + "into_compressed"] = lambda c: mk("enc", "Gc", c.dv(0))
    E[CA + "pairing_with"] = lambda c: pairing(c.dv(0), c.dv(1)) if "g1::" in c.ty(0) else pairing(c.dv(1), c.dv(0))
    E[CA + "sum_of_products"] = lambda c: inner_pt(c, c.dv(0), c.dv(1))
    E["pairing_plus::Engine::miller_loop"] = lambda c: multi_pairing(c, c.dv(0))
    E["pairing_plus::Engine::pairing"] = lambda c: pairing(c.dv(0), c.dv(1))
    E["pairing_plus::Engine::final_exponentiation"] = lambda c: Some(c.dv(0))
    E["pairing_plus::Engine::pairing_product"] = lambda c: pt_add(pairing(c.dv(0), c.dv(1)), pairing(c.dv(2), c.dv(3)))
    E["pairing_plus::Engine::pairing_multi_product"] = lambda c: multi_pairing2(c, c.dv(0), c.dv(1))
    FF = "ff_zeroize::Field::"
    E[FF + "zero"] = lambda c: ZERO
    E[FF + "one"] = lambda c: ZERO if "Fq12" in c.destty else ONE
    E[FF + "is_zero"] = lambda c: cond(mk_eq0(c.dv(0)))
    E[FF + "random"] = lambda c: drawn(c, "Fr", 0)
    E[FF + "add_assign"] = fe_mut(p_add)
    E[FF + "sub_assign"] = fe_mut(p_sub)
    E[FF + "negate"] = fe_mut(p_neg)
    E[FF + "square"] = fe_mut(lambda a: p_pow(a, 2))
    E[FF + "double"] = fe_mut(lambda a: p_mul(a, const(2)))

    @ex(FF + "mul_assign")
    def ff_mul(c):
        if "Fq12" in c.ty(0):
            c.set(0, pt_add(c.dv(0), c.dv(1)))
        else:
            c.set(0, p_mul(c.dv(0), c.dv(1)))
        return UNIT

    @ex(FF + "inverse")
    def ff_inv(c):
        v = c.dv(0)
        if "Fq12" in c.ty(0):
            return Some(pt_neg(v))
        z = mk_eq0(v)
        return opt(neg(z), p_inv(v))

    E["ff_zeroize::PrimeField::into_repr"] = identv
    E["ff_zeroize::PrimeField::from_repr"] = lambda c: Ok(c.dv(0)) if c.destty.startswith("core::result") else c.dv(0)
    E["pairing_plus::hash_to_curve::HashToCurve::hash_to_curve"] = lambda c: mk("hash", "curve:" + ("G1" if "g1::G1" in c.destty else "G2"), tup(c.dv(0), c.dv(1)))
    E["pairing_plus::hash_to_field::BaseFromRO::from_okm"] = lambda c: mk("hash", "okm", c.dv(0))

    @ex("pairing_plus::serdes::SerDes::serialize")
    def serdes_ser(c):
        w = c.v(1)
        cm = c.v(2)
        k = "c" if cm is TRUE_T else ("u" if cm is FALSE_T else "?")
        t0 = c.ty(0) + (c.fr.self_ or "")
        ty = "Fr" if "fr::Fr" in t0 else "G1" if "g1::G1" in t0 else "G2" if "g2::G2" in t0 else "G"
        x = mk("enc", ty + k, c.dv(0))
        if re.match(r"&mut &mut \[u8\]$|&mut core::io::cursor::Cursor<&mut \[u8\]", c.ty(1)):
            # writing into a slice overwrites it from its start
            r = c.I._norm_ref(c.st, c.args[1])
            n, h = mk_len(c.I.deref_all(c.st, r)), mk_len(x)
            if r.op == "mref" and n.op == "int" and h.op == "int":
                if h.a[0] > n.a[0]:
                    return Err(app("err"))
                c.I.write_ref(c.st, r if n is h else ref_ext(r, ("sl", ZERO, h)), x)
                w = c.args[1]
                while w.op == "mref" and c.I._cur(c.st, w).op == "mref" and c.I._cur(c.st, w) is not r:
                    w = c.I._cur(c.st, w)
                if n is not h and w is not r:
                    c.I._poke(c.st, w.a[0], w.a[1], ref_ext(r, ("sl", h, n)))
                return Ok(UNIT)
        c.set(1, seq([("all", w), ("all", x)]))
        return Ok(UNIT)

    @ex("pairing_plus::serdes::SerDes::deserialize")
    def serdes_de(c):
        r = c.dv(0)
        ty = "Fr" if "fr::Fr" in c.destty else ("G1" if "g1::G1" in c.destty else "G2")
        cm = c.v(1)
        w = ENCW.get(ty + ("c" if cm is TRUE_T else "u" if cm is FALSE_T else "?"))
        if w is None:
            c.set(0, app("advanced", r))
            return app("dec:" + ty, r, cm)
        b = c.M.mk_slice(r, ZERO, const(w))
        c.set(0, c.M.mk_slice(r, const(w), None))
        if b.op == "enc" and ENCW.get(b.a[0]) == w:
            return Ok(b.a[1])
        return app("dec:" + ty, b, cm)

    # a reader over bytes is the bytes not read yet
    E["core::io::cursor::Cursor::<T>::new"] = E["std::io::cursor::Cursor::<T>::new"] = identv

    @ex("std::io::Read::read_exact", "alloc::io::Read::read_exact", "alloc::io::read::Read::read_exact", "core::io::Read::read_exact", "alloc::io::cursor::<impl alloc::io::read::Read for core::io::cursor::Cursor<T>>::read_exact", "alloc::io::impls::<impl alloc::io::read::Read for &[u8]>::read_exact")
    def read_exact(c):
        r, b = c.dv(0), c.dv(1)
        n = mk_len(b)
        okc = neg(mk_lt(mk_len(r), n))
        if okc.k == "false":
            return Err(app("err"))
        c.set(1, c.M.mk_slice(r, ZERO, n))
        c.set(0, c.M.mk_slice(r, n, None))
        return mk_phi([(okc, Ok(UNIT)), (neg(okc), Err(app("err")))]) if okc.k != "true" else Ok(UNIT)

    # ---------------------------------------------------------- digests, macs, kdfs
    DG = "digest::digest::Digest::"

    def dg_new(c):
        return mk("digest", _alg(c.fr.self_ or c.destty), EMPTY)

    E[DG + "new"] = dg_new

    def dg_input(c):
        v = c.v(0)
        d = c.dv(1)
        if v.op == "digest":
            c.set(0, mk("digest", v.a[0], seq([("all", v.a[1]), ("all", d)])))
        else:
            c.set(0, mk("dgin", v, d))
        return c.args[0] if c.destty not in ("()", "") else UNIT

    for n in ("input", "update", "chain"):
        E[DG + n] = dg_input
    E["digest::Input::input"] = dg_input
    E["digest::Update::update"] = dg_input

    @ex(DG + "chain")
    def dg_chain(c):
        v, d = c.v(0), c.dv(1)
        if v.op == "digest":
            return mk("digest", v.a[0], seq([("all", v.a[1]), ("all", d)]))
        return mk("dgin", v, d)

    def dg_result(c):
        v = c.v(0)
        if v.op == "digest":
            return mk("hash", v.a[0], v.a[1])
        return app("hashres", c.dv(0))

    for n in ("result", "finalize", "result_reset"):
        E[DG + n] = dg_result
    E[DG + "digest"] = lambda c: mk("hash", _alg(c.fr.self_ or ""), seq([("all", c.dv(0))]))

    @ex("digest::VariableOutput::new")
    def vo_new(c):
        n = c.dv(0)
        return Ok(mk("digest", _alg(c.fr.self_ or "") + (":%s" % show(n)), EMPTY))

    @ex("digest::VariableOutput::variable_result", "digest::VariableOutput::finalize_variable")
    def vo_res(c):
        v = c.v(0)
        h = mk("hash", v.a[0], v.a[1]) if v.op == "digest" else app("hashres", v)
        c.call(c.args[1], h)
        return UNIT

    @ex("crypto_mac::Mac::new_varkey")
    def mac_new(c):
        return Ok(mk("digest", "hmac:" + _alg(c.fr.self_ or "") , seq([("item", mk("mackey", c.dv(0)))])))

    E["crypto_mac::Mac::input"] = dg_input
    E["crypto_mac::Mac::update"] = dg_input
    E["crypto_mac::Mac::result"] = dg_result
    E["crypto_mac::MacResult::<N>::code"] = identv

    @ex("openssl::hash::Hasher::new")
    def oh_new(c):
        return Ok(mk("digest", "sha256", EMPTY))

    @ex("openssl::hash::Hasher::update")
    def oh_up(c):
        dg_input(c)
        return Ok(UNIT)

    @ex("openssl::hash::Hasher::finish")
    def oh_fin(c):
        return Ok(dg_result(c))

    E["openssl::hash::hash"] = lambda c: Ok(mk("hash", "sha256", seq([("all", c.dv(1))])))

    # ---------------------------------------------------------- merlin
    MT = "merlin::transcript::Transcript::"
    E[MT + "new"] = lambda c: mk("transcript", seq([("item", tup(string("new"), c.dv(0)))]))

    def mt(kind):
        def f(c):
            v = c.v(0)
            s = v.a[0] if v.op == "transcript" else seq([("all", mk("tr", v))])
            if kind == "challenge":
                s2 = seq([("all", s), ("item", tup(string("challenge"), c.dv(1)))])
                out = mk("chal", s2)
                c.set(0, mk("transcript", s2))
                if c.n > 2:
                    c.set(2, out)
                return UNIT
            c.set(0, mk("transcript", seq([("all", s), ("item", tup(string(kind), c.dv(1), c.dv(2)))])))
            return UNIT

        return f

    E[MT + "append_message"] = mt("msg")
    E[MT + "commit_bytes"] = mt("msg")
    E[MT + "append_u64"] = mt("u64")
    E[MT + "challenge_bytes"] = mt("challenge")

    # ---------------------------------------------------------- randomness
    @ex("rand_core::RngCore::fill_bytes", "rand_core::RngCore::try_fill_bytes")
    def fill(c):
        c.I.event("rng", c.st, (c.ty(0), c.dv(0)))
        c.set(1, drawn(c, "bytes", 0))
        return UNIT

    @ex("rand_core::RngCore::next_u32", "rand_core::RngCore::next_u64")
    def next_u32(c):
        return drawn(c, "int", 0)

    @ex("rand::rngs::thread::thread_rng", "rand_core::SeedableRng::from_entropy")
    def thread_rng(c):
        return mk("named", "thread_rng")

    @ex("rand_core::SeedableRng::from_seed")
    def from_seed(c):
        return app("rng_seed", c.dv(0))

    # ---------------------------------------------------------- ursa_sharing traits
    G = "ursa_sharing::Group::"
    E[G + "zero"] = lambda c: ZERO
    E[G + "is_zero"] = lambda c: cond(mk_eq0(c.dv(0)))
    E[G + "add_assign"] = fe_mut(lambda a, b: p_add(a, b))
    E[G + "sub_assign"] = fe_mut(lambda a, b: p_sub(a, b))
    E[G + "negate"] = fe_mut(p_neg)
    E[G + "scalar_mul_assign"] = fe_mut(lambda a, b: p_mul(a, b))
    E[G + "random"] = lambda c: drawn(c, "group", 0)
    E[G + "is_valid"] = lambda c: cond(lit(mk("valid", c.dv(0))))
    E[G + "to_bytes"] = lambda c: mk("enc", "group", c.dv(0))
    E[G + "from_bytes"] = lambda c: dec("group", c.dv(0))
    FD = "ursa_sharing::Field::"
    E[FD + "one"] = lambda c: ONE
    E[FD + "from_usize"] = lambda c: c.dv(0)
    E[FD + "scalar_div_assign"] = fe_mut(lambda a, b: p_mul(a, p_inv(b)))
    from . import models_ursa

    models_ursa.register(M)


# ================================================================ helpers
def drawn(c, kind, i):
    """a draw from the generator in argument i: fresh, unless the generator was seeded explicitly"""
    r = c.I.rand(kind)
    if i < c.n:
        g = c.dv(i)
        if g.op not in ("sym", "named", "static", "rand", "field", "undef", "agg", "pl"):
            return app("prg", g, r)
    return r


def zip_dom(pc, *ds):
    """what a zip of several sequences iterates over: those that none of the others bounds"""
    out = []
    for d in ds:
        todo = [d]
        while todo:
            x = todo.pop()
            if x.op == "zip":
                todo.extend(x.a)
            elif x not in out:
                out.append(x)
    out.sort(key=lambda d: (d.op == "range", show(d)))
    for x in list(reversed(out)):
        n = mk_domlen(x)
        if any(y is not x and (implies(pc, mk_le(mk_domlen(y), n)) or implies(pc, mk_eq(mk_domlen(y), n))) for y in out):
            out.remove(x)
    d = out[-1]
    for x in reversed(out[:-1]):
        d = mk("zip", x, d)
    return d


def rel_idx(b):
    """position of an iteration point within its domain"""
    ix = mk_idx(b)
    if b.a[0].op == "range":
        ix = p_sub(ix, b.a[0].a[0])
    return ix


def opt(g, v):
    if g.k == "true":
        return Some(v)
    if g.k == "false":
        return NONE
    return mk("opt", g, v)


def in_bounds(v, i):
    """i < len(v)"""
    if i.op == "idx" and (i.a[0].a[0] is v or mk_len(i.a[0].a[0]) is mk_len(v)):
        return TRUE
    n = mk_len(v)
    if i.op == "idx" and mk_domlen(i.a[0].a[0]) is n:
        return TRUE
    if n.op == "int" and i.op == "int":
        return TRUE if i.a[0] < n.a[0] else FALSE
    return mk_lt(i, n)


def range_bounds(r, n):
    nm = r.a[0].split("::")[-1] if r.op == "agg" else ""
    if nm == "Range":
        return field(r, "start"), field(r, "end")
    if nm == "RangeFrom":
        return field(r, "start"), n
    if nm == "RangeTo":
        return ZERO, field(r, "end")
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeInclusive":
        return field(r, "start"), p_add(field(r, "end"), ONE)
    if nm == "RangeToInclusive":
        return ZERO, p_add(field(r, "end"), ONE)
    return field(r, "start"), field(r, "end")




# library decoders and the encoders they invert
INVERSE = {
    "hex::decode": r"hex::encode$",
    "openssl::bn::BigNum::from_slice": r"openssl::bn::BigNumRef::to_vec$",
    "openssl::bn::BigNum::from_dec_str": r"openssl::bn::BigNumRef::to_dec_str$",
    "openssl::bn::BigNum::from_hex_str": r"openssl::bn::BigNumRef::to_hex_str$",
    "amcl::bn254::big::BIG::from_hex": r"amcl::bn254::big::BIG::to_hex$",
    "amcl::bn254::fp12::FP12::from_hex": r"amcl::bn254::fp12::FP12::to_hex$",
    "amcl::bn254::ecp::ECP::from_hex": r"amcl::bn254::ecp::ECP::to_hex$",
    "amcl::bn254::ecp2::ECP2::from_hex": r"amcl::bn254::ecp2::ECP2::to_hex$",
    "amcl::bn254::big::BIG::frombytes": r"out1:amcl::bn254::big::BIG::tobytes$",
    "amcl::bn254::ecp::ECP::frombytes": r"out1:amcl::bn254::ecp::ECP::tobytes$",
    "amcl::bn254::ecp2::ECP2::frombytes": r"out1:amcl::bn254::ecp2::ECP2::tobytes$",
}


# library functions that stop the program unless the length of their argument lies in a range
PARTIAL = {
    "amcl::bn254::big::BIG::frombytes": (32, None),
    "amcl::bn254::ecp::ECP::frombytes": (65, None),
    "amcl::bn254::ecp2::ECP2::frombytes": (128, None),
    "curve25519_dalek::edwards::CompressedEdwardsY::from_slice": (32, 32),
    "curve25519_dalek::montgomery::MontgomeryPoint::from_slice": (32, 32),
    "elliptic_curve::secret_key::SecretKey::<C>::from_bytes": (32, 32),
}


def inverse(nm, vals):
    rx = INVERSE.get(_nogen(nm))
    if rx is None or len(vals) != 1:
        return None
    x = vals[0]
    while x.op == "app" and x.a[0] == "to_string" and len(x.a[1]) == 1 or x.op == "pl" and x.a[1] == "Ok":
        x = x.a[1][0] if x.op == "app" else x.a[0]
    if x.op == "app" and re.match(rx, _nogen(x.a[0])):
        return x.a[1][0]
    return None


AKIND = {"Fra": "Fr", "G1a": "amcl_wrapper::group_elem_g1::G1", "G2a": "amcl_wrapper::group_elem_g2::G2"}


def dec(kind, b):
    """decoding: inverse of enc when the encoding is known"""
    if b.op == "enc" and AKIND.get(b.a[0], kind) == kind:
        return Ok(b.a[1])
    return app("dec:" + kind, b)


def _es(e):
    if e.op == "errs":
        return e.a[0]
    if e.op == "phi":
        out = set()
        for c, v in e.a[0]:
            out |= set(_es(v))
        return out
    return (e,)


def is_error_ty(t):
    return t.endswith("Error") or t.endswith("ErrorKind") or "::errors::" in t


_impl_cache = {}


def find_impl(prog, tr, self_ty, arg, method):
    k = (id(prog), tr, self_ty, arg, method)
    if k in _impl_cache:
        return _impl_cache[k]
    r = None
    for i in prog.impls:
        if i.get("tr") == tr and i.get("self") == self_ty and len(i.get("ga", [])) >= 1:
            ga = i["ga"]
            if ga[-1] == arg or (len(ga) > 1 and ga[1] == arg):
                key = i["m"].get(method)
                if key:
                    r = prog.fn(key)
    _impl_cache[k] = r
    return r


def find_impl2(prog, tr, self_ty, method):
    k = (id(prog), tr, self_ty, None, method)
    if k in _impl_cache:
        return _impl_cache[k]
    r = None
    for i in prog.impls:
        if i.get("tr") == tr and i.get("self") == self_ty:
            key = i["m"].get(method)
            if key:
                r = prog.fn(key)
    _impl_cache[k] = r
    return r


def default_of(ty, c=None):
    t = strip_ref(ty)
    if t in WIDTH:
        return FALSE_T if t == "bool" else ZERO
    if t.startswith("core::option::Option"):
        return NONE
    if t.startswith("alloc::vec::Vec") or t.startswith("alloc::string::String") or t == "&str":
        return EMPTY
    if is_map_ty(t):
        return mapb(None, (), "map")
    if is_set_ty(t):
        return mapb(None, (), "set")
    if t.endswith("field_elem::FieldElement") or t.endswith("::G1") or t.endswith("::G2"):
        return ZERO
    if t.startswith("generic_array::GenericArray<u8"):
        return mk("repeat", ZERO, mk("named", "gasize:" + t))
    if c is not None:
        f = find_impl2(c.I.prog, "core::default::Default", t, "default")
        if f is not None:
            return c.I.run_fn(f, [], c.st, c.I.cur_line)
    if t == "()":
        return UNIT
    if "blake2" in t or "sha2" in t or "Sha" in t or "sha3" in t:
        return mk("digest", _alg(t), EMPTY)
    return app("default:" + t)


def _alg(t):
    t = strip_ref(t)
    return t


def _unit(x):
    return seq([("all", x)])


def _vmap(c, v, f):
    it_ = c.M.coll_iter(c.I, v, "seq")
    m = c.M.map_parts(c.I, c.st, it_, lambda s, e: f(e))
    return c.M.collect_seq(m.a[0])


def _rand_vec(c):
    n = c.dv(0)
    it_ = c.M.range_iter(c.I, ZERO, n)
    out = []
    for p in it_.a[0]:
        if p[0] == "item":
            out.append(("item", mk("rand", c.I.rand("vec").a[0], "vec%d" % p[1].a[0], tuple(c.I.bstack)), TRUE))
        else:
            c.I.bstack.append(p[1])
            r = c.I.rand("vec")
            c.I.bstack.pop()
            out.append(("each", p[1], r, TRUE))
    return c.M.collect_seq(out)


def _vandermonde(c):
    x, n = c.dv(0), c.dv(1)
    it_ = c.M.range_iter(c.I, ZERO, n)
    m = c.M.map_parts(c.I, c.st, it_, lambda s, e: p_pow(x, e))
    return c.M.collect_seq(m.a[0])


def _batch_invert(c):
    v = c.dv(0)
    inv = _vmap(c, v, p_inv)
    it_ = c.M.coll_iter(c.I, v, "seq")
    prod = ONE
    for p in it_.a[0]:
        if p[0] == "item":
            prod = p_mul(prod, p[1])
        else:
            prod = p_mul(prod, closeb("prod", p[1], (p[2],), p[3]))
    return tup(inv, p_inv(prod))


def _zip_fold(c, a, b, f, init):
    z = c.M.zip(c.I, c.st, c.M.coll_iter(c.I, a, "seq"), c.M.coll_iter(c.I, b, "seq"))
    acc = init
    if z.op != "iter":
        return None
    for p in z.a[0]:
        e = p[2] if p[0] == "each" else p[1]
        x = f(field(e, "0"), field(e, "1"))
        if p[0] == "each":
            d = mk_sum_raw(p[1], p[3], x)
            acc = TM._raw(TM._merge(acc, d, 1)) if init is ZERO else p_add(acc, d)
        else:
            acc = TM._raw(TM._merge(acc, x, 1))
    return acc


def inner_pt(c, a, b):
    """sum_i b_i * A_i"""
    r = _parts_sum(c, a, b, lambda x, y: to_pt(pt_scale(x, y)))
    return r if r is not None else app("msm", a, b)


def inner_fe(c, a, b):
    r = _parts_sum(c, a, b, lambda x, y: p_mul(x, y), fe=True)
    return r if r is not None else app("inner", a, b)


def _segs(c, v):
    if v.op in ("seq", "array"):
        return c.M.coll_iter(c.I, v, "seq").a[0]
    return None


def _parts_sum(c, a, b, f, fe=False):
    """sum over aligned segments; segment structure is used when it lines up"""
    z = c.M.zip(c.I, c.st, c.M.coll_iter(c.I, a, "seq"), c.M.coll_iter(c.I, b, "seq"))
    if z.op != "iter":
        return None
    acc = ZERO
    for p in z.a[0]:
        e = p[2] if p[0] == "each" else p[1]
        acc = _acc(acc, p, f(field(e, "0"), field(e, "1")), fe)
    return acc


def _acc(acc, p, x, fe):
    if p[0] == "each":
        if fe:
            return p_add(acc, mk_sum(p[1], p[3], x))
        if x.op == "phi":
            r = acc
            for c2, v in x.a[0]:
                r = TM._raw(TM._merge(r, mk_sum_raw(p[1], conj([p[3], c2]), to_pt(v)), 1))
            return r
        return TM._raw(TM._merge(acc, mk_sum_raw(p[1], p[3], x), 1))
    if p[2].k != "true":
        x = mk_phi([(p[2], x), (neg(p[2]), ZERO)])
    if fe:
        return p_add(acc, x)
    if x.op == "phi":
        return pt_add(acc, x)
    return TM._raw(TM._merge(acc, x, 1))


def multi_pairing(c, v):
    it_ = c.M.into_iter(c.I, c.st, v, "alloc::vec::Vec<")
    acc = ZERO
    if it_.op != "iter":
        return app("multi_pairing", v)
    for p in it_.a[0]:
        e = p[2] if p[0] == "each" else p[1]
        x = pairing(field(e, "0"), field(e, "1"))
        acc = _acc(acc, p, x, False)
    return acc


def multi_pairing2(c, a, b):
    r = _parts_sum(c, a, b, lambda x, y: pairing(x, y))
    return r if r is not None else app("multi_pairing2", a, b)
