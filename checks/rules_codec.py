"""D02: every decoder is the inverse of its encoder, decided by composing their normal forms.

For each type with a byte or text encoding the encoder is evaluated on a symbolic value, giving the sequence of
(field encoding, width) segments it writes; the decoder is then evaluated on that very sequence.  Reads that fall on
the segment boundaries resolve to the field written there, so the decoder's result must be the original value, field by
field.  A read that straddles a boundary, takes another field, or reads another width leaves a different value behind.
"""
import re
from lib import *
from engine import contract as C
from engine.interp import Interp
from engine.models import Models
from engine import terms as TM

CRATES = r"^<?(&'?\w* ?)?(bbs|zmix|ursa|ursa_sharing|bulletproofs_amcl)::"


def split_method(k):
    """(type, trait or '', method) of a function key"""
    m = re.match(r"^<(.+) as (.+)>::([\w]+)((?:<.*>)?)$", k)
    if m:
        return m.group(1), m.group(2), m.group(3), m.group(4)
    m = re.match(r"^(.+?)::(\w+)((?:<.*>)?)$", k)
    # the last path segment outside generics
    d = 0
    cut = None
    for i in range(len(k) - 1, 0, -1):
        ch = k[i]
        if ch == ">" and k[i - 1] != "-":
            d += 1
        elif ch == "<":
            d -= 1
        elif ch == ":" and k[i - 1] == ":" and d == 0:
            cut = i
            break
    if cut is None:
        return None
    ty, me = k[: cut - 1], k[cut + 1 :]
    mm = re.match(r"^(\w+)((?:<.*>)?)$", me)
    if not mm:
        return None
    ty = re.sub(r"::<[^<>]*>$", "", ty)
    return ty, "", mm.group(1), mm.group(2)


ENC = {
    "to_bytes": ["from_bytes"],
    "as_bytes": ["from_bytes"],
    "to_bytes_compressed_form": ["from_bytes_compressed_form"],
    "to_bytes_uncompressed_form": ["from_bytes_uncompressed_form"],
    "to_string": ["from_string"],
    "to_dec": ["from_dec"],
    "to_hex": ["from_hex"],
}


# helpers that are each other's inverse by their own contracts
def _bits(c):
    return app("bits", c.dv(1), c.dv(0))


def _unbits(c):
    x = c.dv(0)
    return x.a[1][0] if x.op == "app" and x.a[0] == "bits" else app("unbits", x)


HELPERS = {"bbs::revealed_to_bitvector": _bits, "bbs::bitvector_to_revealed": _unbits}


def pairs(P):
    """(type, encoder, decoder) found in the program"""
    by = {}
    for k in sorted(P.fns):
        f = P.fns[k]
        if f.get("kind") != "fn" or "{closure" in k or "::tests::" in k or f.get("derived") or not re.search(CRATES, k) or k.endswith("ursa::cl::BytesView>::to_bytes"):
            continue
        s = split_method(k)
        if s is None:
            continue
        ty, tr, me, g = s
        if g and g not in ("<I>", "<B>", "<S, R>", "<A>"):
            continue
        by.setdefault(ty, []).append((tr, me, k, f))
    out = []
    for ty, ms in sorted(by.items()):
        def find(me, trpat=None):
            return [(k, f) for tr, m, k, f in ms if m == me and (trpat is None or re.search(trpat, tr))]

        encs = []
        for e in ENC:
            for k, f in find(e):
                if f.get("args") != 1 and e in ("to_string",):
                    continue
                for d in ENC[e]:
                    for dk, df in find(d):
                        encs.append((k, f, dk, df))
        boxed = find("into", r"Into<alloc::boxed::Box<\[u8\]>>")
        whole = boxed or find("to_bytes_uncompressed_form")
        for k, f in boxed:
            for dk, df in find("from", r"From<alloc::boxed::Box<\[u8\]>>") + find("try_from", r"TryFrom<(&\[u8\]|alloc::vec::Vec<u8>)>"):
                encs.append((k, f, dk, df))
        for cf, e in (("COMPRESSED", "to_bytes_compressed_form"), ("UNCOMPRESSED", "to_bytes_uncompressed_form")):
            for k, f in find(e):
                for dk, df in find("from", r"From<&?\[u8; (\w+_)?%s_SIZE\]>" % cf):
                    if cf == "COMPRESSED" and "UNCOMPRESSED" in dk:
                        continue
                    encs.append((k, f, dk, df))
        if not boxed:
            for k, f in find("to_bytes"):
                for dk, df in find("try_from", r"TryFrom<(&\[u8\]|alloc::vec::Vec<u8>)>"):
                    encs.append((k, f, dk, df))
        for k, f, dk, df in encs:
            if f["args"] > df["args"] and f["args"] > 1 and df["args"] != f["args"]:
                continue
            out.append((ty, k, dk))
    return out


EXTRA = r"(^|::)(to_bytes|from_bytes|as_bytes|to_hex|from_hex|to_dec|from_dec|to_string|from_string)(<[BIA]>)?$|TryFrom<(&\[u8\]|alloc::vec::Vec<u8>)>>::try_from$"


def codecs(P):
    """every encoder and decoder, for the contracts that decide what composition cannot"""
    ks = set()
    for ty, e, d in pairs(P) + serde_pairs(P):
        ks |= {e, d}
    for k, f in P.fns.items():
        if re.search(EXTRA, k) and re.search(CRATES, k) and f.get("kind") == "fn" and "{closure" not in k and not f.get("derived") and (f.get("pub") or f.get("trait")):
            ks.add(k)
    return sorted(k for k in ks if not k.startswith("ursa::ffi"))


SER = re.compile(r"^<(.+) as serde_core::ser::Serialize>::serialize<S>$")
VIS = re.compile(r"^<<(.+?) as serde_core::de::Deserialize<'a>>::deserialize::\w+ as serde_core::de::Visitor<'a>>::(visit_str|visit_bytes)<E>$")


def serde_pairs(P):
    """(type, Serialize::serialize, Visitor::visit_str or visit_bytes) of the hand-written serde implementations"""
    vis = {}
    for k in P.fns:
        m = VIS.match(k)
        if m:
            vis.setdefault(m.group(1), {})[m.group(2)] = k
    out = []
    for k in sorted(P.fns):
        m = SER.match(k)
        if m and not P.fns[k].get("derived") and m.group(1) in vis:
            for me, d in sorted(vis[m.group(1)].items()):
                out.append((m.group(1), k, d))
    return out


def serialized(e):
    """what a Serialize implementation hands to the serializer"""
    if e.op == "app" and isinstance(e.a[0], str) and e.a[0].startswith("serde_core::ser::Serializer::serialize_"):
        n = e.a[0].rsplit("_", 1)[1]
        if n == "struct" and len(e.a[1]) == 3:
            return e.a[1][2]
        if n in ("bytes", "str") and len(e.a[1]) == 2:
            return e.a[1][1]
    return None


def widen(t):
    """a length written to a length field fits its width"""
    m = {}
    for x in subterms(t):
        if x.op == "app" and isinstance(x.a[0], str) and re.match(r"trunc_u(16|32|64)$", x.a[0]) and _lengthy(x.a[1][0]):
            m[x] = x.a[1][0]
    return subst(t, m) if m else t


def _lengthy(t):
    if t.op in ("len", "int", "key", "elem", "count"):
        return True
    return t.op == "poly" and TM.lower_bound(t) is not None or t.op in ("sym", "pl")


def same(t, ref):
    """is t the value at ref?  (rebuilt field by field, element by element)"""
    if t is ref:
        return True
    if t.op == "agg":
        fs = list(zip(t.a[2], t.a[3]))
        if not fs:
            return False
        return all(same(v, field(ref, n)) or _cached(t, n, v, ref) for n, v in fs)
    if t.op == "seq" and len(t.a[0]) == 1:
        s = t.a[0][0]
        if s[0] == "all":
            return same(s[1], ref)
        if s[0] == "each" and s[3].k == "true" and s[1].a[0] is ref:
            return same(s[2], t_elem(s[1]))
        return False
    if t.op == "mapb" and t.a[0] is None and len(t.a[1]) == 1:
        s = t.a[1][0]
        return s[0] == "each" and s[1].a[0] is ref and s[4].k == "true" and s[2] is t_key(s[1]) and same(s[3], t_val(s[1]))
    if t.op == "mod" and t.a[1].op == "sym" and t.a[1].a[0].startswith("ctx"):
        # reduced modulo a parameter the caller supplies
        return same(t.a[0], ref)
    if t.op == "phi":
        # a value the validity checks reject is replaced by the type's default (see X01); they do not look at the encoding
        oth = [(c, v) for c, v in t.a[0] if not same(v, ref)]
        return len(oth) == len(t.a[0]) - 1 and not any(
            contains(v, lambda x: x is sym("self")) or v.op != "agg" or v.a[1] in ("Err", "None") or f_contains(c, BYTEISH) for c, v in oth
        )
    return t.op == "sym" and t.a[0].startswith("ctx")


def BYTEISH(x):
    return x.op in ("enc", "seq", "concat", "intbytes", "slice", "lt") or x.op == "app" and x.a[0].startswith("dec:")


def _cached(t, n, v, ref):
    """a field computed from the encoding kept beside it (checked where the pair is built)"""
    b = dict(zip(t.a[2], t.a[3])).get("bytes")
    if b is None or not same(b, field(ref, "bytes")):
        return False
    while v.op == "pl":
        v = v.a[0]
    return v.op == "app" and (v.a[0].startswith("dec:") or v.a[0] == "zrbytes") and v.a[1][0] is b


def compose(P, enc, dec):
    """(encoding, decoder outcome on it) as terms"""
    ef, df = P.fn(enc), P.fn(dec)
    I = Interp(P, Models(), leaf=HELPERS, seconds=60)
    me = sym("self")
    if SER.match(enc):
        e, fin, pc = I.run_root(enc, [me, sym("ser")], ())
        e = serialized(e)
        if e is None:
            return None
        J = Interp(P, Models(), leaf=HELPERS, seconds=60)
        r, fin, pc = J.run_root(dec, [sym("vis"), widen(e)], ())
        return e, r, pc, I.opaque_calls, J.opaque_calls
    args = [me] + [sym("a%d" % i) for i in range(1, ef["args"])]
    e, fin, pc = I.run_root(enc, args, ())
    at = 0
    if ef["args"] == 1 and df["args"] == 1:
        dargs = [None]
    elif ef["args"] == 1:
        by = [i for i in range(df["args"]) if re.match(r"B$|&\[u8\]$|alloc::vec::Vec<u8>$", df["_types"][df["locals"][i + 1]])]
        if len(by) != 1:
            return None
        at = by[0]
        dargs = [sym("ctx%d" % i) for i in range(df["args"])]
    elif df["args"] == ef["args"]:
        dargs = [None] + args[1:]
    else:
        return None
    e = unok(e)
    if e is None:
        return None
    e = widen(e)
    dargs[at] = e
    J = Interp(P, Models(), leaf=HELPERS, seconds=60)
    r, fin, pc = J.run_root(dec, dargs, ())
    return e, r, pc, I.opaque_calls, J.opaque_calls


def unok(e):
    """the value on success"""
    if e.op == "phi":
        ok = [v for c, v in e.a[0] if not (v.op == "agg" and v.a[1] == "Err")]
        if len(ok) == len(e.a[0]):
            return e
        if len(ok) != 1:
            return None
        e = ok[0]
    if e.op == "agg" and e.a[1] in ("Ok", "Some"):
        return payload(e, e.a[1], 0)
    return e


# scheme objects without state of their own: reading one back makes a new one
STATELESS = {"ursa::signatures::secp256k1::EcdsaSecp256k1Sha256"}


def residual(pc):
    """the decoder's acceptance still depends on the layout"""
    def held(x):
        # an element kept as bytes in the value: decoding it again succeeds as it did when the value was made
        return x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("dec:") and x.a[1][0].op == "field" and x.a[1][0].a[0] is sym("self")

    return f_contains(pc, lambda x: not held(x) and (x.op in ("enc", "seq", "concat", "intbytes", "slice") or x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("dec:")))


def decide(P, enc, dec):
    x = compose(P, enc, dec)
    if x is None:
        return dict(s="none")
    e, r, pc, o1, o2 = x
    acc = TRUE
    if r.op == "phi":
        acc = disj([c for c, v in r.a[0] if not (v.op == "agg" and v.a[1] in ("Err", "None"))])
    v = unok(r)
    if conj([acc, pc]).k == "false" or r.op == "agg" and r.a[1] in ("Err", "None"):
        return dict(s="bad", why="decoding what was encoded is always rejected", enc=show(e)[:600])
    if v is None:
        return dict(s="open", why="several outcomes: %s" % show(r)[:500], enc=show(e)[:600])
    if any(dec.startswith("<<%s as " % t) for t in STATELESS) and not contains(e, lambda x: x is sym("self")) and conj([acc, pc]).k == "true":
        return dict(s="proved", enc=show(e)[:300])
    if not same(v, sym("self")):
        return dict(s="open", why="decodes to %s" % show(v)[:900], enc=show(e)[:600])
    if residual(acc) or residual(pc):
        return dict(s="open", why="accepted only if %s" % fshow(conj([acc, pc]))[:500], enc=show(e)[:600])
    return dict(s="proved", enc=show(e)[:300])


def d02(P):
    R = Rule()
    ps = pairs(P)
    sp = serde_pairs(P)
    jobs = ps + sp
    out = pool(jobs, lambda p: decide(P, p[1], p[2]), secs=120)
    bad = contract_hits(P, "D02")
    R.proved = set()
    n = 0
    for (ty, enc, dec), r in zip(jobs, out):
        if r.get("s") == "none":
            continue
        R.obl += 1
        if r.get("s") == "proved":
            n += 1
            R.items.append(dict(type=ty, encoder=enc, decoder=dec, layout=r["enc"], result="decoder returns the encoded value, field by field"))
            continue
        why = r.get("why") or r.get("fail")
        hit = [k for k in (enc, dec) if k in bad]
        if r.get("s") == "bad" or hit:
            R.viol.append((dec, "layout:" + enc, "%s does not read back what %s writes: %s" % (dec, enc, why), "written: %s; %s" % (r.get("enc", ""), "; ".join(bad[k] for k in hit))))
        else:
            R.und.append("%s after %s: %s" % (dec, enc, why))
    ok, no = set(), set()
    for (ty, enc, dec), r in zip(jobs, out):
        if r.get("s") != "none":
            (ok if r.get("s") == "proved" else no).update((enc, dec))
    R.proved = ok - no
    R.ob("(inventory)", n + len(R.viol) + len(R.und) >= 150, "floor", "only %d encoder/decoder pairs found" % n)
    R.notes["pairs"] = len(jobs)
    R.notes["proved"] = n
    bytes_seq(P, R)
    derived(P, R)
    return R


DE_FIELD = re.compile(r"^<(.+::_)::<impl serde_core::de::Deserialize<'de> for (.+)>::deserialize::__FieldVisitor(?:<'de>)? as serde_core::de::Visitor<'de>>::visit_str<__E>$")


def calls(f):
    for i, b in enumerate(f["bb"]):
        if b is None:
            continue
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict) and "fn" in t[1][1]:
            yield i, b, t, t[1][1]["fn"]


def strconst(a):
    return a[1].get("s") if a[0] == "k" and isinstance(a[1], dict) else None


def accepted_names(f):
    """field index -> names, of a generated field identifier visitor"""
    out = {}
    for i, b, t, fn in calls(f):
        if not fn.get("m", "").endswith("PartialEq::eq"):
            continue
        s = [strconst(a) for a in t[2] if strconst(a) is not None]
        nxt = f["bb"][t[4]] if isinstance(t[4], int) else None
        if len(s) != 1 or nxt is None or nxt["t"][0] != "switch":
            return None
        hit = f["bb"][nxt["t"][3]]
        v = [x[1][1].get("v") for x in hit["s"] if len(x) == 2 and x[1][0] == "agg" and str(x[1][1].get("v")).startswith("__field")]
        if len(v) != 1:
            return None
        out.setdefault(int(v[0][7:]), []).append(s[0])
    return out


def written_fields(f):
    """[(name, field)] in order, names that may be left out, and the conditions used for that"""
    out, skip, preds = [], set(), set()
    d = {}
    for b in f["bb"]:
        if b is None:
            continue
        for s in b["s"]:
            if len(s) == 2 and len(s[0]) == 1:
                d.setdefault(s[0][0], []).append(s[1])

    def fld(l, n=0):
        vs = d.get(l, [])
        if n > 6 or len(vs) != 1 or vs[0][0] not in ("ref", "use"):
            return None
        pl = vs[0][-1]
        if vs[0][0] == "use":
            pl = pl[1]
        if not isinstance(pl, list):
            return None
        fs = [e[2] for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
        if pl[0] == 1 and len(fs) == 1:
            return fs[0]
        return fld(pl[0], n + 1)

    for i, b, t, fn in calls(f):
        m = fn.get("m", "")
        if m == "serde_core::ser::SerializeStruct::serialize_field":
            out.append((strconst(t[2][1]), fld(t[2][2][1][0]) if t[2][2][0] in ("c", "m") else None))
        elif m == "serde_core::ser::SerializeStruct::skip_field":
            skip.add(strconst(t[2][1]))
        elif not m.startswith(("serde_core::", "core::ops::try_trait")):
            preds.add(m)
    return out, skip, preds


def derived(P, R):
    """generated serde code: the names written are the names read, for the same fields, and every field takes part"""
    adts = {a["p"]: a for c in P.facts.values() for a in c["adts"]}
    n = 0
    for k in sorted(P.fns):
        m = DE_FIELD.match(k)
        if not m:
            continue
        ty = m.group(2)
        path = re.sub(r"<.*$", "", ty)
        ser = [x for x in P.fns if x.startswith("%s::<impl serde_core::ser::Serialize for %s" % (m.group(1), path)) and x.endswith(">::serialize<__S>")]
        a = adts.get(path)
        if len(ser) != 1 or a is None or len(a["v"]) != 1:
            continue
        names = accepted_names(P.fns[k])
        wr, skip, preds = written_fields(P.fns[ser[0]])
        if names is None or any(x is None or y is None for x, y in wr):
            R.und.append("%s: the generated serde code could not be read" % ty)
            continue
        if not wr:
            continue
        n += 1
        fields = [x[0] for x in a["v"][0][1]]
        types = {x[0]: x[1] for x in a["v"][0][1]}
        R.ob(ty, sorted(y for x, y in wr) == sorted(fields), "fields:write", "serializing %s writes the fields %s of %s" % (ty, [y for x, y in wr], fields))
        R.ob(ty, len(names) == len(fields), "fields:read", "deserializing %s reads %d of %d fields" % (ty, len(names), len(fields)))
        if len(names) == len(fields):
            for i, fl in enumerate(fields):
                w = [x for x, y in wr if y == fl]
                R.ob(ty, all(x in names.get(i, []) for x in w), "name:" + fl, "field %s of %s is written as %s but read as %s" % (fl, ty, w, names.get(i)))
        miss = set()
        vm = [x for x in P.fns if x.startswith("<%s::<impl serde_core::de::Deserialize<'de> for %s" % (m.group(1), path)) and "::visit_map<" in x]
        for x in vm:
            for i, b, t, fn in calls(P.fns[x]):
                if fn.get("m", "").endswith("missing_field"):
                    miss.add(strconst(t[2][0]))
        for x, y in wr:
            if x in skip:
                R.ob(ty, x not in miss or types[y].startswith("core::option::Option<"), "skip:" + y, "field %s of %s may be left out when writing but is required when reading" % (y, ty))
        odd = [p for p in preds if p.split("::")[-1] not in ("is_none", "is_empty")]
        R.ob(ty, not (skip and odd), "skip:when", "fields of %s are left out under a condition other than being empty: %s" % (ty, odd))
        R.items.append(dict(type=ty, serde="derived", names=[x for x, y in wr], optional=sorted(skip)))
    R.ob("(inventory)", n >= 30, "floor:derived", "only %d types with generated serde code found" % n)
    R.notes["derived"] = n


def bytes_seq(P, R):
    """a type written as bytes must also be readable from a sequence: formats without byte strings write one"""
    for k in sorted(P.fns):
        m = SER.match(k)
        if not m or P.fns[k].get("derived"):
            continue
        me = sym("self")
        I = Interp(P, Models(), leaf=HELPERS, seconds=60)
        e, fin, pc = I.run_root(k, [me, sym("ser")], ())
        R.ob(k, serialized(e) is not me, "recursion", "serializing %s hands the value itself to the serializer, which calls back without end" % m.group(1))
        if e.op == "app" and str(e.a[0]).startswith("serde_core::ser::Serializer::serialize_bytes"):
            pre = "<<%s as serde_core::de::Deserialize<'a>>::deserialize::" % m.group(1)
            vis = [x for x in P.fns if x.startswith(pre)]
            if not vis:
                continue
            for me_ in ("visit_bytes", "visit_seq"):
                R.ob(k, any("::%s<" % me_ in x for x in vis), me_, "%s is written as a byte string, but its visitor has no %s: a format that carries bytes that way cannot be read back" % (m.group(1), me_))


def contract_hits(P, pid):
    """function -> the contract obligation it breaks"""
    out = {}
    for fn, k, w, d in getattr(P, "contract_viol", []):
        out.setdefault(fn, "%s: %s" % (k, w[:300]))
    return out
