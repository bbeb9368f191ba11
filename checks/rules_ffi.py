"""F01/F02: exported C functions (see engine/ffi.py for the memory model)."""
import re
from lib import *
from engine import contract as C
from engine import ffi as FF
from engine.compare import Cmp, Give

# library functions stay uninterpreted: the FFI layer is judged on its own
CUT = r"^<?(&mut |&)?ursa::(?!ffi|errors|utils)"
FLOOR = 162


def entries(P):
    return sorted(k for k, f in P.fns.items() if k.startswith("ursa::") and f.get("nomangle") and not f.get("derived"))


def shared(P, kind):
    """evaluate every exported function once"""
    return entries(P)


def from_params(t, names):
    r = C.roots(t)
    return bool(r) and all(x.split(".")[0] in names for x in r)


def instances(pc, p):
    """what the universally quantified facts of pc say about the elements p mentions"""
    its, st, seen = [], [p], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "it":
            its.append(x)
        st.extend(children(x))
    out = []
    for c in conjuncts(pc):
        if c.k == "all":
            d = c.a[0]
            for x in its:
                if d.op == "it" and d.a[0] is x.a[0]:
                    out.append(fsubst(c.a[1], {d: x}))
    return out


def f01_one(P, k):
    f = P.fn(k)
    names = C.param_names(f)
    I = FF.FfiInterp(P, 90, CUT)
    ret, cells, fin, pc = I.run_ffi(k, names)
    bad, n = [], 0
    seen = set()
    for e in I.events:
        if e.kind == "rawderef":
            p, how = e.data
        elif e.kind == "rawwrite":
            p, how = e.data[0], "write"
        else:
            continue
        if p.op == "mref" or (not from_params(p, names)):
            continue
        if p is FF.NULL:
            p_ok = False
        n += 1
        try:
            ok = Cmp().entails(conj([e.pc] + instances(e.pc, p)), neg(mk_eq(p, FF.NULL)))
        except Give:
            ok = None
        key = (C.path(p) or show(p), ok)
        if ok is not True and key not in seen:
            seen.add(key)
            bad.append((C.path(p) or show(p)[:80], how, ok is None, e.fn, fshow(e.pc)[:300]))
    return dict(n=n, bad=bad, steps=I.steps)


def f01(P):
    R = Rule()
    ks = entries(P)
    R.ob("ursa::ffi", len(ks) >= FLOOR, "floor", "only %d exported functions found (expected at least %d)" % (len(ks), FLOOR))
    for k, r in zip(ks, pool(ks, lambda k: f01_one(P, k), 150)):
        if "fail" in r:
            R.obl += 1
            R.und.append("%s: not analysed (%s)" % (k, r["fail"]))
            continue
        R.obl += r["n"]
        R.items.append(dict(function=k, at=P.fn(k).get("span"), pointer_uses=r["n"]))
        for p, how, gave, fn, pc in r["bad"]:
            if gave:
                R.und.append("%s: check of %s not decided" % (k, p))
            else:
                R.viol.append((k, "null:" + p, "uses the memory behind pointer `%s` (%s) on a path where it may be null" % (p, how), "path condition: " + pc))
    R.notes["exported_functions"] = len(ks)
    return R


def short_ty(t):
    return re.sub(r"[a-z_0-9]+::", "", t)


def f02_one(P, k):
    """publication only on success; concrete types behind handles"""
    f = P.fn(k)
    names = C.param_names(f)
    I = FF.FfiInterp(P, 90, CUT)
    ret, cells, fin, pc = I.run_ffi(k, names)
    bad, und, n = [], [], 0
    rty = argtype(f, 0)
    if rty.endswith("ffi::ErrorCode"):
        A = C.accept_formula(ret, "value:Success")
        for i, init in cells.items():
            t = argtype(f, i + 1)
            if not t.startswith("*mut ") or t.endswith("mut core::ffi::c_void") and t.count("*") == 1:
                continue
            n += 1
            v = fin[i]
            if v is init:
                continue
            try:
                same = Cmp().same(v, init, conj([pc, neg(A)]))
            except Give:
                und.append("publication through %s not decided" % names[i])
                continue
            if not same:
                bad.append(["publish:" + names[i], "stores through `%s` although the call does not return Success" % names[i], show(v)[:600]])
    handles = {}
    outs = []
    for e in I.events:
        if e.kind == "ptrcast":
            v, frm, to = e.data
            mf, mt = re.match(r"\*(?:const|mut) (.*)$", frm), re.match(r"\*(?:const|mut) (.*)$", to)
            if not mf or not mt:
                continue
            a, b = mf.group(1), mt.group(1)
            if a == "core::ffi::c_void" and b not in ("core::ffi::c_void", "()"):
                q = v.a[0] if v.op == "ptrto" else v
                r = [x for x in C.roots(q) if x in names and FF.is_raw(argtype(f, names.index(x) + 1))]
                if len(r) == 1:
                    handles.setdefault(r[0], set()).add(b)
            elif b == "core::ffi::c_void" and a != "core::ffi::c_void" and v.op != "ptrto":
                outs.append((v, a))
        elif e.kind == "from_raw":
            q, ty = e.data
            m = re.match(r"alloc::boxed::Box<(.*)>$", ty)
            if m and C.path(q) in names:
                handles.setdefault(C.path(q), set()).add(m.group(1))
    for i in cells:
        t = argtype(f, i + 1)
        if not re.match(r"\*mut \*(const|mut) core::ffi::c_void", t) or fin[i] is cells[i]:
            continue
        st, seen, hit = [fin[i]], set(), set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for v, ty in outs:
                if x is v:
                    hit.add(ty)
            if x.op in ("phi",):
                st.extend(y for c, y in x.a[0])
        if hit:
            handles.setdefault(names[i], set()).update(hit)
    if "::" in k and k.endswith("_free"):
        n += 1
    return dict(n=n, bad=bad, und=und, handles={p: sorted(t) for p, t in handles.items()})


ROLES = os.path.join(VERIF, "checks", "ffi_roles.json")


def f02(P):
    R = Rule()
    ks = entries(P)
    R.ob("ursa::ffi", len(ks) >= FLOOR, "floor", "only %d exported functions found (expected at least %d)" % (len(ks), FLOOR))
    cur = {}
    for k, r in zip(ks, pool(ks, lambda k: f02_one(P, k), 150)):
        if "fail" in r:
            R.obl += 1
            R.und.append("%s: not analysed (%s)" % (k, r["fail"]))
            continue
        R.obl += r["n"]
        R.und += ["%s: %s" % (k, u) for u in r["und"]]
        for key, what, d in r["bad"]:
            R.viol.append((k, key, what, d))
        for p, ts in r["handles"].items():
            cur[(k, p)] = ts
    roles = json.load(open(ROLES))
    placed = {}
    for role, members in sorted(roles.items()):
        tys = {}
        for k, p in members:
            ts = cur.get((k, p))
            if not ts:
                if P.fn(k) is not None:
                    R.und.append("%s: no handle type found for %s" % (k, p))
                continue
            placed[(k, p)] = role
            for t in ts:
                tys.setdefault(t, []).append((k, p))
        R.obl += len(members)
        if len(tys) > 1:
            major = max(tys, key=lambda t: len(tys[t]))
            for t, ms in tys.items():
                if t != major:
                    for k, p in ms:
                        R.viol.append((k, "type:" + p, "the handle `%s` is a %s here but a %s in the %d other functions that create, read or free it" % (p, t, major, len(tys[major])), role))
        R.items.append(dict(handle=role, uses=len(members), type=sorted(tys)))
    for (k, p), ts in sorted(cur.items()):
        if (k, p) not in placed:
            R.obl += 1
            R.und.append("%s: handle `%s` (%s) is not in the reviewed table" % (k, p, ", ".join(ts)))
    # the error-code conversion never yields Success
    conv = "ursa::errors::<impl core::convert::From<ursa::errors::UrsaCryptoErrorKind> for ursa::ffi::ErrorCode>::from"
    res = C.evaluate(P, conv, ["code"], [], 60) if P.fn(conv) else None
    if res is None:
        R.und.append("error-code conversion not found")
    else:
        A = C.accept_formula(res.ret, "value:Success")
        R.ob(conv, A.k == "false", "success", "an error is converted to the success code", fshow(A)[:400])
    return R


def mkroles(P):
    ks = entries(P)
    by = {}
    for k, r in zip(ks, pool(ks, lambda k: f02_one(P, k), 150)):
        for p, ts in r["handles"].items():
            for t in ts:
                by.setdefault(short_ty(t), []).append([k, p])
    json.dump(by, open(ROLES, "w"), indent=1, sort_keys=True)
    for t, m in by.items():
        print(t, len(m), sorted(set(p for k, p in m)))


if __name__ == "__main__" and sys.argv[1] == "roles":
    from engine.loadfacts import load

    mkroles(Program(load(["ursa"])))
    sys.exit(0)

if __name__ == "__main__":
    from engine.loadfacts import load

    P = Program(load(["ursa"]))
    r = globals()[sys.argv[1]](P)
    print(r.obl, len(r.viol), len(r.und))
    for v in r.viol:
        print(v[0], v[1], v[2][:150], "|", v[3][:200])
    for u in r.und:
        print("UND", u[:300])
