"""Developer tool: (re)write the contracts of a property from the current tree, for review.

usage: python3 checks/update.py [-n] ID [function regex]     (-n: show only)
"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from specs import SPECS, CUTS, FFI_CUT
from engine import extract as X0

MODES = {"g": "guards", "c": "complete", "v": "value", "p": "post"}


def expand(P, ents):
    """'re:' entries name every matching function that is public or a trait method, generic bodies only (not their instances)"""
    out, seen = [], set()
    for e in ents:
        if e[0] == "rand:":
            import rules_rand

            for k in rules_rand.generators(P):
                if k not in seen:
                    seen.add(k)
                    out.append((k,) + tuple(e[1:]))
            continue
        if e[0] == "codec:":
            import rules_codec

            for k in rules_codec.codecs(P):
                if k not in seen:
                    seen.add(k)
                    out.append((k,) + tuple(e[1:]))
            continue
        if not e[0].startswith("re:"):
            out.append(e)
            seen.add(e[0])
            continue
        rx = re.compile(e[0][3:])
        hit = 0
        for k in sorted(P.fns):
            f = P.fns[k]
            if not rx.search(k) or k in seen or "{closure" in k or "::_::" in k or "_DERIVE_" in k or f.get("kind") != "fn" and not f.get("nomangle"):
                continue
            if PID == "F02" and not f.get("nomangle"):
                continue
            if not (f.get("pub") or f.get("trait")) or f.get("derived") or "::fmt" in k[-6:] or "::tests::" in k:
                continue
            if not k.startswith("<") and re.search(r"<(bulletproofs_amcl|zmix|ursa|sha2|&|[a-z_]+)(::|\[).*>$", k):
                continue
            if re.search(r"::(cause|backtrace|name|expecting|visit_str|serialize|deserialize|clone|clone_from|drop|zeroize)(<.*>)?$", k):
                continue
            seen.add(k)
            hit += 1
            out.append((k,) + tuple(e[1:]))
        if not hit:
            print("!! nothing matches", e[0])
    return out


def build(P, ent):
    key, modes, acc, only = (list(ent) + [None, None])[:4]
    f = P.fn(key)
    if f is None:
        return {"fail": "no such function " + key}
    names = C.param_names(f)
    mut = mut_args(f)
    cut = CUTS.get(PID, ())
    ffi = FFI_CUT if PID == "F02" and f.get("nomangle") else None
    if ffi:
        res, I = C.evaluate_ffi(P, key, names, 150, ffi)
        mut = sorted(I.cells)
        if not acc and argtype(f, 0).endswith("ffi::ErrorCode"):
            acc = "Success"
    else:
        res = C.evaluate(P, key, names, mut, 150, cut)
    rec = C.to_record(key, names, mut, res, fn_kind(f, acc))
    if ffi:
        rec["ffi"] = ffi
    if cut:
        rec["cut"] = list(cut)
    rec["pub"] = bool(f.get("pub")) or bool(f.get("trait"))
    rec["modes"] = [MODES[m] for m in modes]
    if only:
        rec["only"] = only
    rec["reach"] = sorted(reach(P, key))
    # self test: the record must judge its own tree clean
    v, u, o = C.judge(rec, res, rec["modes"])
    rec["_self"] = [x.what[:300] for x in v] + u
    return rec


if __name__ == "__main__":
    av = sys.argv[1:]
    dry = "-n" in av
    av = [a for a in av if a != "-n"]
    P = Program(X0.extract()[0])
    ids = [av[0]] if av[0] != "all" else sorted(SPECS)
    pat = re.compile(av[1]) if len(av) > 1 else None
    os.makedirs(CONTRACTS, exist_ok=True)
    for pid in ids:
        PID = pid
        path = os.path.join(CONTRACTS, pid + ".json")
        old = {(r["fn"], r.get("only")): r for r in (json.load(open(path)) if os.path.exists(path) else [])}
        full = expand(P, SPECS[pid])
        todo = [e for e in full if (pat is None or pat.search(e[0]))]
        out = pool(todo, lambda e: build(P, e), secs=300)
        for e, r in zip(todo, out):
            if "fail" in r:
                print("!!", pid, e[0], r["fail"])
                old.pop((e[0], (list(e) + [None] * 2)[3]), None)
                continue
            s = r.pop("_self")
            print("==", pid, e[0], "kind", r["kind"], "nodes", len(r["nodes"]), "opaque", r["opaque"][:6], "SELF" if s else "", s[:3])
            if dry or pat is not None:
                for t in r["text"]["accepts_only_if"]:
                    print("   REQ", t[:3000])
                print("   VAL", r["text"]["value"][:3000])
                for k, v in r["text"]["post"].items():
                    print("   POST", k, v[:3000])
            old[(e[0], r.get("only"))] = r
        if not dry:
            ks = [(e[0], (list(e) + [None] * 2)[3]) for e in full]
            keep = [old[k] for k in ks if k in old]
            with open(path, "w") as f:
                json.dump(keep, f, indent=None, separators=(",", ":"))
                f.write("\n")
