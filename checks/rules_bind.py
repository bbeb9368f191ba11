"""B02, C05: what a verifier reports about an untrusted proof is bound to that proof.

reported   every value a proof verifier returns to its caller out of the untrusted proof was part of what the
           Fiat-Shamir challenge was computed from.  A value that only enters an equation next to the challenge can be
           solved for once the challenge is known.
shared     two sub-proofs that are about the same hidden value have to be tied to one another by the acceptance condition:
           some equation that must hold contains the response of both, outside any hash.
"""
from lib import *
from engine.interp import Interp
from engine.models import Models


def normal(P, k):
    f = P.fn(k)
    I = Interp(P, Models(), seconds=200)
    ns = C.param_names(f)
    r, _, _ = I.run_root(k, [sym(n) for n in ns], ())
    return r, ns, f


def formula_terms(f):
    """literals' terms of a formula, binder domains included"""
    if f.k == "lit":
        yield f.a[0]
    elif f.k in ("and", "or"):
        for x in f.a:
            yield from formula_terms(x)
    elif f.k in ("all", "ex"):
        yield from formula_terms(f.a[1])


def inside_hash(ts):
    """terms below a hash"""
    out = set()
    for t in ts:
        for x in subterms(t, set()):
            if x.op == "hash":
                for y in x.a:
                    if isinstance(y, T):
                        out |= set(subterms(y, set()))
    return out


def outside_hash(t, memo):
    """terms reachable from t without entering a hash"""
    if t in memo:
        return
    memo.add(t)
    if t.op == "hash":
        return
    for y in kids_of(t):
        outside_hash(y, memo)


def kids_of(t):
    out = []

    def walk(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif hasattr(x, "k") and hasattr(x, "a"):
            for y in formula_terms(x):
                out.append(y)
            for y in x.a if x.k in ("all", "ex") else ():
                walk(y)

    for y in t.a:
        walk(y)
    return out


def container(t):
    """path of the collection or value t was taken from, from the function's parameters"""
    path = []
    while True:
        if t.op == "field":
            path.append(str(t.a[1]))
            t = t.a[0]
        elif t.op in ("elem", "val", "key", "idx"):
            path.append("[%s]" % t.op)
            t = t.a[0].a[0]
        elif t.op in ("at", "get", "pl", "enc") and isinstance(t.a[0], T):
            t = t.a[0]
        else:
            break
    return (t.a[0] if t.op == "sym" else None), tuple(reversed(path))


def _ends(path, tail):
    return path[-len(tail):] == tail


def b02_reported(P):
    """the disclosed values verify_signature_pok reports were hashed into the challenge"""
    R = Rule()
    k = "bbs::verifier::Verifier::verify_signature_pok"
    r, ns, f = normal(P, k)
    src = [n for i, n in enumerate(ns) if "SignatureProof" in argtype(f, i + 1)]
    if not R.ob(k, len(src) == 1, "param", "the untrusted proof is not a parameter of verify_signature_pok"):
        return R
    acc = C.accept_formula(r, "result")
    hashed = set(container(t) for t in inside_hash(formula_terms(acc)))
    seen = set()
    for c, x in alts(r):
        if conj([c, mk_is(x, "Ok")]).k == "false":
            continue
        for t in subterms(payload(x, "Ok", 0), set()):
            root, path = container(t)
            if root != src[0] or not path or path[-1] not in ("[val]", "[elem]") and t.op != "field":
                continue
            if t.op == "field" and any(q != path and q[: len(path)] == path for q in (container(y)[1] for y in subterms(payload(x, "Ok", 0), set()) if container(y)[0] == root)):
                continue  # only the collection the reported values come from
            seen.add(path)
    for path in sorted(seen):
        name = ".".join(path).replace(".[", "[")
        ok = (src[0], path) in hashed or any(p[0] == src[0] and path[: len(p[1])] == p[1] and p[1] and p[1][-1] not in ("[key]", "[idx]") and len(p[1]) == len(path) for p in hashed)
        R.ob(k, ok, "unhashed:" + name, "%s of the untrusted proof is reported as disclosed but is not part of what the challenge is computed from: a prover can solve for a value the issuer never signed" % name)
    R.items.append(dict(function=k, reported=[".".join(p) for p in sorted(seen)], rule="reported values are hashed"))
    return R


# (what, field path ends in the one sub-proof, in the other)
SHARED = {
    "C03": [("the value a predicate is about", ("ne_proofs", "[elem]", "mj"), ("eq_proof", "m"))],
    "C05": [("the credential context", ("eq_proof", "m2"), ("non_revoc_proof", "x_list", "m2"))],
}


def _shared(pid):
    def rule(P):
        R = Rule()
        k = "ursa::cl::verifier::ProofVerifier::verify"
        r, ns, f = normal(P, k)
        acc = C.accept_formula(r, "result_bool")
        ts = list(formula_terms(acc))
        everything = set()
        for t in ts:
            everything |= set(subterms(t, set()))
        paths = set(container(x) for x in everything)
        near = []
        for t in ts:
            if t.op not in ("eq", "eq0"):
                continue
            m = set()
            outside_hash(t, m)
            near.append(set(container(x) for x in m))
        for what, a, b in SHARED[pid]:
            if not any(_ends(p[1], a) for p in paths) or not any(_ends(p[1], b) for p in paths):
                R.und.append("%s: %s is not among the inputs of the proof verifier" % (k, what))
                continue
            ok = any(any(_ends(p[1], a) for p in s) and any(_ends(p[1], b) for p in s) for s in near)
            na, nb = (".".join(x).replace(".[", "[") for x in (a, b))
            R.ob(k, ok, "unlinked:%s:%s" % (na, nb), "no equation the verifier requires ties %s to %s: the two sub-proofs need not be about the same value (%s)" % (na, nb, what))
            R.items.append(dict(function=k, shared=what, responses=[na, nb], linked=ok))
        return R

    rule.__name__ = pid.lower() + "_shared"
    return rule


c03_shared = _shared("C03")
c05_shared = _shared("C05")
