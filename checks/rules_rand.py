"""Q01: where randomness comes from.

Every call of an operation that yields random data or builds a generator is classified by
the operation and by the generator type it is instantiated with:

  OS      operating-system seeded generators (OsRng, ThreadRng, the entropy-seeded generators
          inside openssl, amcl_wrapper and ed25519/x25519 key generation fed by OsRng)
  CALLER  a generator type parameter of the enclosing function that the caller supplies; its
          declared bounds must include CryptoRng where the crate itself calls it
  SEEDED  ChaCha20 built from a caller-supplied seed; where the seed comes from is decided by
          the value contract of the enclosing function
Anything else (another generator type, a seed-from-integer constructor, a mock or
non-cryptographic generator, a clock used as a seed) is a violation.
"""
import re
from lib import *

OS_TYPES = {
    "rand_core::os::OsRng",
    "rand::rngs::thread::ThreadRng",
    "rand::rngs::entropy::EntropyRng",
    "rand::rngs::os::OsRng",
    "getrandom",
}
SEEDABLE = {"rand_chacha::chacha::ChaCha20Rng"}
# operations that draw from an operating-system source by themselves
OS_OPS = {
    "rand::rngs::thread::thread_rng",
    "rand_core::SeedableRng::from_entropy",
    "amcl_wrapper::field_elem::FieldElement::random",
    "amcl_wrapper::field_elem::FieldElementVector::random",
    "amcl_wrapper::group_elem::GroupElement::random",
    "amcl_wrapper::group_elem::GroupElementVector::random",
    "openssl::bn::BigNumRef::rand",
    "openssl::bn::BigNumRef::rand_range",
    "openssl::bn::BigNumRef::generate_prime",
    "openssl::rand::rand_bytes",
    "getrandom::getrandom",
    "amcl::rand::RAND::new",
    "amcl::rand::RAND::clean",
    "amcl::rand::RAND::seed",
    "amcl::bn254::big::BIG::randomnum",
}
# operations whose generator is the type argument (or receiver) looked up below
GEN_OPS = re.compile(
    r"(^rand_core::RngCore::|^rand::Rng::|::random_using_rng$|^ff_zeroize::Field::random$|^pairing_plus::CurveProjective::random$"
    r"|^ed25519_dalek::keypair::Keypair::generate$|^x25519_dalek::x25519::StaticSecret::new$|^ursa_sharing::Group::random$"
    r"|^rand::distributions::|^rand::seq::|^rand::random$|^rand_core::SeedableRng::|SecretKey::random$|Scalar::random$)"
)
# any external item that smells of generating randomness and is not classified above is reported
SMELL = re.compile(r"(^|[<&:])(rand|rand_core|rand_chacha|rand_pcg|rand_xorshift|rand_hc|rand_isaac|fastrand|oorandom|getrandom|amcl::rand|tinyrand|nanorand)::")
SEED_OPS = re.compile(r"^rand_core::SeedableRng::(from_seed|seed_from_u64|from_rng)$")
LEAF_GEN = re.compile(
    r"^ursa::(bn::BigNumber::(rand|rand_range|random_qr|generate_prime|generate_safe_prime|generate_prime_in_range)|pair::(PointG1|PointG2|GroupOrderElement)::new|encryption::(random_vec|random_bytes)(<.*)?)$"
    r"|^<?bbs::(RandomElem::random|.* as bbs::RandomElem>::random)$"
)


def frs(x):
    if isinstance(x, dict):
        if isinstance(x.get("fn"), dict):
            yield x["fn"]
        for v in x.values():
            yield from frs(v)
    elif isinstance(x, list):
        for v in x:
            yield from frs(v)


def own(P):
    for k in sorted(P.fns):
        f = P.fns[k]
        if "::tests::" in k or "::test::" in k:
            continue
        yield k, f


def parent(P, k):
    while "::{closure" in k:
        k = k[: k.rindex("::{closure")]
    if P.fn(k) is None:
        c = [x for x in P.fns if x.split("<")[0] == k and "{closure" not in x]
        if c:
            return c[0]
    return k


def sites(P):
    """(function, external operation, generator types, rendered callee)"""
    for k, f in own(P):
        for b in f["bb"]:
            if b is None:
                continue
            for fr in frs([b["s"], b["t"]]):
                m = fr.get("m") or ""
                kk = fr.get("k")
                if kk and P.fn(kk) is not None and not LEAF_GEN.search(kk.split("<u8")[0]):
                    continue
                yield k, f, fr, m


def is_source(P, fr, m):
    kk = fr.get("k") or ""
    return m in OS_OPS or GEN_OPS.search(m) or SEED_OPS.search(m) or LEAF_GEN.search(kk)


def generators(P):
    """functions that draw randomness themselves, for the value contracts"""
    out = set()
    for k, f, fr, m in sites(P):
        if is_source(P, fr, m):
            p = parent(P, k)
            if re.search(r"<(<Self|(bulletproofs_amcl|zmix|ursa|sha2|typenum|&|[a-z_]+)(::|\[)).*>$", p) and not p.startswith("<"):
                continue
            if P.fn(p) is not None and not p.startswith("ursa::ffi::") and "::wasm::" not in p:
                out.add(p)
    return sorted(out)


def classify(m, ga, selfty):
    """-> ('os'|'caller'|'seeded', None) or ('bad', why); None when not a random source"""
    gen = GEN_OPS.search(m)
    if SEED_OPS.search(m):
        if m.endswith("seed_from_u64"):
            return "bad", "a generator seeded from a 64-bit integer"
        t = ga[0] if ga else selfty
        if t in SEEDABLE or t == "rand::rngs::std::StdRng":
            return "seeded", None
        return "bad", "a seeded generator of type %s" % t
    if m in OS_OPS:
        return "os", None
    if gen:
        cls = None
        for t in list(ga) + ([selfty] if selfty else []):
            t = re.sub(r"^(&(mut )?)+", "", t or "")
            if t in OS_TYPES:
                cls = cls or "os"
            elif t in SEEDABLE or t == "rand::rngs::std::StdRng":
                cls = "seeded"
            elif t.startswith("impl ") or t.startswith("dyn "):
                if "CryptoRng" not in t:
                    return "bad", "a caller-supplied generator that need not be cryptographic (%s)" % t
                cls = cls or "caller"
            elif "::" not in t and not re.match(r"^[ui](8|16|32|64|128|size)$|^\[|^\(", t):
                cls = cls or "caller"
            elif SMELL.search(t) or re.search(r"[Rr]ng\b", t):
                return "bad", "a generator of type %s" % t
        if cls is None:
            return "bad", "a generator that could not be identified (%s)" % ", ".join(ga)
        return cls, None
    if SMELL.search(m):
        if m.endswith(("::clone", "::fmt", "::drop", "::eq")) or m.startswith("rand_core::Error") or m.startswith("rand_core::error::"):
            return None
        return "bad", "an unreviewed random-number operation %s" % m
    return None


def q01(P):
    R = Rule()
    # the rule must be able to fire
    assert classify("rand_core::SeedableRng::seed_from_u64", ["rand::rngs::small::SmallRng"], "")[0] == "bad"
    assert classify("rand_core::RngCore::fill_bytes", ["rand_xorshift::XorShiftRng"], "")[0] == "bad"
    recs = [r["fn"] for r in load_contracts(P, "Q01")]
    covered = reach_keys(P, recs)
    n = {"os": 0, "caller": 0, "seeded": 0}
    seen = set()
    for k, f, fr, m in sites(P):
        kk = fr.get("k")
        if kk and P.fn(kk) is not None:
            continue
        c = classify(m, fr.get("ga") or [], fr.get("self") or "")
        if c is None:
            continue
        p = parent(P, k)
        key = "source:%s:%s" % (m, ",".join(fr.get("ga") or []))
        if (p, key) in seen:
            continue
        seen.add((p, key))
        kind, why = c
        if kind == "bad":
            R.ob(p, False, key, "randomness is taken from %s in %s" % (why, f.get("span") or k))
            continue
        n[kind] += 1
        ok = True
        if kind == "seeded":
            ok = p in covered or re.sub(r"<.*", "", p) in {re.sub(r"<.*", "", x) for x in covered}
        R.ob(p, ok, key, "a generator is built from a seed in a function whose seed provenance is not reviewed")
        R.items.append(dict(function=p, source=m, generator=[g[:80] for g in fr.get("ga") or []], kind=kind))
    # generators implemented in the tree itself
    for k, f in own(P):
        if (f.get("trait") or "").startswith("rand_core::") and not f.get("derived"):
            R.ob(k, False, "impl", "the tree implements its own random-number generator")
    for kind, lo in (("os", 45), ("caller", 8), ("seeded", 10)):
        R.ob("(inventory)", n[kind] >= lo, "floor:" + kind, "only %d %s random sources found, at least %d expected" % (n[kind], kind, lo))
    R.notes["random_sources"] = n
    return R
