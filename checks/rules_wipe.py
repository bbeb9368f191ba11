"""Z01: secret-holding types wipe themselves when dropped.

For every type of the table: the type has a Drop implementation, and abstract interpretation of
it shows that on every path every secret field of every variant ends up overwritten (or has a
type that is itself in the table).  Whole-program: no value of such a type is put where its
destructor will not run, and none of the types is duplicated bitwise.
"""
import re
from lib import *
from engine.interp import Interp
from engine.models import Models
from rules_rand import frs, own

EN = "ursa::encryption::symm::"
SECRET = [
    "ursa::keys::PrivateKey",
    "ursa::keys::SessionKey",
    "ursa::keys::MacKey",
    "ursa::keys::KeyGenOption",
    EN + "aescbc::Aes128CbcHmac256",
    EN + "aescbc::Aes256CbcHmac512",
    EN + "aesgcm::Aes128Gcm",
    EN + "aesgcm::Aes256Gcm",
    EN + "chacha20poly1305::ChaCha20Poly1305",
    EN + "xchacha20poly1305::XChaCha20Poly1305",
    "bbs::keys::SecretKey",
    "ursa_sharing::shamir::Share",
]
# fields that do not hold secret material
PUBLIC_FIELDS = {("ursa_sharing::shamir::Share", "identifier")}
# external field types that wipe themselves when dropped
SELF_WIPING = re.compile(r"^(zeroize::Zeroizing<|amcl_wrapper::field_elem::FieldElement$|x25519_dalek::x25519::StaticSecret$|ed25519_dalek::secret::SecretKey$|core::marker::PhantomData<|\(\)$)")
# ways to keep a destructor from running or to duplicate the bits of a value
LEAKS = re.compile(
    r"^(core::mem::forget|core::mem::manually_drop::ManuallyDrop::<T>::(new|take)|alloc::boxed::Box::<T(, A)?>::(leak|into_raw)|alloc::vec::Vec::<T(, A)?>::leak"
    r"|core::mem::transmute|core::mem::transmute_copy|core::mem::maybe_uninit::MaybeUninit::<T>::(new|write)|core::ptr::(read|copy|copy_nonoverlapping|write)(_unaligned|_volatile)?"
    r"|core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(read|copy_to|copy_from|write)\w*|alloc::(rc|sync)::(Rc|Arc)::<T>::into_raw|core::mem::zeroed)$"
)


def adts(P):
    out = {}
    for c in P.facts:
        for a in P.facts[c]["adts"]:
            out[a["p"]] = a
    return out


def wiped(t, names, self_):
    """field value t is overwritten on every alternative"""
    if t.op == "app" and t.a[0] == "zeroized":
        return True
    if t.op == "phi":
        return all(wiped(v, names, self_) for _, v in alts(t))
    if t.op == "int" and t.a[0] == 0:
        return True
    return False


def holds_secret(ty):
    return any(re.search(r"(^|[<(&\[, ])%s($|[>),\] ])" % re.escape(s), ty) for s in SECRET)


def z01(P):
    R = Rule()
    A = adts(P)
    for p in SECRET:
        a = A.get(p)
        if a is None:
            R.ob(p, False, "missing", "the secret-holding type %s no longer exists" % p)
            continue
        allself = all(SELF_WIPING.search(f[1]) or f[1] in SECRET or (p, f[0]) in PUBLIC_FIELDS for v in a["v"] for f in v[1])
        d = a.get("drop")
        if not d:
            R.ob(p, allself, "drop", "%s has no Drop implementation and is not wiped when it goes out of scope" % p)
            continue
        f = P.fn(d)
        if f is None:
            R.ob(p, allself, "drop", "the Drop implementation of %s could not be found" % p)
            continue
        names = C.param_names(f)
        I = Interp(P, Models(), seconds=30)
        ret, fin, pc = I.run_root(d, [sym("self")], [0])
        post = fin[0]
        enum = len(a["v"]) > 1
        for v, fs in a["v"]:
            for i, (fname, fty, _) in enumerate(fs):
                if SELF_WIPING.search(fty) or fty in SECRET or (p, fname) in PUBLIC_FIELDS:
                    continue
                if enum:
                    g = mk_is(sym("self"), v)
                    vals = [payload(x, v, i) for c, x in alts(post) if conj([c, g]) is not FALSE]
                else:
                    vals = [field(post, fname)]
                ok = bool(vals) and all(wiped(x, names, sym("self")) for x in vals)
                R.ob(p, ok, "field:%s.%s" % (v, fname), "dropping %s does not overwrite its field %s on every path" % (p, (v + "." if enum else "") + fname), "; ".join(show(x)[:200] for x in vals))
        R.items.append(dict(type=p, drop=d, variants=[v for v, _ in a["v"]], after=show(post)[:200]))
    # no destructor is bypassed
    n = 0
    assert LEAKS.search("core::mem::forget") and holds_secret("alloc::vec::Vec<ursa::keys::PrivateKey>") and not holds_secret("ursa::keys::PrivateKeyX")
    for k, f in own(P):
        for b in f["bb"]:
            if b is None:
                continue
            for fr in frs([b["s"], b["t"]]):
                m = fr.get("m") or ""
                if not LEAKS.search(m):
                    continue
                n += 1
                ga = [g for g in fr.get("ga") or [] if holds_secret(g)]
                if ga:
                    R.ob(k, False, "leak:%s" % m, "%s keeps a value of type %s from being wiped (%s)" % (k, ga[0], m))
    R.obl += n
    R.notes["destructor_bypass_sites_examined"] = n
    # and no table type is wrapped in a type that suppresses drops
    for p, a in A.items():
        for v, fs in a["v"]:
            for fname, fty, _ in fs:
                if ("ManuallyDrop<" in fty or "MaybeUninit<" in fty) and holds_secret(fty):
                    R.ob(p, False, "wrap:%s" % fname, "field %s of %s suppresses the wiping of its contents" % (fname, p))
    # transmute as a cast
    return R
