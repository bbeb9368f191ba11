"""E02: the length checks of decryption agree with what encryption produces.

For every AEAD implementation the normal forms of encrypt and decrypt give (a) the length of
the produced ciphertext as a function of the message length, (b) the acceptance condition of
decrypt.  Restricted to the length of the ciphertext, that condition must not exclude any
producible length, must exclude every length for which a slice would start before the buffer,
and the declared key, nonce, tag and minimum sizes must be those of the algorithm.
"""
import re
from lib import *
from engine.interp import Interp
from engine.models import Models
from engine import compare as CM

TYPENUM = re.compile(r"typenum::uint::UInt<(.*), typenum::bit::B([01])>$")


def unsigned(t):
    """value of a typenum unsigned type"""
    if t == "typenum::uint::UTerm":
        return 0
    m = TYPENUM.match(t or "")
    if not m:
        return None
    v = unsigned(m.group(1))
    return None if v is None else 2 * v + int(m.group(2))


# what the wrapped algorithm is, by the cipher type the implementation instantiates:
# (key bytes, nonce bytes, tag bytes)
SPEC = [
    (r"aes_gcm::AesGcm<aes_soft::impls::Aes128, .*>", (16, 12, 16)),
    (r"aes_gcm::AesGcm<aes_soft::impls::Aes256, .*>", (32, 12, 16)),
    (r"chacha20poly1305::ChaChaPoly1305<.*(XChaCha20|XC).*>|chacha20poly1305::XChaCha20Poly1305", (32, 24, 16)),
    (r"chacha20poly1305::ChaChaPoly1305<.*>|chacha20poly1305::ChaCha20Poly1305", (32, 12, 16)),
]
DIGEST = {"sha2::sha256::Sha256": 32, "sha2::sha512::Sha512": 64}
CBCKEY = {"Aes128": 16, "Aes192": 24, "Aes256": 32}


def lengths(t, L):
    """length of the byte string t when the message has L bytes; None if unknown"""
    if t.op == "seq":
        n = 0
        for s in t.a[0]:
            v = lengths(s[1], L) if s[0] == "all" else None
            if v is None:
                return None
            n += v
        return n
    if t.op == "pl":
        return lengths(t.a[0], L)
    if t.op == "app":
        name = t.a[0]
        if re.search(r"BlockMode::encrypt_vec<.*Pkcs7", name):
            return 16 * (L // 16 + 1)
        if re.search(r"aead::Aead>::encrypt|aead::Aead::encrypt", name):
            sp = algorithm(name + show(t))
            return L + sp[2] if sp else None
        return None
    if t.op == "hash":
        m = re.search(r"hmac::Hmac<([^<>]*)>", str(t.a[0]))
        return DIGEST.get(m.group(1)) if m else None
    return None


def algorithm(s):
    for p, sp in SPEC:
        if re.search(p, s):
            return sp
    m = re.search(r"cbc::Cbc<aes_soft::impls::(Aes\d+), block_padding::Pkcs7>", s)
    h = re.search(r"hmac::Hmac<([^<>]*)>", s)
    if m and h and h.group(1) in DIGEST:
        # encrypt-then-MAC with independent keys: cipher key and an HMAC key of half the digest
        return CBCKEY[m.group(1)] + DIGEST[h.group(1)] // 2, 16, DIGEST[h.group(1)]
    return None


def slices(x):
    for t in subterms(x):
        if t.op == "slice":
            yield t


def run(P, k):
    f = P.fn(k)
    I = Interp(P, Models(), seconds=60)
    ns = C.param_names(f)
    r, _, _ = I.run_root(k, [sym(n) for n in ns], ())
    return r, ns


def e02(P):
    R = Rule()
    impls = {}
    for crate, d in P.facts.items():
        for i in d["impls"]:
            if i["tr"] in ("aead::Aead", "aead::NewAead", "ursa::encryption::symm::Encryptor") and "at" in i:
                impls.setdefault(i["self"], {}).update(i["at"])
                impls[i["self"]].setdefault("fns", {}).update(i["m"])
    impls = {t: d for t, d in impls.items() if "MinSize" in d}
    R.ob("(inventory)", len(impls) >= 6, "floor", "only %d AEAD implementations found" % len(impls))
    for t, d in sorted(impls.items()):
        size = {n: unsigned(d.get(n)) for n in ("KeySize", "NonceSize", "TagSize", "CiphertextOverhead", "MinSize")}
        if not R.ob(t, None not in size.values(), "sizes", "declared sizes of %s could not be read" % t):
            continue
        ek = [k for k in P.fns if k.startswith(d["fns"].get("encrypt", "?")) and "{closure" not in k]
        dk = [k for k in P.fns if k.startswith(d["fns"].get("decrypt", "?")) and "{closure" not in k]
        if not R.ob(t, len(ek) == 1 and len(dk) == 1, "fns", "encrypt and decrypt of %s not found" % t):
            continue
        enc, _ = run(P, ek[0])
        dec, dn = run(P, dk[0])
        sp = algorithm(show(enc))
        if sp is None:
            R.und.append("%s: the wrapped algorithm is not recognised" % t)
            continue
        for n, want in zip(("KeySize", "NonceSize", "TagSize"), sp):
            R.ob(t, size[n] == want, "size:" + n, "%s of %s is %d, its algorithm uses %d" % (n, t, size[n], want))
        outs = [payload(x, "Ok", 0) if x.op != "app" else x for c, x in alts(enc) if conj([c, mk_is(x, "Ok")]).k != "false"]
        top = 4 * (sum(size.values()) + 64)
        prod, bad = set(), False
        for o in outs:
            for L in range(top):
                v = lengths(o, L)
                if v is None:
                    bad = True
                    break
                prod.add(v)
        if bad or not prod:
            R.und.append("%s: the length of the ciphertext could not be derived" % t)
            continue
        lo = min(prod)
        # decrypt, restricted to the ciphertext's length
        acc = C.accept_formula(dec, "result")
        msg = mk_len(field(sym(dn[2]), "msg"))
        ok = True
        for n in range(top):
            g = fsubst(acc, {msg: const(n)})
            if n in prod and n < top - 128:
                if not R.ob(t, g.k != "false", "accepts", "decryption of %s rejects every ciphertext of %d bytes, which encryption produces" % (t, n)):
                    break
            if g.k != "false":
                neg_ = []
                for c, x in alts(dec):
                    if conj([fsubst(c, {msg: const(n)})]).k == "false":
                        continue
                    for s in slices(x):
                        for e in s.a[1:3]:
                            v = subst(e, {msg: const(n)})
                            if is_int(v) and (v.a[0] < 0 or v.a[0] > n and contains(s.a[0], lambda y: y.op == "field" and y.a[1] == "msg")):
                                neg_.append(show(s))
                if not R.ob(t, not neg_, "short", "decryption of %s slices outside a ciphertext of %d bytes (%s) instead of returning an error" % (t, n, ", ".join(neg_[:2]))):
                    break
        R.ob(t, size["MinSize"] <= size["NonceSize"] + lo, "min:high", "the minimum size of %s is %d, but encrypt_easy produces %d bytes for the shortest message" % (t, size["MinSize"], size["NonceSize"] + lo))
        R.ob(t, size["MinSize"] >= size["NonceSize"], "min:low", "the minimum size of %s (%d) is below its nonce size (%d)" % (t, size["MinSize"], size["NonceSize"]))
        R.items.append(dict(type=t, sizes=size, shortest_ciphertext=lo, algorithm=list(sp)))
    return R
