"""Leaf abstractions of workspace types that wrap back ends: ursa::bn::BigNumber and
ursa::pair::{PointG1, PointG2, GroupOrderElement, Pair}."""
from .terms import *
from . import terms as TM
import re


def typenum(t):
    """value of a typenum unsigned type, or None"""
    t = t.strip()
    if t.startswith("typenum::uint::UTerm"):
        return 0
    m = re.match(r"typenum::uint::UInt<(.*), typenum::bit::B([01])>$", t)
    if not m:
        return None
    r = typenum(m.group(1))
    return None if r is None else 2 * r + int(m.group(2))


def size_term(t):
    n = typenum(t)
    return const(n) if n is not None else mk("named", "size:" + t)


def modulus(v, n):
    """v mod n"""
    if v.op == "phi":
        return mk_phi([(c, modulus(x, n)) for c, x in v.a[0]])
    if v.op == "gpoly" and v.a[0] is n:
        return v
    if v.op == "poly" and len(v.a[0]) == 1:
        ((m, c),) = v.a[0]
        if c == 1 and all(p > 0 for x, p in m) and (len(m) > 1 or m[0][1] > 1 or m[0][0].op in ("gpoly",)):
            acc = ZERO
            for x, p in m:
                acc = TM._raw(TM._merge(acc, TM._gscale(to_g(n, x), const(p)), 1))
            return from_g(n, acc)
    if v.op == "mod" and v.a[1] is n:
        return v
    return mk("mod", v, n)


def register(M):
    from .models import dec, cond, Ok

    BN = "ursa::bn::BigNumber::"

    def bn(name, f):
        M.leaf[BN + name] = f

    okf = lambda g: (lambda c: Ok(g(c)))
    bn("new_context", okf(lambda c: mk("named", "bnctx")))
    bn("new", okf(lambda c: ZERO))
    bn("generate_prime", okf(lambda c: c.I.rand("prime")))
    bn("generate_safe_prime", okf(lambda c: c.I.rand("safeprime")))
    bn("generate_prime_in_range", okf(lambda c: mk("rprime", c.I.rand("prime"), c.dv(0), c.dv(1))))
    bn("is_prime", okf(lambda c: cond(lit(mk("isprime", c.dv(0))))))
    bn("is_safe_prime", okf(lambda c: cond(lit(mk("issafeprime", c.dv(0))))))
    bn("rand", okf(lambda c: mk("rnd", c.I.rand("bits"), c.dv(0))))
    bn("rand_range", okf(lambda c: mk("rnd", c.I.rand("range"), c.dv(0))))
    bn("num_bits", okf(lambda c: app("num_bits", c.dv(0))))
    bn("is_bit_set", okf(lambda c: app("is_bit_set", c.dv(0), c.dv(1))))
    bn("from_u32", okf(lambda c: c.dv(0)))
    bn("from_dec", okf(lambda c: _fromdec(c.dv(0))))
    bn("from_hex", okf(lambda c: app("from_hex", c.dv(0))))
    bn("from_bytes", okf(lambda c: c.dv(0).a[1] if c.dv(0).op == "enc" else app("bnbytes", c.dv(0))))
    bn("to_dec", okf(lambda c: mk("enc", "dec", c.dv(0))))
    bn("to_hex", okf(lambda c: mk("enc", "hex", c.dv(0))))
    bn("to_bytes", okf(lambda c: mk("enc", "bn", c.dv(0))))
    bn("hash", okf(lambda c: mk("hash", "sha256", seq([("all", c.dv(0))]))))
    bn("hash_array", okf(lambda c: mk("hash", "sha256arr", c.dv(0))))
    bn("add", okf(lambda c: p_add(c.dv(0), c.dv(1))))
    bn("sub", okf(lambda c: p_sub(c.dv(0), c.dv(1))))
    bn("sqr", okf(lambda c: p_pow(c.dv(0), 2)))
    bn("mul", okf(lambda c: p_mul(c.dv(0), c.dv(1))))
    bn("mod_mul", okf(lambda c: g_mul(c.dv(0), c.dv(1), c.dv(2))))
    bn("mod_sub", okf(lambda c: modulus(p_sub(c.dv(0), c.dv(1)), c.dv(2))))
    bn("div", okf(lambda c: app("bndiv", c.dv(0), c.dv(1))))
    bn("gcd", okf(lambda c: app("gcd", c.dv(0), c.dv(1))))
    bn("mod_exp", okf(lambda c: g_exp(c.dv(0), c.dv(1), c.dv(2))))
    bn("modulus", okf(lambda c: modulus(c.dv(0), c.dv(1))))
    bn("exp", okf(lambda c: p_pow(c.dv(0), c.dv(1))))
    bn("inverse", okf(lambda c: g_inv(c.dv(0), c.dv(1))))
    bn("mod_div", okf(lambda c: g_div(c.dv(0), c.dv(1), c.dv(2))))
    bn("set_negative", okf(lambda c: app("set_negative", c.dv(0), c.dv(1))))
    bn("is_negative", lambda c: cond(mk_lt(c.dv(0), ZERO)))
    bn("increment", okf(lambda c: p_add(c.dv(0), ONE)))
    bn("decrement", okf(lambda c: p_sub(c.dv(0), ONE)))
    bn("lshift1", okf(lambda c: p_mul(c.dv(0), const(2))))
    bn("rshift1", okf(lambda c: app("rshift1", c.dv(0))))
    bn("rshift", okf(lambda c: app("rshift", c.dv(0), c.dv(1))))
    bn("random_qr", okf(lambda c: mk("qr", c.I.rand("qr"), c.dv(0))))
    bn("try_clone", okf(lambda c: c.dv(0)))

    def word(op):
        def f(c):
            v, w = c.dv(0), c.dv(1)
            c.set(0, {"add": p_add, "sub": p_sub, "mul": p_mul}[op](v, w) if op in ("add", "sub", "mul") else app("bndiv", v, w))
            return Ok(c.args[0])

        return f

    for op in ("add", "sub", "mul", "div"):
        bn(op + "_word", word(op))

    def set_bit(c):
        c.set(0, app("set_bit", c.dv(0), c.dv(1)))
        return Ok(c.args[0])

    bn("set_bit", set_bit)
    X = "<ursa::bn::BigNumber as "
    M.leaf[X + "core::cmp::PartialEq>::eq"] = lambda c: cond(mk_eq(c.dv(0), c.dv(1)))
    M.leaf[X + "core::cmp::PartialOrd>::partial_cmp"] = M.exact["core::cmp::PartialOrd::partial_cmp"]
    M.leaf[X + "core::cmp::Ord>::cmp"] = M.exact["core::cmp::Ord::cmp"]
    M.leaf[X + "core::default::Default>::default"] = lambda c: ZERO

    P = "ursa::pair::"
    for g in ("PointG1", "PointG2"):
        q = P + g + "::"
        M.leaf[q + "new"] = okf(lambda c, g=g: mk("named", "base:" + g) if False else c.I.rand(g))
        M.leaf[q + "new_inf"] = okf(lambda c: ZERO)
        M.leaf[q + "is_inf"] = okf(lambda c: cond(mk_eq0(to_pt(c.dv(0)))))
        M.leaf[q + "mul"] = okf(lambda c: pt_scale(c.dv(0), c.dv(1)))
        M.leaf[q + "add"] = okf(lambda c: pt_add(c.dv(0), c.dv(1)))
        M.leaf[q + "sub"] = okf(lambda c: pt_sub(c.dv(0), c.dv(1)))
        M.leaf[q + "neg"] = okf(lambda c: pt_neg(c.dv(0)))
        M.leaf[q + "to_string"] = okf(lambda c, g=g: mk("enc", g + "s", c.dv(0)))
        M.leaf[q + "from_string"] = lambda c, g=g: dec(g + "s", c.dv(0))
        M.leaf[q + "to_bytes"] = okf(lambda c, g=g: mk("enc", g, c.dv(0)))
        M.leaf[q + "from_bytes"] = lambda c, g=g: dec(g, c.dv(0))
        M.leaf[q + "from_hash"] = okf(lambda c, g=g: mk("hash", g, c.dv(0)))
    q = P + "GroupOrderElement::"
    M.leaf[q + "new"] = okf(lambda c: c.I.rand("Zr"))
    M.leaf[q + "new_from_seed"] = okf(lambda c: mk("hash", "ZrSeed", c.dv(0)))
    M.leaf[q + "pow_mod"] = okf(lambda c: p_pow(c.dv(0), c.dv(1)))
    M.leaf[q + "add_mod"] = okf(lambda c: p_add(c.dv(0), c.dv(1)))
    M.leaf[q + "sub_mod"] = okf(lambda c: p_sub(c.dv(0), c.dv(1)))
    M.leaf[q + "mul_mod"] = okf(lambda c: p_mul(c.dv(0), c.dv(1)))
    M.leaf[q + "inverse"] = okf(lambda c: p_inv(c.dv(0)))
    M.leaf[q + "mod_neg"] = okf(lambda c: p_neg(c.dv(0)))
    M.leaf[q + "to_bytes"] = okf(lambda c: mk("enc", "Zr", c.dv(0)))
    M.leaf[q + "from_bytes"] = lambda c: _zr(c)
    M.leaf[q + "to_string"] = okf(lambda c: mk("enc", "Zrs", c.dv(0)))
    M.leaf[q + "from_string"] = lambda c: dec("Zrs", c.dv(0))
    q = P + "Pair::"
    M.leaf[q + "pair"] = okf(lambda c: pairing(c.dv(0), c.dv(1)))
    M.leaf[q + "pair2"] = okf(lambda c: pt_add(pairing(c.dv(0), c.dv(1)), pairing(c.dv(2), c.dv(3))))
    M.leaf[q + "mul"] = okf(lambda c: pt_add(c.dv(0), c.dv(1)))
    M.leaf[q + "pow"] = okf(lambda c: pt_scale(c.dv(0), c.dv(1)))
    M.leaf[q + "inverse"] = okf(lambda c: pt_neg(c.dv(0)))
    M.leaf[q + "is_unity"] = okf(lambda c: cond(mk_eq0(to_pt(c.dv(0)))))
    M.leaf[q + "to_bytes"] = okf(lambda c: mk("enc", "Pair", c.dv(0)))
    M.leaf[q + "to_string"] = okf(lambda c: mk("enc", "Pairs", c.dv(0)))
    M.leaf[q + "from_string"] = lambda c: dec("Pairs", c.dv(0))
    for g in ("PointG1", "PointG2", "GroupOrderElement", "Pair"):
        M.leaf["<ursa::pair::%s as core::cmp::PartialEq>::eq" % g] = lambda c: cond(mk_eq(c.dv(0), c.dv(1)))
        M.leaf["<ursa::pair::%s as core::clone::Clone>::clone" % g] = lambda c: c.dv(0)
    def access_tail(c):
        # contract of the trait: the accessor sees exactly the tail with that id, or an error is returned
        acc, i = c.dv(0), c.dv(1)
        c.I.call_any(c.st, c.args[2], [app("tail", acc, i)])
        return app("access_tail", acc, i)

    M.exact["ursa::cl::RevocationTailsAccessor::access_tail"] = access_tail
    M.leaf["ursa::cl::helpers::four_squares"] = lambda c: app("four_squares", c.dv(0))
    M.leaf["ursa::cl::helpers::bitwise_or_big_int"] = okf(lambda c: app("bitor", c.dv(0), c.dv(1)))

    E = M.exact

    def to_usize(c):
        return size_term(c.fr.self_ or (c.fr.ga[0] if c.fr.ga else "?"))

    E["typenum::marker_traits::Unsigned::to_usize"] = to_usize
    for i in ("typenum::uint::UInt<U, B>", "typenum::uint::UTerm"):
        E["<%s as typenum::marker_traits::Unsigned>::to_usize" % i] = to_usize

    def ga(c):
        """GenericArray::from_slice and relatives: the same bytes, provided the length fits"""
        n = size_term(c.fr.ga[1]) if len(c.fr.ga) > 1 else mk("named", "size:?")
        v = c.v(0)
        c.panic("garray", neg(mk_eq(mk_len(v), n)))
        return v

    from .models import Some, NONE

    def ga_opt(c):
        """GenericArray::from_exact_iter: the elements as an array if there are exactly that many"""
        n = size_term(c.fr.ga[1]) if len(c.fr.ga) > 1 else mk("named", "size:?")
        v = c.M.collect(c.I, c.st, c.M.to_iter(c, 0), "alloc::vec::Vec<u8>")
        g = mk_eq(mk_len(v), n)
        return mk_phi([(g, Some(v)), (neg(g), NONE)])

    E["generic_array::GenericArray::<T, N>::from_exact_iter"] = ga_opt
    for n in ("from_slice", "clone_from_slice", "from_mut_slice"):
        E["generic_array::GenericArray::<T, N>::" + n] = ga


def _zr(c):
    from .models import dec, Ok

    b = c.dv(0)
    if b.op == "enc" and b.a[0] == "Zr":
        return Ok(b.a[1])
    return Ok(app("zrbytes", b))


def _fromdec(v):
    if v.op == "str":
        try:
            return const(int(v.a[0]))
        except ValueError:
            return app("from_dec", v)
    if v.op == "enc" and v.a[0] == "dec":
        return v.a[1]
    return app("from_dec", v)
