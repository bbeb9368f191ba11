"""Claimed properties: technique and note; and the reasons for the others."""
DEFAULT_NOTE = (
    "Sound for the properties of the modelled MIR under the models of std and crypto primitives (pairing, hash, big numbers, AEAD treated as "
    "algebraic or uninterpreted operations). Assumes the leaf libraries implement those operations; imprecise forms are reported as undecided, not as alarms."
)
CONTRACT = "forward abstract interpretation of MIR to gated algebraic normal forms; entailment of reviewed equational contracts"
TRANS = CONTRACT + "; transcript-order comparison"

CLAIMS = {
    "C01": (CONTRACT, None),
    "C02": (CONTRACT, None),
    "C03": (CONTRACT, None),
    "C04": (TRANS, None),
    "C05": (TRANS, None),
    "C06": (CONTRACT, None),
    "C07": (CONTRACT, None),
    "C08": (CONTRACT, None),
    "C09": (CONTRACT, None),
    "B01": (CONTRACT, None),
    "B02": (CONTRACT, None),
    "B03": (CONTRACT, None),
    "P01": (CONTRACT, None),
    "P02": (CONTRACT, None),
    "G01": (CONTRACT, None),
    "G02": (CONTRACT, None),
    "V01": (CONTRACT, None),
    "S01": (CONTRACT, None),
    "S02": (CONTRACT, None),
    "K01": (CONTRACT, None),
    "E01": (CONTRACT, None),
    "E02": (CONTRACT + "; symbolic length comparison of produced ciphertexts with decryption guards and slices", None),
    "X01": ("flow analysis of every fallible outcome through MIR (each Result, Option verdict and boolean verdict must reach the caller or a branch that fails); acceptance-condition entailment for verification functions", "Ways of consuming an outcome that are neither propagation nor a recognised drop are reported as undecided."),
    "A01": (CONTRACT, "The operations of openssl and amcl themselves are uninterpreted: what is decided is which of them is applied to which operands, in which order, with which modulus, and what is done with the outcome."),
    "T01": (CONTRACT, None),
    "T02": (CONTRACT, None),
    "R01": (TRANS, None),
    "R02": (CONTRACT, None),
    "Q01": ("random-source classification of every call site by operation and generator type; " + CONTRACT + " of every generating function (seed provenance)", "Sources inside openssl, amcl_wrapper, ed25519-dalek and x25519-dalek are trusted to be what their documentation says. Only the compiled configuration is analysed."),
    "Z01": ("abstract interpretation of every Drop implementation of the secret-type table to a post-state in which each secret field is overwritten; whole-program scan for destructor bypass", "Decides the destructors and that they are not bypassed; copies left in registers, moved-from stack slots or inside third-party types are out of reach. The table lists the types the library declares as wiping (CL and BLS(bn254) private keys declare none)."),
    "F01": ("forward abstract interpretation of every exported function with pointer-use events; null-check entailment at each use", None),
    "F02": (CONTRACT + "; handle-type consistency over pointer casts; publish-only-on-success dataflow rule", None),
    "D01": ("abstract interpretation of every decoder with an event at each panic site (bounds, slices, overflow, unwrap, explicit panics, partial library calls, allocations); reachability by linear inequalities over input lengths and decoded counts", "Reports a site only when the inequalities show an input that reaches it; sites guarded by facts outside that domain (for example the textual checks of the pairing types, sizes chosen by a type parameter) are listed as undecided. Conversions from fixed-size arrays that cannot return an error by signature are not decoders."),
    "D02": ("composition of every decoder with the normal form of its encoder by forward abstract interpretation; derived-serde name agreement; byte-string visitor rule; encoder/decoder contracts as the fallback", None),
}

PENDING = "check under construction"
NOT_APPLICABLE = {
    "N01": "numeric equivalence of two big-number back ends quantifies over runtime integer values; no static argument in reach bounds it, and only one back end is compiled here",
    "Y01": "data-independent timing depends on the code the compiler and the big-number libraries emit; not decidable from this source (the primitives live in external crates)",
    "M01": "completeness of honest runs over all runtime inputs quantifies over group orders, random draws and library arithmetic that no sound static argument here bounds",
}
import json, os
for _l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")):
    _p = json.loads(_l)["id"]
    if _p not in CLAIMS and _p not in NOT_APPLICABLE:
        NOT_APPLICABLE[_p] = PENDING
