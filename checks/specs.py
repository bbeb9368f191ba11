"""Which functions carry a reviewed contract, per property.

(function, modes, accepting variant or None)
g = every conjunct of the contracted acceptance condition is required
c = nothing more is required (completeness)
v = the value returned on acceptance
p = the post-state of &mut parameters
"""

def F(prefix, names, modes, acc=None):
    return [(prefix + n, modes, acc) for n in names.split()]


BV = "bbs::pok_vc::"
ZV = "zmix::commitments::pok_vc::"
PSG = "zmix::signatures::ps::"
DG = "zmix::signatures::delg_cred_cdd::"
GS = DG + "groth_sig::"
AT = DG + "attribute_token::"
IS = DG + "issuer::"
CS = "zmix::verifiable_encryption::cs_verifiable_encryption::"

SPECS = {}

SPECS["B01"] = (
    F("bbs::signature::Signature::", "verify", "g")
    + F("bbs::signature::Signature::", "new", "gv")
    + F("bbs::signature::Signature::", "validate", "g")
    + F("bbs::keys::", "PublicKey::validate SecretKey::validate", "g")
    + F("bbs::keys::", "DeterministicPublicKey::new DeterministicPublicKey::to_public_key generate PublicKey::message_count", "gv")
    + F("bbs::issuer::Issuer::", "sign new_keys new_short_keys", "gv")
)
SPECS["B02"] = (
    [("bbs::pok_sig::PoKOfSignatureProof::verify", "g", "Success")]
    + F("bbs::pok_sig::", "PoKOfSignature::init PoKOfSignature::to_bytes PoKOfSignature::gen_proof PoKOfSignatureProof::get_bytes_for_challenge PoKOfSignatureProof::get_resp_for_message PoKOfSignatureProofStatus::is_valid", "gv")
    + F("bbs::verifier::Verifier::", "verify_signature_pok new_proof_request create_challenge_hash generate_proof_nonce", "gv")
    + F("bbs::prover::Prover::", "commit_signature_pok create_challenge_hash generate_signature_pok new_link_secret", "gv")
    + F("bbs::messages::", "ProofMessage::get_message", "v")
)
SPECS["B03"] = (
    F("bbs::", "BlindSignatureContext::verify", "g")
    + F("bbs::signature::BlindSignature::", "new to_unblinded", "gv")
    + F("bbs::signature::Signature::", "generate_blinding", "gv")
    + F("bbs::issuer::Issuer::", "blind_sign generate_signing_nonce", "gv")
    + F("bbs::prover::Prover::", "new_blind_signature_context complete_signature", "gv")
    + F("bbs::CommitmentBuilder::", "new finalize", "v")
)
SPECS["P02"] = (
    F(BV, "ProofG1::verify ProofG1::verify_complete_proof", "g")
    + F(BV, "ProofG1::get_challenge_contribution ProverCommittingG1::new ProverCommittingG1::finish ProverCommittingG1::get_index ProverCommittedG1::to_bytes ProverCommittedG1::gen_challenge<alloc::vec::Vec<u8>> ProverCommittedG1::gen_proof".replace("ProverCommittedG1::gen_challenge<alloc::vec::Vec<u8>> ", ""), "gv")
    + [(BV + "ProverCommittedG1::gen_challenge<alloc::vec::Vec<u8>>", "gv", None)]
    + F(ZV, "ProofG1::verify ProofG1::verify_complete_proof ProofG2::verify ProofG2::verify_complete_proof", "g")
    + F(PSG, "blind_signature::ProofSignatureGroup::verify blind_signature::ProofSignatureGroup::verify_complete_proof pok_sig::ProofOtherGroup::verify pok_sig::ProofOtherGroup::verify_complete_proof", "g")
)
for _p, _g in ((ZV, "G1"), (ZV, "G2"), (PSG + "blind_signature::", "SignatureGroup"), (PSG + "pok_sig::", "OtherGroup")):
    SPECS["P02"] += F(_p, "ProverCommitting%s::new ProverCommitting%s::commit ProverCommitting%s::finish ProverCommitting%s::get_index ProverCommitted%s::to_bytes ProverCommitted%s::gen_challenge ProverCommitted%s::gen_proof" % ((_g,) * 7), "gvp")
SPECS["P01"] = (
    F(PSG, "signature::Signature::verify pok_sig::PoKOfSignatureProof::verify signature::Signature::check_sigkey_and_messages_compat signature::Signature::check_verkey_and_messages_compat blind_signature::BlindSignature::check_blinding_key_and_messages_compat", "g")
    + F(PSG, "signature::Signature::new signature::Signature::sign_with_sigma_1_generated_from_given_exp signature::Signature::to_bytes keys::Params::new keys::Verkey::msg_count keys::keygen ate_2_pairing blind_signature::BlindingKey::new blind_signature::BlindSignature::new blind_signature::BlindSignature::new_from_paper blind_signature::BlindSignature::unblind pok_sig::PoKOfSignature::init pok_sig::PoKOfSignature::to_bytes pok_sig::PoKOfSignature::gen_proof pok_sig::PoKOfSignatureProof::get_bytes_for_challenge pok_sig::PoKOfSignatureProof::get_resp_for_message", "gv")
)
SPECS["G01"] = (
    F(GS, "Groth1Sig::verify Groth1Sig::verify_batch Groth2Sig::verify Groth2Sig::verify_batch Groth1Verkey::verify_proof_of_knowledge_of_sigkey Groth2Verkey::verify_proof_of_knowledge_of_sigkey", "g")
    + F(GS, "GrothS1::setup GrothS1::keygen GrothS2::setup GrothS2::keygen Groth1Sig::new Groth1Sig::randomize Groth2Sig::new Groth2Sig::randomize Groth1Verkey::initiate_proof_of_knowledge_of_sigkey Groth1Verkey::finish_proof_of_knowledge_of_sigkey Groth2Verkey::initiate_proof_of_knowledge_of_sigkey Groth2Verkey::finish_proof_of_knowledge_of_sigkey", "gv")
)
SPECS["G02"] = (
    F(IS, "CredLinkOdd::verify CredLinkOdd::validate CredLinkEven::verify CredLinkEven::validate CredChain::verify_last_odd_delegation CredChain::verify_last_even_delegation CredChain::verify_delegations CredChain::verify_delegations_batched", "g")
    + F(IS, "CredLinkOdd::has_verkey CredLinkEven::has_verkey", "g")
    + F(IS, "CredLinkOdd::attribute_count CredLinkEven::attribute_count EvenLevelIssuer::new EvenLevelIssuer::keygen EvenLevelIssuer::delegate OddLevelIssuer::new OddLevelIssuer::keygen OddLevelIssuer::delegate CredChain::new CredChain::get_odd_link CredChain::get_even_link CredChain::extend_with_odd CredChain::extend_with_even CredChain::get_truncated RootIssuer::keygen RootIssuer::delegate", "gvp")
    + F(AT, "AttributeTokenComm::validate AttributeTokenResp::validate", "g")
    + F(AT, "AttributeToken::<'a>::new AttributeToken::<'a>::commitment AttributeToken::<'a>::response AttributeToken::<'a>::gen_challenge AttributeToken::<'a>::reconstruct_commitment AttributeToken::<'a>::commitment_with_precomputation_on_setup_params AttributeToken::<'a>::commitment_with_precomputation AttributeToken::<'a>::reconstruct_commitment_with_precomputed_vals PrecompOnSetupParams::new PrecompOnCredChain::new PrecompForCommitmentReconstitution::new AttributeTokenComm::to_bytes", "gvp")
)
SPECS["V01"] = (
    F(CS, "decrypt encrypt encrypt_and_prove_phase_1 encrypt_and_prove_phase_2 reconstruct_blindings_ciphertext PaillierGroup::new PaillierGroup::abs PaillierGroup::rand PaillierGroup::rand_for_enc PaillierGroup::exponentiate PaillierGroup::sqr CSKeypair::new", "gv")
)

CL = "ursa::cl::"
PV = CL + "verifier::ProofVerifier::"
PB = CL + "prover::ProofBuilder::"
IU = CL + "issuer::Issuer::"
PR = CL + "prover::Prover::"
HASHEQ = r"^bnbytes\(hash\("
SPECS["C01"] = (
    [(PV + "verify", "g", None)]
    + F(PV, "add_sub_proof_request", "gp")
    + F(CL + "helpers::", "calc_teq<S> calc_tne<S> create_tau_list_expected_values create_tau_list_values bignum_to_group_element group_element_to_bignum", "v")
    + F(CL + "hash::", "get_hash_as_int", "v")
)
SPECS["C02"] = (
    [(PV + "verify", "g", None, r"revealed_attrs|predicates|attrs|common_attributes|len\(proof")]
    + F(PV, "add_sub_proof_request add_common_attribute", "gp")
    + F(CL, "SubProofRequestBuilder::new SubProofRequestBuilder::add_revealed_attr SubProofRequestBuilder::add_predicate SubProofRequestBuilder::finalize SubProof::revealed_attrs", "gvp")
)
SPECS["C03"] = (
    [(PV + "verify", "g", None, r"ne_proofs|" + HASHEQ)]
    + F(CL + "helpers::", "calc_tne<S>", "v")
    + F(CL, "Predicate::get_delta Predicate::get_delta_prime Predicate::is_less PrimaryPredicateInequalityInitProof::as_list PrimaryPredicateInequalityInitProof::as_tau_list", "v")
    + F(PB, "add_sub_proof_request finalize", "gvp")
)
SPECS["C04"] = (
    [(PV + "verify", "g", None, HASHEQ)]
    + F(PB, "add_sub_proof_request finalize", "gvp")
    + F(CL + "hash::", "get_hash_as_int", "v")
    + F(CL, "PrimaryInitProof::as_c_list PrimaryInitProof::as_tau_list NonRevocInitProof::as_c_list NonRevocInitProof::as_tau_list PrimaryEqualInitProof::as_list PrimaryEqualInitProof::as_tau_list PrimaryPredicateInequalityInitProof::as_list PrimaryPredicateInequalityInitProof::as_tau_list NonRevocProofCList::as_list NonRevocProofTauList::as_slice", "v")
)
SPECS["C05"] = (
    [(PV + "verify", "g", None, HASHEQ)]
    + F(CL + "helpers::", "create_tau_list_expected_values create_tau_list_values", "v")
    + F(CL, "NonRevocProofXList::as_list NonRevocProofXList::from_list NonRevocProofCList::as_list NonRevocProofTauList::as_slice", "v")
    + F(PB, "add_sub_proof_request finalize", "gvp")
)
SPECS["C06"] = (
    F(IU, "sign_credential sign_credential_with_revoc<RTA>", "gvp")
    + F(IU, "new_credential_def", "gv")
    + F(CL, "CredentialValuesBuilder::add_dec_known CredentialValuesBuilder::add_dec_hidden CredentialValuesBuilder::add_dec_commitment CredentialValuesBuilder::add_value_known CredentialValuesBuilder::add_value_hidden CredentialValuesBuilder::add_value_commitment CredentialValuesBuilder::finalize CredentialSchemaBuilder::add_attr CredentialSchemaBuilder::finalize NonCredentialSchemaBuilder::add_attr NonCredentialSchemaBuilder::finalize CredentialValue::is_known CredentialValue::is_hidden CredentialValue::is_commitment CredentialValue::value", "gvp")
)
SPECS["C07"] = (
    F(PR, "blind_credential_secrets process_credential_signature", "gvp")
    + F(CL, "CredentialPublicKey::build_from_parts CredentialPublicKey::get_primary_key CredentialPublicKey::get_revocation_key CredentialSignature::extract_index", "gv")
)
SPECS["C08"] = (
    F(PR, "new_master_secret blind_credential_secrets new_proof_builder", "gv")
    + F(PB, "add_common_attribute add_sub_proof_request finalize", "gvp")
    + F(CL + "helpers::", "get_mtilde<S> bn_rand bn_rand_range generate_v_prime_prime gen_x random_qr generate_safe_prime generate_prime_in_range", "v")
    + F(CL, "new_nonce", "v")
)
SPECS["C09"] = (
    F(IU, "new_revocation_registry_def revoke_credential<RTA> recovery_credential<RTA> update_revocation_registry<RTA> sign_credential_with_revoc<RTA>", "gvp")
    + F(CL, "Witness::new<RTA> Witness::update<RTA> RevocationRegistryDelta::from_parts RevocationRegistryDelta::merge RevocationTailsGenerator::count RevocationTailsGenerator::try_next RevocationTailsGenerator::new SimpleTailsAccessor::new", "gvp")
    + [(CL + "<impl ursa::pair::PointG2>::new_tail", "v", None)]
)

U = "ursa::"
SG = U + "signatures::"
SS = "as ursa::signatures::SignatureScheme>::"


def names(*xs):
    return list(xs)


SPECS["S01"] = F(
    U + "bls::",
    "Bls::sign Bls::verify Bls::verify_proof_of_posession Bls::verify_multi_sig Bls::_verify_signature<T> MultiSignature::new VerKey::new SignKey::new ProofOfPossession::new Generator::new Signature::from_bytes MultiSignature::from_bytes VerKey::from_bytes SignKey::from_bytes ProofOfPossession::from_bytes Generator::from_bytes",
    "gv",
)
for _m in ("normal", "small"):
    _b = SG + "bls::%s::" % _m
    SPECS["S01"] += (
        F(_b, "Signature::verify<A> Signature::verify_multi Signature::batch_verify AggregatedSignature::verify<A> AggregatedSignature::verify_no_rk<A> AggregatedSignature::batch_verify ProofOfPossession::verify", "gv")
        + F(_b, "generate hash_msg<A> hash_key hash_to_point<A> PublicKey::new PublicKey::combine AggregatedPublicKey::new AggregatedSignature::new Signature::new<A> Signature::new_with_rk_mitigation<A> Signature::combine ProofOfPossession::new", "gvp")
        + [("<%sAggregatedPublicKey as core::convert::From<&[%sPublicKey]>>::from" % (_b, _b), "v", None)]
        + [("<%sBls %s%s" % (_b, SS, n), "gv", None) for n in ("keypair", "sign", "verify")]
    )
SPECS["S02"] = (
    [("<%sed25519::Ed25519Sha512 %s%s" % (SG, SS, n), "gv", None) for n in ("new", "keypair", "sign", "verify", "signature_size", "private_key_size", "public_key_size")]
    + F(SG + "ed25519::Ed25519Sha512::", "ver_key_to_key_exchange sign_key_to_key_exchange expand_keypair", "gv")
    + [("<%ssecp256k1::EcdsaSecp256k1Sha256 %s%s" % (SG, SS, n), "gv", None) for n in ("new", "keypair", "sign", "verify", "signature_size", "private_key_size", "public_key_size")]
    + [("<%ssecp256k1::EcdsaSecp256k1Sha256 as ursa::signatures::EcdsaPublicKeyHandler>::%s" % (SG, n), "gv", None) for n in ("public_key_compressed", "public_key_uncompressed", "parse", "public_key_uncompressed_size")]
    + F(SG + "secp256k1::EcdsaSecp256k1Sha256::", "normalize_s", "gvp")
)

# "re:" entries are expanded by update.py to every matching public function of the current tree
EN = U + "encryption::"
SPECS["K01"] = (
    [("<%skex::%s as ursa::kex::KeyExchangeScheme>::%s" % (U, t, n), "gv", None) for t in ("x25519::X25519Sha256", "secp256k1::EcdhSecp256k1Sha256") for n in "new keypair compute_shared_secret public_key_size private_key_size shared_secret_size".split()]
)
SPECS["E01"] = (
    [("re:^<ursa::encryption::symm::.* as aead::(NewAead|Aead)>::", "gcv", None)]
    + [("re:^ursa::encryption::symm::SymmetricEncryptor::<E>::", "gvp", None)]
    + [("re:^ursa::encryption::symm::(Encryptor|EncryptorType)::.*(<Self.*>|<A>|size)$", "gv", None)]
    + [("re:^<D as ursa::encryption::symm::DynEncryptor>::", "gv", None)]
    + [("re:^<ursa::encryption::symm::.* as (core::default::Default|core::cmp::PartialEq|core::str::traits::FromStr)>::(default|eq|from_str)", "gv", None)]
    + F(EN, "random_vec random_bytes<T> symm::read_buffer<I>", "gvp")
)
SPECS["T01"] = (
    [("re:^ursa::sharing::shamir::", "gvp", None)]
    + [("re:^<ursa::sharing::shamir::", "gvp", None)]
    + [("re:^ursa_sharing::(Polynomial|shamir)::", "gvp", None)]
    + [("re:^<ursa_sharing::shamir::Share as core::convert", "gvp", None)]
)
SPECS["T02"] = [("re:^ursa_sharing::(feldman|pedersen)::", "gvp", None), ("re:^<ursa_sharing::.*Verifier<.* as core::convert", "gvp", None), ("re:^ursa_sharing::ShareVerifier", "gvp", None)]
BP = "bulletproofs_amcl::"
SPECS["R01"] = (
    [("re:^bulletproofs_amcl::(ipp|utils::vector_poly|utils::gen_challenges|utils::get_generators|r1cs::linear_combination|r1cs::prover|r1cs::verifier)", "gvp", None)]
    + [("re:^<bulletproofs_amcl::r1cs::(prover|verifier)::.* as bulletproofs_amcl::", "gvp", None)]
    + [("re:^<merlin::transcript::Transcript as bulletproofs_amcl", "gvp", None)]
    + [("re:^<(bulletproofs_amcl::r1cs::linear_combination|amcl_wrapper).* as core::(ops|convert)", "gvp", None)]
)
SPECS["R02"] = [("re:^<?bulletproofs_amcl::r1cs::gadgets::", "gvp", None)]

# functions kept uninterpreted while the others of the same property are evaluated; each has its own contract
CUTS = {
    "R02": (
        r"^bulletproofs_amcl::r1cs::(prover::Prover|verifier::Verifier)::<[^>]*>::(new|commit|prove|verify)$",
        r"^<bulletproofs_amcl::r1cs::(prover|verifier)::(Prover|Verifier)<.* as bulletproofs_amcl::r1cs::constraint_system::ConstraintSystem>::",
        r"^bulletproofs_amcl::r1cs::gadgets::.*_(gadget|constraints)$",
        r"^bulletproofs_amcl::r1cs::gadgets::helper_constraints::.*::(mimc|enforce_mimc_2_inputs|Poseidon_permutation|Poseidon_hash_\d)$",
        r"^<bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::",
        r"^<amcl_wrapper.* as core::convert::From",
    ),
    "R01": (r"^bulletproofs_amcl::ipp::IPP::(create_ipp|verification_scalars)$",),
}

# the FFI layer is judged on its own: library functions stay uninterpreted
FFI_CUT = r"^<?(&mut |&)?ursa::(?!ffi|errors|utils)"
SPECS["F02"] = [("re:^ursa::ffi::", "gcvp", None)] + [
    ("ursa::errors::<impl core::convert::From<ursa::errors::UrsaCryptoErrorKind> for ursa::ffi::ErrorCode>::from", "v", None),
    ("<ursa::errors::UrsaCryptoErrorKind as core::convert::From<ursa::ffi::ErrorCode>>::from", "v", None),
    ("ursa::errors::<impl core::convert::From<ursa::errors::UrsaCryptoError> for ursa::ffi::ErrorCode>::from", "v", None),
]

# the big-number and pairing wrappers are modelled by name inside every other contract; these are their own
SPECS["LEAF"] = (
    [("re:^ursa::(bn|pair)::", "gvp", None)]
    + [("re:^<ursa::(bn::BigNumber|pair::\\w+) as core::(cmp|default|convert|ops)", "gvp", None)]
    + F("ursa::cl::helpers::", "four_squares bitwise_or_big_int", "gv")
)
SPECS["A01"] = [("re:^<?ursa::(bn|pair)::.*::(is_\\w+|eq|ne|lt|gt|le|ge)(<.*>)?$", "gcvp", None)] + SPECS["LEAF"] + F(CL + "helpers::", "encode_attribute transform_u32_to_array_of_u8 bignum_to_group_element", "gv")
CUTS["Q01"] = CUTS["R02"]
SPECS["Q01"] = (
    [("rand:", "vp", None)]
    + [("<%s>::keypair" % t, "gv", None) for t in (SG + "ed25519::Ed25519Sha512 as ursa::signatures::SignatureScheme", SG + "secp256k1::EcdsaSecp256k1Sha256 as ursa::signatures::SignatureScheme", U + "kex::x25519::X25519Sha256 as ursa::kex::KeyExchangeScheme", U + "kex::secp256k1::EcdhSecp256k1Sha256 as ursa::kex::KeyExchangeScheme")]
    + F(CL + "helpers::", "bn_rand bn_rand_range generate_v_prime_prime gen_x random_qr generate_safe_prime generate_prime_in_range get_mtilde<S>", "v")
    + F(CL, "new_nonce", "v")
)
SPECS["E02"] = SPECS["E01"]
SPECS["D02"] = (
    [("codec:", "gv", None)]
    + F("bbs::", "revealed_to_bitvector bitvector_to_revealed", "v")
    + [("<%s%s as serde_core::de::Deserialize<'a>>::deserialize<D>" % (CL, t), "gv", None) for t in ("PrimaryEqualProof", "CredentialPrimaryPublicKey")]
    + [("re:^%s\\w+::try_clone$" % CL, "gv", None)]
)
