#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
K="keypair/src/"; T="trust-graph/src/"; S="service/src/"
p("C01","Signatures verify only for the exact key, message and signature bytes",
 "For every supported key type, a signature made by a key pair over a message verifies under that pair's public key, and stops verifying when the message or the public key is replaced by any other value or the signature bytes are damaged (the only other accepted bytes are the scheme's own equivalent signatures, such as the negated s of ECDSA). The accept/reject decision agrees with the independent libp2p identity implementation for the same key, message and signature, whatever bytes are presented as a signature.",
 ["inputs"],"all Ed25519, secp256k1 and RSA keys, all messages, all signature byte strings (valid, bit-flipped, truncated, extended, swapped between messages, keys and key types, re-encoded)",
 "The tests sign one or two messages per key type and check the positive case plus one wrong key; they never present a well-formed signature over a different message for every key type.",
 [K+"ed25519.rs",K+"secp256k1.rs",K+"rsa.rs",K+"public_key.rs",K+"key_pair.rs"],
 [("KeyPair::sign / PublicKey::verify dispatch",K+"public_key.rs, "+K+"key_pair.rs"),("per-scheme verification result handling",K+"{ed25519,secp256k1,rsa}.rs")],observe=["KeyPair::sign","PublicKey::verify","KeyPair::verify"])
p("C02","Public keys and signatures round-trip through every external form",
 "Encoding a public key (tagged bytes, base58, serde in text and binary formats, libp2p key, and peer id for key types inlined in peer ids) or a signature (tagged bytes, raw bytes plus type, serde) and reading it back yields an equal value of the same key type. Distinct keys have distinct encodings and peer ids, equal keys have equal hashes, and the peer id is the one libp2p derives for the same key.",
 ["inputs"],"all public keys of all three types, all signature byte strings with each type tag",
 "Tests round-trip one random key per type through one form; leading zero bytes, odd/even curve points, RSA sizes, base58 and serde forms are not covered.",
 [K+"public_key.rs",K+"signature.rs",K+"secp256k1.rs",K+"rsa.rs",K+"lib.rs",T+"public_key_hashable.rs"],
 [("tag byte + raw key encode/decode",K+"public_key.rs"),("Signature encode/decode/from_bytes",K+"signature.rs"),("hashable wrapper Display/FromStr/serde/Hash",T+"public_key_hashable.rs"),("X.509/PKCS1 conversion",K+"rsa.rs")])
p("C03","Secret keys import, export and convert without changing identity",
 "A key pair exported to bytes, to its secret key, or to a libp2p key pair and imported again is the same identity: same public key, same peer id, same key type, and each side verifies what the other signs. Import succeeds exactly for well-formed secrets of the stated type, rejects anything else with an error, and importing from a caller-owned DER or PKCS8 buffer wipes that buffer on success. Printing a key pair, a secret key or the error of a failed import never shows the secret.",
 ["inputs"],"all Ed25519 and secp256k1 secrets, the RSA key files shipped with the repository, all malformed byte strings of any length offered as a secret of any type",
 "Tests convert one random pair per type; malformed secrets, mismatched halves, wrong type tags and buffer wiping are not exercised.",
 [K+"key_pair.rs",K+"ed25519.rs",K+"secp256k1.rs",K+"rsa.rs"],
 [("from_vec/to_vec/from_secret_key/secret",K+"key_pair.rs"),("libp2p conversions incl. RSA transmute",K+"key_pair.rs"),("secret decoding and zeroize",K+"{ed25519,secp256k1,rsa}.rs")])
p("C04","Decoding untrusted data never crashes and never mis-reads",
 "Every parser of keys, signatures, trusts, certificates and peer ids - binary, base58, line-oriented text, serde - answers any input with a value or an error, never a panic. Whenever it returns a value, encoding that value and parsing again gives the same value, and a binary trust or certificate that was cut short is never accepted.",
 ["inputs"],"arbitrary byte strings and strings, plus structure-aware corruptions (truncation, extension, length and tag edits, splices) of valid encodings",
 "Tests decode only what they have just encoded.",
 [K+"public_key.rs",K+"signature.rs",K+"key_pair.rs",T+"trust.rs",T+"certificate.rs",T+"certificate_serde.rs",T+"public_key_hashable.rs"],
 [("length checks",T+"trust.rs, "+T+"certificate.rs"),("tag dispatch",K+"public_key.rs, "+K+"signature.rs")])
p("C05","A trust is accepted only if unaltered, signed by its issuer and unexpired",
 "Verifying a trust against an issuer at a given time succeeds exactly when the issuer's key signed that very recipient, expiration and creation time and the expiration is not before the given time. Changing any one of recipient, expiration, creation time, signature or issuer makes verification fail. (Times are whole seconds, the resolution of every stored and signed form; the library's own clock gives those of the system's clock.)",
 ["inputs"],"all issuers and recipients of all key types, all second-resolution times over the full 64-bit range, all current times including the boundaries around expiration",
 "Tests check one valid and a couple of tampered trusts, at small times and with one key type.",
 [T+"trust.rs"],[("signature_bytes covers every field",T+"trust.rs Trust::signature_bytes"),("expiry comparison",T+"trust.rs Trust::verify")],observe=["Trust::create","Trust::verify"])
p("C06","A revocation is accepted only if unaltered and signed by its revoker",
 "Verifying a revocation succeeds exactly when the stated revoker's key signed that very revoked peer and revocation time; changing any field makes it fail. A signature made for a trust can never be reused as a revocation nor the reverse. (Times are whole seconds.)",
 ["inputs"],"all revokers and revoked keys of all key types, all second-resolution times",
 "One positive and one wrong-signature case are tested; field tampering and cross-use of signatures are not.",
 [T+"revoke.rs",T+"trust.rs"],[("signature_bytes with length prefix",T+"revoke.rs"),("Revocation::verify",T+"revoke.rs")])
p("C07","Certificate verification accepts exactly well-linked live chains to a root",
 "Verifying a certificate succeeds exactly when it is non-empty, its first trust is self-signed by a key in the trusted-roots list, every later trust is signed by the previous trust's recipient, and none is expired at the given time. Reordering, dropping, duplicating, substituting or tampering with any trust so that one of those conditions fails is rejected.",
 ["inputs"],"all chains of one up to a few dozen trusts with arbitrary valid or corrupted links, all sets of trusted roots, all times",
 "Tests verify a handful of short chains with one defect each.",
 [T+"certificate.rs",T+"trust.rs"],[("Certificate::verify link loop",T+"certificate.rs")])
p("C08","Issuing a certificate extends only a valid chain, from its issuer's place",
 "Issuing succeeds exactly when the new trust does not expire before it was created, the extended certificate is itself valid at the given time, and the issuer is one of its members; a root certificate (whose two trusts bear the given creation time) or one built from a root trust is valid by construction. The result is the original chain up to and including the issuer's last position plus the new trust, so it verifies whenever the extended certificate does and the new trust is live; otherwise an error is returned and nothing panics.",
 ["inputs"],"all base certificates (valid, expired, broken, empty), issuers inside and outside the chain including repeated members, all time combinations",
 "Tests issue from the first, middle and last member of three fixed chains.",
 [T+"certificate.rs"],[("issue / issue_with_trust / issue_root / new_from_root_trust",T+"certificate.rs")])
p("C09","Trusts, revocations and certificates survive serialization unchanged",
 "Converting a trust or certificate to its binary form, its text form, or its serde form and back yields an equal value that verifies exactly like the original; the same holds for revocations and stored relations in serde form. Different values never share an encoding, and a form that a writer did not take as a whole is reported as failed. (The binary form of a certificate is for two or more trusts; shorter ones are refused when read.) (Times are whole seconds.)",
 ["inputs"],"all trusts and certificates over all key types, chain lengths and 64-bit second-resolution times",
 "Tests round-trip two certificates of Ed25519 keys with small times.",
 [T+"trust.rs",T+"certificate.rs",T+"certificate_serde.rs",T+"revoke.rs",T+"trust_relation.rs"],
 [("binary encode/decode",T+"trust.rs, "+T+"certificate.rs"),("text Display/FromStr",T+"certificate.rs"),("serde vec of certificates",T+"certificate_serde.rs")])
p("C10","Every certificate the graph returns is genuine, live, rooted and unrevoked",
 "After any history of operations, every certificate returned for a peer verifies cryptographically at the query time against the current roots, ends in that peer, has at least two trusts, visits no peer twice (beyond a peer's own self-signed trust), exceeds the root's maximum chain length nowhere, contains no trust that was superseded or revoked, and has no member revoked by an earlier member of the chain. No certificate is returned twice.",
 ["histories","inputs"],"all histories of root setting, trust and certificate insertion, revocation and passing time over graphs with cycles, several roots, self-signed trusts and mixed key types; all queried peers and times",
 "The graph tests of the repository need a wasm runtime and use single fixed chains; none of the 29 stable tests touches the graph.",
 [T+"trust_graph.rs",T+"chain.rs",S+"storage_impl.rs"],
 [("breadth-first chain search",T+"trust_graph.rs bf_search_paths"),("chain extension rule and revocation set",T+"chain.rs")],
 state=[dict(name="trust relations",meaning="latest relation per (issued_for, issued_by)",where=S+"storage_impl.rs"),dict(name="roots",meaning="weight factor per root key",where=S+"storage_impl.rs")],observe=["TrustGraph::get_all_certs","service get_all_certs"])
p("C11","The graph finds every valid certificate",
 "After any history, querying a peer's certificates returns every chain of currently stored, live, unrevoked trusts that leads from a root's self-signed trust to that peer within the root's maximum chain length; none is missed because of cycles, other roots, other queries, insertion order or the length of the chain. Queries always terminate with work bounded by the number of such partial chains.",
 ["histories","inputs"],"as C10, including dense cyclic graphs, long linear chains up to the maximum length, and several overlapping roots",
 "Finding the chains of one fixed linear graph cannot show that none is missed in others.",
 [T+"trust_graph.rs",T+"chain.rs"],[("bf_search_paths",T+"trust_graph.rs"),("Chain::can_be_extended_by",T+"chain.rs")])
p("C12","A peer's weight is determined by its best certificate to a root",
 "A peer's weight is the maximum of its own root weight (2 to the power of the root's maximum chain length, capped at 16) and, over all its valid certificates, the root's weight halved once per trust after the root's; it is zero when there is neither. It is always zero or a power of two, and never exceeds half the best weight among those who trust it unless the peer is itself a root.",
 ["histories","inputs","configurations"],"all histories as in C10 and all maximum chain lengths over the full 32-bit range",
 "Weights are checked for a few fixed graphs, in tests that do not run here.",
 [T+"trust_graph.rs"],[("weight, certificates_weight_factor, get_weight_from_factor",T+"trust_graph.rs")])
p("C13","Adding a trust is admitted only when verified and its issuer has weight",
 "A trust enters the graph only if it verifies against the stated issuer at the given time and the issuer's current weight leaves it a positive weight; the call then reports that weight (the issuer's own for a self-signed trust, half of it otherwise). A trust that fails verification is refused with an error, one without weight is reported as weight zero, and in both cases no certificate, weight or revocation visible to anyone changes.",
 ["histories","inputs"],"all graph histories followed by any trust: valid, tampered, expired, wrongly attributed, from unknown or exhausted issuers",
 "Only accepted insertions are exercised by tests.",
 [T+"trust_graph.rs",S+"service_api.rs"],[("add_trust, get_next_weight",T+"trust_graph.rs")])
p("C14","For each issuer and recipient, the latest trust or revocation wins",
 "For each ordered pair of peers only the relation with the greatest creation time counts, whether trust or revocation: a strictly later one replaces the earlier and an earlier or equally old one changes nothing. Hence delivering the same admissible relations in any order, or repeatedly, leaves the same certificates, weights and revocations (ties in time keep the first delivered).",
 ["histories","schedules"],"all multisets of trusts and revocations between a set of peers, all delivery orders and duplications, all 64-bit times",
 "Tests try one renewal and one stale trust.",
 [S+"storage_impl.rs",T+"trust_graph.rs"],[("update_relation timestamp comparison",S+"storage_impl.rs"),("primary key (issued_for, issued_by)",S+"storage_impl.rs create_tables")])
p("C15","A revocation cuts every chain through its revoker, until re-trusted",
 "Once an authentic revocation of C by A is accepted, no returned certificate has A anywhere before C, no matter how many peers are between them and in all later states, while certificates in which A does not precede C are unaffected. It is undone only by a later trust from A to C, is never dropped by expiry or clean-up, and an inauthentic revocation is refused and changes nothing.",
 ["histories"],"all graph histories with revocations by any member, non-member, root, or the peer itself, at any distance, followed by re-trusting, other insertions and passing time",
 "Tests cover a direct and one indirect revocation at a fixed distance.",
 [T+"trust_graph.rs",T+"chain.rs",T+"revoke.rs",S+"storage_impl.rs"],[("revoked_by set carried by each partial chain",T+"chain.rs"),("TrustGraph::revoke",T+"trust_graph.rs")])
p("C16","Expired trusts never count, live trusts never vanish",
 "At any query time, a trust contributes to certificates and weights only if its expiration is later than that time, and a stored trust that is still live is never discarded by clean-up, whatever its 64-bit expiration value. A trust seen as expired by some query stays gone for later queries.",
 ["histories","inputs"],"all histories with advancing time, all expirations and query times over the full 64-bit range, including boundaries and the maximum value used for root certificates",
 "Tests use expirations within seconds of a small current time.",
 [S+"storage_impl.rs",T+"trust_graph.rs"],[("remove_expired",S+"storage_impl.rs"),("garbage collection before each search",T+"trust_graph.rs get_all_certs")])
p("C17","Issuer-restricted queries are exactly the matching part of the full answer",
 "The certificates of a peer restricted to an issuer are exactly those certificates of the unrestricted query whose chain contains the issuer, and the restricted weight is the best weight among them (zero when there are none). The host-certificate queries equal the general ones asked for the host's peer id.",
 ["histories","inputs"],"all graph states, all (peer, issuer) pairs including roots, the peer itself and strangers",
 "Tests ask one pair in one linear chain.",
 [T+"trust_graph.rs",S+"service_api.rs"],[("get_all_certs_from, weight_from",T+"trust_graph.rs"),("get_host_certs(_from)",S+"service_api.rs")])
p("C18","Inserting a certificate equals adding its trusts in order, in any form",
 "Inserting a certificate leaves the graph exactly as adding its trusts one by one in chain order would, whether it is given as structured data or text; it fails if any of its trusts fails verification or the certificate is empty or malformed, and then nothing beyond the trusts preceding the bad one has been added. Inserting a certificate the graph itself returned changes nothing.",
 ["histories","inputs"],"all graph states and all certificates: valid, unrooted, expired, broken at any position, empty",
 "Certificate insertion is not covered by any test.",
 [T+"trust_graph.rs",S+"service_api.rs",S+"dto.rs"],[("TrustGraph::add",T+"trust_graph.rs"),("insert_cert, insert_cert_raw",S+"service_api.rs")])
p("C19","Only the service owner can set roots, and the last setting holds",
 "A request to set a root succeeds only when its initiator is the peer that created the service; any other request is refused and changes no weight or certificate. After an accepted request the named peer is a root with the requested maximum chain length, replacing an earlier setting for it.",
 ["histories","inputs"],"all sequences of root settings by owners and non-owners, repeated settings for the same peer, all lengths, malformed peer ids",
 "Two fixed calls are tested, in tests that do not run here.",
 [S+"service_api.rs",S+"storage_impl.rs"],[("owner comparison in set_root",S+"service_api.rs"),("roots table",S+"storage_impl.rs")])
p("C20","The service accepts only the host's own clock and no future-dated relation",
 "Every service call that takes the current time succeeds only if that argument's origin is the host's own timestamp builtin; a missing, foreign or otherwise produced timestamp, or one attached to another argument, makes the call fail. A trust or revocation created later than that time is refused; refused calls leave certificates, weights and revocations as they were.",
 ["inputs","histories"],"all time-taking calls, all combinations of origins for all their arguments, all relations dated before, at and after the current time",
 "Tests only use the correct origin.",
 [S+"misc.rs",S+"service_api.rs"],[("check_timestamp_tetraplets with argument index",S+"misc.rs, "+S+"service_api.rs"),("future-date checks in add_trust and revoke",S+"service_api.rs")])
p("C21","The service API is a faithful view of the trust graph",
 "For any history, the service's answers (weights, certificates, revocations, success or failure) equal those of a trust graph driven with the same operations, with data converted losslessly in both directions. A trust or revocation whose bytes were obtained from the service, signed by the issuer and issued by the service verifies, can be added, and is reported back unchanged; malformed arguments yield an error result, never a crash or a change.",
 ["histories","inputs"],"all sequences of service calls with valid and malformed arguments, all inlined key types",
 "The service tests need a wasm runtime absent here and use single flows.",
 [S+"service_api.rs",S+"dto.rs",S+"results.rs",S+"misc.rs",S+"storage_impl.rs"],[("DTO conversions",S+"dto.rs"),("result wrappers",S+"results.rs"),("SQL row mapping",S+"storage_impl.rs")])
p("C22","The graph's state survives service restarts",
 "Stopping and restarting the service at any point of a history changes no answer: roots with their maximum chain lengths, trusts, and revocations are all as before, and re-initialisation of an existing database loses nothing. A database written by an earlier release (same file, tables and values) is taken over with everything in it.",
 ["histories","crash_points"],"all histories with restarts at arbitrary points",
 "No test restarts the service.",
 [S+"storage_impl.rs",S+"main.rs",S+"misc.rs"],[("create_tables IF NOT EXISTS",S+"storage_impl.rs"),("SQLite persistence",S+"storage_impl.rs")])
p("C23","Storage failures are reported and never grant or corrupt trust",
 "If any single storage operation of a started service fails, or the process dies, during a call, the call reports failure (or the full correct answer) instead of a wrong weight or certificate list, does not crash, and afterwards the stored state is one reached by completing none, some leading part, or all of that call's insertions. Repeating the call then succeeds with the same outcome as without the failure.",
 ["fault_sequences","crash_points","histories"],"every storage event of every service call, failing before or after taking effect, or starting a crash, at any point of any history",
 "No test injects a failure.",
 [S+"storage_impl.rs",T+"trust_graph.rs",S+"service_api.rs",S+"results.rs"],[("error propagation with ?",S+"storage_impl.rs, "+T+"trust_graph.rs"),("single-statement updates",S+"storage_impl.rs")])
p("C24","Bundled root and certificates form a valid, reachable trust set",
 "The certificates shipped with the distribution and the builtin package all verify against the shipped root throughout their validity period, fit its maximum chain length, and, once inserted in any order, give each listed peer a positive weight before expiry and none after. The package's start script, run by the service's owner at any time, sets the root and inserts every certificate that is valid then, reports each step that fails, and does not let one failure keep the rest from being inserted.",
 ["configurations","inputs","schedules"],"all shipped certificates, all times around their validity, all insertion orders",
 "Nothing checks the shipped data.",
 ["distro/init_certs.json","builtin-package/on_start.json","builtin-package/on_start.air"],[("shipped certificate data","distro/init_certs.json, builtin-package/on_start.json")])
p("C25","Aqua library functions do on the node what they say, and report every failure",
 "For any peers, arguments, clocks and history, a function of the published Aqua library that changes a node (add_root_trust, add_trust, revoke, set_root, import_trust, import_revocation, insert_cert) either reports no error and has had exactly the effect described on the named node, or reports the error of the step that failed; no other node changes. Trusts and revocations it issues are dated by the relay's clock, signed by the issuer's own signature service and valid; the service always gets the clock of the node it runs on. Queries return the node's own answer. isFluencePeer is true exactly on hosts that hold a live three-trust certificate root - label - host of the shipped root and label, false on others, and an error if the query failed. Every declared function and record matches the service.",
 ["histories","inputs","fault_sequences"],"all histories of library functions on several nodes with any arguments, clock differences, refused signatures and storage failures",
 "There are no tests of the Aqua code.",
 ["aqua/trust-graph-api.aqua","aqua/trust-graph.aqua","aqua/misc.aqua","aqua/labelling.aqua"],[("Aqua functions","aqua/trust-graph-api.aqua"),("isFluencePeer","aqua/labelling.aqua"),("service declarations","aqua/trust-graph.aqua")])
p("C26","The admin tool issues a complete, valid certificate set or nothing",
 "For any Ed25519 root, issuer and example key, any list of nodes and any clock of the connected node, the admin tool writes into the builtin package's on_start.json exactly one certificate root - example and one certificate root - issuer - node per node, every trust signed by its issuer, issued at the connected node's time and valid for two years from then; if a call is not answered or the environment is unknown, it writes nothing and ends with a failure.",
 ["inputs","fault_sequences"],"all keys, node lists, environments, clocks and missing answers",
 "The tool has no tests.",
 ["admin/index.ts","admin/aqua/export.aqua"],[("certificate generation","admin/index.ts main"),("service calls","admin/aqua/export.aqua")])
p("C27","Written forms keep their layout, so existing data stays readable",
 "Whatever the keys, signatures, times and chain lengths, the forms in which data leaves the library have a fixed layout, so that data written by one release is read by another and by other implementations. A key or signature is its type tag (0 Ed25519, 1 RSA, 2 secp256k1) and raw bytes, in text base58 of that; the types are named ed25519, rsa and secp256k1. A binary trust is key length, key, signature length, signature, expiration and creation time (lengths one byte, times 8-byte little-endian seconds); its text is key, signature, expiration and creation time on a line each. A binary certificate is six zero bytes, the number of trusts, and each trust after its length (one byte each); its text is the lines 11 and 1111 and its trusts; a serde list of certificates is the list of their texts. A trust is signed over the SHA-256 of key and both times, a revocation over that of key length, key and time. What an independent writer produces by these rules is read as the value it stands for.",
 ["inputs"],"all keys, signatures, times and chains that fit the one-byte lengths",
 "Round trips alone cannot notice a layout that changes on both sides; no test holds stored data.",
 [K+"public_key.rs",K+"signature.rs",K+"key_pair.rs",T+"trust.rs",T+"certificate.rs",T+"certificate_serde.rs",T+"revoke.rs"],
 [("tags and raw bytes",K+"public_key.rs, "+K+"signature.rs"),("trust and certificate layout",T+"trust.rs, "+T+"certificate.rs"),("signed messages",T+"trust.rs, "+T+"revoke.rs")])
p("C28","The distribution crate hands out exactly what was packaged",
 "Whatever the packaged files hold, the distribution crate's module map gives each module's own code under the name by which the packaged configuration loads it (the database module before the service that uses it), its configuration and certificate constants are the packaged files, and its version is the package's. Its certificate data type reads any root, maximum chain length and certificates in the format of init_certs.json without changing, dropping or refusing anything, whatever the 64-bit times and 32-bit chain length, and writes them back the same.",
 ["inputs","configurations"],"all packaged modules and all certificate data",
 "The crate has no tests and is not built without the packaged files.",
 ["distro/src/lib.rs","distro/Config.toml"],[("modules and constants","distro/src/lib.rs"),("Certs, Cert, Trust","distro/src/lib.rs"),("list of modules","distro/Config.toml")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
