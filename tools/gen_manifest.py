#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run after editing)."""
import json, os
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("property-based differential testing against libp2p-identity","Random and tampered keys, messages and signatures of all three schemes; trusts libp2p-identity's decisions."),
"C02":("property-based round-trip and differential testing","Every external form of generated keys and signatures; RSA public keys of any size, RSA pairs limited to three fixed ones."),
"C03":("property-based round-trip and boundary testing","Generated Ed25519/secp256k1 secrets incl. scalar-range boundaries, damaged DER/PKCS8; RSA limited to three fixed pairs."),
"C04":("structure-aware fuzzing of every parser with a re-encode oracle","Mutated valid encodings and arbitrary input, panics caught; sampled, not exhaustive (prefixes of sampled values are)."),
"C05":("property-based testing against an independent verification rule","Generated trusts, boundary times, single-field tampering; trusts libp2p-identity for signatures; whole seconds only."),
"C06":("property-based testing against an independent verification rule","Generated revocations, tampering and cross-use incl. re-cut messages; one known finding for RSA-sized keys."),
"C07":("property-based testing against a reference chain verifier","Genuine chains with generated corruptions, root lists and times; usually up to 16 trusts, some of up to 280."),
"C08":("property-based testing against a reference model of issuing","Genuine and corrupted base certificates, usually up to 10 trusts, some of up to 280, with boundary times."),
"C09":("property-based round-trip and injectivity testing","All forms of generated trusts, revocations, relations and certificates of 0..258 trusts; one known finding for the binary form."),
"C10":("stateful property-based testing with an independent soundness oracle","Generated histories over library (in-memory store) and service (SQLite); signatures re-checked with libp2p."),
"C11":("stateful model-based testing against a reference graph","Histories compared with a reference model after every query; small graphs plus long chains."),
"C12":("stateful model-based testing against a reference weight function","Histories with generated root limits; weights compared with the reference after every step."),
"C13":("stateful model-based testing with generated forgeries","Forged and foreign relations injected in generated histories; state compared before and after."),
"C14":("stateful model-based testing of relation replacement","Sequences of trusts and revocations on the same pairs with boundary timestamps, against a reference."),
"C15":("stateful metamorphic testing of revocations","Histories with revocations by members and outsiders, compared with the reference and with the history without them."),
"C16":("stateful model-based testing with a generated clock","Histories over the 64-bit time range with queries around expirations."),
"C17":("stateful model-based testing of issuer-restricted queries","Restricted answers compared with the filtered full answers."),
"C18":("stateful model-based testing of certificate insertion","Generated, partly invalid and malformed certificates; state compared with the reference."),
"C19":("stateful model-based testing of root ownership through the service","Root requests by owner and others in generated histories over SQLite."),
"C20":("property-based testing of call provenance through the service","Generated argument origins for every time-taking call; state compared before and after refusals."),
"C21":("differential stateful testing of service against library","The same history on both; full client flow and malformed arguments."),
"C22":("stateful testing with generated restarts","Histories split by restarts over a real SQLite file; answers compared with the reference; states written by a reference writer of the table layout, then taken over."),
"C23":("fault enumeration over storage operations with state oracle","Every storage event of a call (sampled when there are many) fails before or after its effect or starts a crash; a stub connector over real SQLite injects the faults."),
"C24":("property-based testing over the shipped certificate files and the interpreted start script","Every shipped certificate in generated orders and times; on_start.air run by an AIR interpreter over the service with generated data, clocks, callers and storage faults."),
"C25":("stateful model-based testing of the Aqua sources through an interpreter over running services","The harness interprets the repository's .aqua files (no Aqua compiler is installed) with two services on SQLite, tetraplets, clock differences, refused signatures and storage faults; constructs the interpreter does not know give no verdict."),
"C26":("property-based testing of the admin tool with generated keys, nodes and lost answers","admin/index.ts transpiled and run in node with stand-ins for client, network lists and files; its calls go through the interpreted Aqua to a running service; exact expected certificates computed independently."),
"C27":("property-based testing against independent reference writers","Binary, text, list and signed forms of generated keys, signatures, trusts, certificates and revocations compared both ways with reference writers; RSA only where the one-byte lengths suffice."),
"C28":("property-based round-trip testing of the distribution crate built with generated packaged files","The crate is built from a copy with random bytes for the WASM files (not in the repository); generated certificate data through its types, its constants against the packaged files. No verdict if it does not build.")
}
lev={"C23":"fault_enumeration"}
checks=[dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=lev.get(i,"exploration"),level_note=n) for i,(t,n) in T.items()]
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,
 not_applicable=[],
 notes="No hooks in /repo: the library is driven through its public API with an in-memory Storage, the service by compiling its sources natively against stand-ins for the marine SDK and SQLite connector (svc/, stubs/). Reproduce a violation with: target/release/tgcheck replay <path>. Known findings and fixes: known_findings.txt.")
json.dump(m,open(D+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
open(D+"/MANIFEST.json","a").write("\n")
