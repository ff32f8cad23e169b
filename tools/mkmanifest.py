#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.  CLAIMED lists the checks that are built.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="deterministic simulation with fault injection: seeded statement-level thread scheduler, simulated entropy/transport/memory, "
C={
 "C01":("seeded interleaving and history search against solo-run and reference oracles","All threads, locks and entropy are simulated; switches happen between statements of the instrumented code, not inside one, so torn reads inside one Go statement are out of reach."),
 "C02":("seeded placement of arguments in read-only pages and canaried buffers, with caller-recycling faults","Every store to an argument faults (read-only page) or is seen by a scheduler-driven monitor; retention is seen as a changed later result."),
 "C03":("seeded stream histories with source faults and crash/re-feed, against executable reference models","Reference models for BLAKE, BLAKE2s, SM3, HMAC written for this check; x/crypto/sha3 trusted for SHA-3."),
 "C04":("seeded entropy-device faults around signing, results judged by independent verifiers","Independent math/big verifiers written for this check; std crypto/ed25519 trusted."),
 "C05":("seeded entropy faults (stuck, replayed, rewound, failed), nonce recomputed from signature and key","Nonces are recomputed exactly from signature and key; bias is judged statistically with a fixed threshold far beyond chance."),
 "C06":("seeded two-party protocol runs with message and entropy faults against a reference model","Reference SM2 key agreement in math/big."),
 "C07":("seeded ciphertext storage/transport and entropy faults against a reference model","Reference SM2 encryption in math/big."),
 "C08":("seeded multi-signer/aggregator histories with loss, duplication, reordering and tampering, against a set model","Model: the aggregate is a multiset of contributions; the pairing code itself is the code under test, so a pairing that accepts everything or rejects everything is what is detected."),
 "C09":("seeded transport faults on messages, keys and signatures, verdicts compared with independent verifiers","Independent verifiers in math/big; std crypto/ed25519 trusted."),
 "C10":("seeded corruption/truncation of every argument of every service, no-progress detection by step count","Panics and step-budget exhaustion are the failures; budget is generous (400 million statements)."),
 "C11":("seeded corruption of signatures in a recover-after-transport workload against an independent recovery","Independent ECDSA/SM2 recovery in math/big."),
 "C12":("seeded read/clone/absorb histories with concurrent readers against x/crypto/sha3","x/crypto/sha3 trusted."),
 "C13":("seeded storage damage of compressed keys against an independent decompression","Independent decompression in math/big."),
 "C14":("seeded share-combination protocol: concurrent parties, message loss/duplication/reordering/damage, against reference point arithmetic","Reference arithmetic in math/big for every curve."),
 "C16":("seeded chains of key conversions with storage and transport damage, against the birational map and a scalar model","Reference map in math/big; std crypto/ed25519 trusted."),
 "C17":("seeded wallet/signer derivation histories with crash/restart from stored records and torn records, against a scalar model","Reference arithmetic and signature verification in math/big."),
 "C18":("seeded operation histories over aliased and shared points, transfer faults, threshold-signature rounds with loss, duplication, reordering and forgery, against reference groups and coordinates","Reference G1/G2 arithmetic and hashing to G2 in math/big; target-group values are judged by bilinearity, not against an independent pairing."),
 "C19":("seeded operation histories over BLS12-381 engines with interleaved pairing products, aliased and shared points, damaged and off-group encodings, against reference groups and coordinates","Reference G1/G2 arithmetic, maps and hashing in math/big; target-group values are judged by bilinearity, not against an independent pairing."),
 "C20":("seeded histories of Poseidon sponges (pieces, copies, context loss and re-feed), Pasta field, scalar and point objects and stored Mina messages with storage and transport damage, against a reference sponge, field and curve","Reference sponge, field and curve in math/big; the round constants are the ones of the pinned tree."),
}
CLAIMED=[x for x in os.environ.get("CLAIMED","").split(",") if x] or json.load(open(os.path.join(V,"tools/claimed.json")))
NA={
 "C15":"Pure function of one buffer (one-shot digests): nothing for a simulator to schedule or fail; the history-dependent part (streams, HMAC, XOF) is claimed in C03 and C12.",
}
checks=[]; na=[]
for l in open(os.path.join(V,"properties.jsonl")):
    i=json.loads(l)["id"]
    if i in CLAIMED:
        t,n=C[i]
        checks.append(dict(property=i,quick_cmd=f"bin/check.sh {i} quick",thorough_cmd=f"bin/check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
          technique="deterministic simulation with fault injection: "+t,level="exploration",
          level_note="Seeded search, not exhaustive: no violation in any simulated run of the stated size. "+n))
    else:
        na.append(dict(property=i,reason=NA.get(i,"Check not built yet.")))
m=dict(version=1,setup_cmd="bin/setup.sh",
  hooks=dict(guard="go build -overlay (no source change in /repo)",enable="sim/instrument writes instrumented copies of /repo's current files to a scratch directory and the checks build with -overlay; /repo itself carries no hook",source_commits=[]),
  checks=checks,not_applicable=na,
  notes="Every check rebuilds from /repo's working tree. Replay a violation with bin/replay.sh FILE.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
