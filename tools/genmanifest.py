#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T={
"C01":"runtime monitor: derivation events compared with an independent Jacobian secp256k1 reference, boundary/mined/random scalars",
"C02":"runtime monitor: import events compared with a reference hex/WIF codec, boundary, mutated and hostile texts",
"C03":"runtime monitor: WIF import events compared with a reference Base58Check decoder, corrupted and foreign texts, round trips",
"C04":"runtime monitor: exact accept/reject oracle over exhaustive single edits of WIFs and constructed checksums",
"C05":"runtime monitor with a scripted crypto/rand source: validity, consistency and uniqueness of generated keys",
"C06":"runtime monitor: modular-arithmetic oracle on recorded arguments, pairs built backwards from chosen sums",
"C07":"runtime monitor: modular-arithmetic oracle on recorded arguments, pairs built backwards from chosen products",
"C08":"runtime monitor: reference SEC1 serializer and round trip through the parser",
"C09":"runtime monitor: reference SEC1 decoder as accept/reject and value oracle, off-curve, non-canonical and mutated texts",
"C10":"runtime monitor: reference RIPEMD-160/Base58Check address oracle, mined leading-zero hashes and checksums",
"C11":"runtime monitor: reference group law on recorded operands, homomorphism against private addition",
"C12":"runtime monitor with a scripted crypto/rand source: reference BIP-39 decoder judges every phrase",
"C13":"runtime monitor: reference PBKDF2-HMAC-SHA512 seed oracle over all lists, lengths and passphrases",
"C14":"runtime monitor: exact accept/reject BIP-39 oracle over systematically damaged phrases",
"C15":"fault injection in crypto/rand at every byte offset, monitor for secrets made from too few bytes",
"C16":"scripted crypto/rand: every entropy bit flipped, monitor for dependence, consumption and determinism",
"C17":"Go race detector and sequential-result oracle over cold-start and stress schedules",
"C18":"state-dump monitor around in-place mutations, differential replay of one call set in many orders and processes",
"C19":"crash/hang monitor (panic capture, process supervision) under hostile and fuzzed inputs",
"C20":"output monitor (sizes of stdout and stderr around every call) over succeeding and failing calls",
"C21":"runtime monitor: version bytes and carried network of every event over pairs of networks",
"C22":"runtime monitor: exported lists dumped before and after use and compared with the official lists",
"C23":"model-based runtime monitor: random wallet programs against a scalar/network model with end-state dump",
"C24":"canary monitor: every error and panic value of refused calls is searched for fragments of the secrets involved, in several encodings",
"C25":"system-call trace monitor (strace) and comparison of process-wide state around every call",
"C26":"differential runtime monitor: the same calls in 32-bit, unoptimised, pure-Go, older-toolchain and GC-stressed builds and under forged environment variables and dates",
"C27":"heap monitor: live memory after full collections at four points of long streams of different calls",
}
N={"C15":"Enumerates every byte offset x failure mode for each kind of secret on several streams; streams themselves are sampled.",
"C17":"Sampled schedules; the race detector generalises each one to all happens-before-equivalent reorderings.",
"C22":"All 18432 words are compared; the histories of use are sampled."}
checks=[]
for i in range(1,28):
    id="C%02d"%i
    checks.append(dict(property=id,quick_cmd="./check.sh %s quick"%id,thorough_cmd="./check.sh %s thorough"%id,evidence_file="evidence/%s.json"%id,
      technique=T[id],level="fault_enumeration" if id=="C15" else "exploration",
      level_note=N.get(id,"Real code, exact oracle per observed call; inputs are boundary, mined, mutated and seeded-random samples, not all inputs.")))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[]),open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
