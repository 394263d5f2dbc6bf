#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The checks are those whose property is registered in mon (mon list)."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "differential runtime monitor: independent SM3 and openssl goldens over generated messages",
 "C02": "runtime monitor: model of each hash object over random call histories, memory canaries",
 "C03": "differential runtime monitor: independent SM2 decryptor/encryptor over generated and searched cases",
 "C04": "differential runtime monitor: exact accept/reject and plaintext oracle over mutated and forged ciphertexts",
 "C05": "differential runtime monitor: all signer/verifier pairings, independent verifier, Z and DER",
 "C06": "differential runtime monitor: exact verdict oracle over boundary and mutated signatures",
 "C07": "runtime monitor with fault injection: recording and failing random sources, nonce recovery",
 "C08": "differential runtime monitor: own DER writer, Go standard library, openssl",
 "C09": "runtime monitor: validity predicates over keys parsed from mutated and constructed encodings",
 "C10": "differential runtime monitor: field oracle, Go standard library, independent signature check",
 "C11": "runtime monitor: truth table over keys x labels x alterations x parent constraints",
 "C12": "differential runtime monitor: Go standard library over mutated certificate corpora",
 "C13": "runtime monitor with fault injection: independent SignedData reader and verifier",
 "C14": "runtime monitor: independent SignedData verifier over altered and adversarial messages",
 "C15": "differential runtime monitor: Go standard library and independent verifier over requests and CRLs",
 "C16": "runtime monitor: round-trip equality over keys x chains x passwords",
 "C17": "runtime monitor: altered files and wrong passwords, reference key derivation as oracle",
 "C18": "differential runtime monitor: independent RFC 7292 codec and openssl",
 "C19": "differential runtime monitor: independent RFC 2268 RC2",
 "C20": "runtime monitor: mutation storms under panic, fatal-error, CPU and allocation watch",
 "C21": "Go race detector over goroutine storms, per-call sequential oracle",
 "C22": "runtime monitor: deep snapshots around every call, captured output",
 "C23": "differential runtime monitor: independent affine group law",
 "C24": "differential runtime monitor: Go standard library, x/crypto, independent SM3",
 "C25": "runtime monitor: truth table over pairs of equal and nearly equal values",
 "C26": "differential runtime monitor: independently written SignedData messages, field by field",
 "C27": "runtime monitor: strict DER checker over everything written, in a shifted local time zone",
 "C28": "runtime monitor with fault injection: expected error class of single-defect inputs, failing sources and signers",
 "C30": "runtime monitor: each call of a history compared with the same call alone in a new process, and with references",
 "C31": "runtime monitor: every pair of entry points to one operation on the same inputs, verdicts and values compared",
 "C32": "runtime monitor: life histories of a public key infrastructure against a model of who issued, revoked, signed and can read what",
 "C29": "runtime monitor with fault injection: search for secrets in every result and error text",
}
NOTE = "Observed executions only: the oracle judged every call the evidence file counts; inputs, histories and schedules that were not run are not covered. Trusted: the Go toolchain and standard library, and the reference code in mon/ref (tested on published vectors by setup_cmd)."
EXTRA = {
 "C07": " Statistical monitors over nonces use thresholds with false-alarm probability below 1e-9, and all randomness is seeded.",
 "C20": " Non-termination is decided by CPU time used by one case alone, not by elapsed time.",
 "C21": " The race detector reports only races in schedules that ran; its reports are not false alarms.",
}
ids = sorted(sys.argv[1:]) or sorted(TECH)
checks = [{"property": i, "quick_cmd": f"./run.sh check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {i}",
  "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")} for i in ids]
na = [{"property": i, "reason": "check not built yet"} for i in TECH if i not in ids]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: the monitors use the exported API only. known-findings.txt lists the defects repaired in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
