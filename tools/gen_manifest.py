#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME = "Monitored executions only: what the workload does not reach is not covered. Trusts the reference encoder/model and, where used, the mock server in /verif/harness."
T = {
 "C01": ("runtime monitoring: panic, allocation-budget and CPU-time monitors with overflow checks over mutated and generated binlogs", "exploration", "No panic, abort, overflow, endless loop or over-allocation in the hostile inputs run; the reader was seen to go on after each bad event."),
 "C02": ("runtime monitoring: panic, allocation and progress monitors over a hostile mock server with enumerated cuts and replaced packets", "fault_enumeration", "Every cut byte of the sample sessions is enumerated; damaged and hostile packets are sampled."),
 "C03": ("runtime monitoring: independent grammar as oracle over enumerated one-character edits and random spellings", "exploration", "All one-character edits of the sample texts and random spellings agree with the grammar."),
 "C04": ("runtime monitoring: reference encoder as oracle over parsed rows (round trip, consumption checked by neighbours)", "exploration", "All precision/scale pairs and boundary values are visited; other values sampled."),
 "C05": ("runtime monitoring: reference encoder as oracle over temporal cells", "exploration", "Boundary and random values of every type and fraction; small domains are enumerated."),
 "C06": ("runtime monitoring: reference encoder as oracle over string, blob, bit, enum and set cells", "exploration", "Both sides of each length boundary are visited; contents sampled."),
 "C07": ("runtime monitoring: reference model of rows and column maps over generated row events", "exploration", "Generated tables, masks, NULLs and row counts agree with the model."),
 "C08": ("runtime monitoring: reference catalogue of table definitions over generated interleaved histories", "exploration", "Generated interleavings of definitions, redefinitions and row events over files and sessions agree with the catalogue."),
 "C09": ("runtime monitoring: reference encoder as oracle over table definitions and optional metadata", "exploration", "Generated definitions with all metadata fields in random order decode exactly."),
 "C10": ("runtime monitoring: reference encoder as oracle over headers and non-row events", "exploration", "Every event kind with boundary and random fields decodes exactly; all unknown type codes visited."),
 "C11": ("runtime monitoring: differential monitor (with and without checksum, file and stream) against the model", "exploration", "The same histories decode alike in every framing generated."),
 "C12": ("runtime monitoring: exactly-once sequence checker over files cut at enumerated points", "fault_enumeration", "Cuts at every byte of sample files, damaged events and size boundaries are observed."),
 "C13": ("runtime monitoring: exactly-once sequence checker over a mock server with segmentation, delay and connection faults", "fault_enumeration", "Cuts at every byte of a sample stream, size boundaries and random segmentations are observed."),
 "C14": ("runtime monitoring: reference set checked after every addition over enumerated and random histories", "exploration", "All histories of up to 5 additions over 5 ids and all starting sets are enumerated; longer ones sampled."),
 "C15": ("runtime monitoring: cross-representation monitor (text, memory, event, wire) against the model", "exploration", "Random positions are the same in every representation."),
 "C16": ("runtime monitoring: reference map checked after every addition over enumerated and random histories", "exploration", "All histories of up to 6 additions over 3 domains are enumerated; longer ones sampled."),
 "C17": ("runtime monitoring: online transaction monitor over generated event groups, checked after every commit", "exploration", "Generated histories of every group kind agree with the reference position after every commit."),
 "C18": ("runtime monitoring: online position monitor over generated event groups, checked after every commit", "exploration", "Generated histories agree with the reference coordinates after every commit."),
 "C19": ("runtime monitoring: end-to-end exactly-once checker over sessions broken at enumerated and random points", "fault_enumeration", "Every cut byte of sample histories is enumerated; multi-fault histories sampled. One known finding (KNOWN_FINDINGS.md)."),
 "C20": ("runtime monitoring: independent verifier of authentication proofs in a mock server", "exploration", "Random credentials over every exchange, right and wrong, with replaced final replies."),
 "C21": ("runtime monitoring: secrecy monitor over recorded traffic of honest, downgrading and hostile servers", "exploration", "Recorded traffic was searched for the password and its masked and encoded forms; other encodings are not seen."),
 "C22": ("runtime monitoring: protocol-trace monitor with a refusal injected at enumerated steps", "fault_enumeration", "A refusal at every command and packet of every start mode is enumerated."),
 "C23": ("runtime monitoring: protocol-trace monitor comparing the dump request with the configured start", "exploration", "Random configurations of every start mode, on both server kinds, over several sessions."),
 "C24": ("runtime monitoring: timing monitor with silence injected at each phase", "fault_enumeration", "Silence at every phase, with tolerances for scheduling; intervals sampled."),
 "C25": ("runtime monitoring: per-source sequence and position checkers over clients and readers interleaved or in parallel threads", "exploration", "Interleavings are those drawn or scheduled; every event and recorded position is checked."),
 "C26": ("runtime monitoring: lockstep promptness monitor (each packet is sent only after the one before was delivered)", "exploration", "Random event kinds, sizes and splits; 8 s without further bytes counts as waiting."),
 "C27": ("runtime monitoring: live-allocation and connection-closure monitors over repeated blocks and session cycles", "exploration", "Up to 60 repetitions; growth below 1 KiB in all of them is not seen."),
 "C28": ("runtime monitoring: panic monitor and online position invariants over commits of damaged and extreme events", "exploration", "Random logs of damaged and extreme events, every starting mode, every commit checked."),
}
checks = []
for p in [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]:
    t, lv, n = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} --tier quick", "thorough_cmd": f"./check.sh {p} --tier thorough",
                   "technique": t, "level": lv, "level_note": n + " " + ASSUME})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the monitors use the crate's public interface only. Repairs of genuine defects are the fix: commits in /repo, listed in KNOWN_FINDINGS.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
