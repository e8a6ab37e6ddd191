#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
T = {
 "C01": "exhaustive TLC exploration of encoder/wire/decoder, every transition replayed; recorded histories validated against the specification",
 "C02": "exhaustive TLC exploration of the table, every transition replayed; recorded histories validated",
 "C03": "TLC exploration of the index space, every transition replayed; recorded look-ups validated",
 "C04": "TLC enumeration of octet strings and wire fragments, every transition replayed; recorded decodes of junk validated",
 "C05": "TLC exploration of cuts and errors with CutAnywhere/DecodeErrorAtomic, replayed; recorded piecewise decodes validated",
 "C06": "TLC enumeration of boundary integers for every prefix, replayed; recorded integers validated",
 "C07": "TLC exploration of resizes and limits with LimitRespected, replayed; recorded histories validated",
 "C08": "TLC exploration of flags by table states, replayed; recorded encodes validated",
 "C09": "TLC exploration of table contents by searched fields, replayed; recorded searches validated",
 "C10": "TLC exploration with ExactIsPrefix, replayed; recorded decodes validated",
 "C11": "TLC exploration with RefusalHasNoEffect, replayed; recorded refusals validated",
 "C12": "TLC exploration of the bit accumulator automaton, every transition replayed; recorded encodings validated",
 "C13": "TLC exploration of the decoding automaton, every transition replayed at five speeds; recorded decodings validated",
 "C14": "TLC enumeration of all small prefix codes and walk of the published tables; judged by the specification",
 "C15": "TLC enumeration of boundary tags and values per type, replayed; recorded encodings validated",
 "C16": "TLC exploration of messages, replayed; recorded messages validated",
 "C17": "TLC exploration of all chunkings with ChunkingIrrelevant, replayed; recorded chunkings validated",
 "C18": "TLC exploration of octet streams with RefusedAgain, replayed; recorded malformed messages validated",
 "C19": "TLC enumeration of vectors, replayed; recorded vectors validated",
 "C20": "TLC enumeration of payloads by literal types and targets, replayed; recorded conversions validated",
 "C21": "TLC exploration of sinks that refuse, split or interrupt writes; recorded faulty writes judged by the relation",
 "C22": "TLC exploration of two interleaved instances with refinement FirstAlone/SecondAlone, replayed; recorded interleavings and parallel runs validated, mismatches re-executed alone",
}
NOTE = ("The specification is explored exhaustively within the constants of its configuration, and every transition found is "
        "executed on the real code; beyond them seeded executions are decided by the same specification. Assumes that the "
        "TLA+ text states RFC 7541 / proto3 correctly (the invariants check it against itself, its tables come from an "
        "independent source) and trusts TLC, its community modules and the harness.")
checks = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 run.py check " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p,
                   "technique": "TLA+/TLC: " + T[p], "level": "model_checking", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the public interface shows all the state the specification speaks of."},
          open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
