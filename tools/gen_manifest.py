#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
from pathlib import Path

LOG = ("Holds for the schemas, logs and ways of driving the parser that were run (drawn from the seed), on buffers of "
       "64 bytes (through the hook, under ASan+UBSan) and as shipped. Trusts the reference in harness/reflog.hpp and "
       "refregex.hpp (derivatives), which shares no code with the library.")
RE = ("For each pattern set drawn, the comparison is exhaustive over all strings (product of the automaton and "
      "derivatives of the pattern); the pattern sets are sampled. Trusts harness/refregex.hpp.")
SCHEMA = ("Holds for the texts and histories that were run; texts are sampled from the documented grammar and damaged "
          "copies. Trusts the recursive-descent reader in harness/refschema.hpp.")
T = {
    "C01": ("byte-conservation monitor over parser runs, ASan+UBSan", LOG),
    "C02": ("online monitor of event boundaries against a reference segmenter", LOG),
    "C03": ("token-by-token monitor against a derivative-based reference lexer", LOG),
    "C04": ("differential monitor over deliveries, alignments and buffer growth", LOG),
    "C05": ("protocol monitor of refills at every/random split points, guarded caller buffers under ASan", LOG),
    "C06": ("snapshots of deep copies re-read after reuse and poisoning of the source, ASan", LOG),
    "C07": ("accessor consistency monitor on every event", LOG),
    "C08": ("product walk of the library's automaton with derivatives as oracle", RE),
    "C09": ("monitor of type order against the schema under perturbed heaps", RE),
    "C10": ("differential monitor against an independent schema reader", SCHEMA),
    "C11": ("monitor of acceptance and messages against computed byte sets; list model for add/release", SCHEMA),
    "C12": ("ASan+UBSan+LSan, asserts, allocation accounting and a watchdog under hostile inputs", LOG),
    "C13": ("ASan+UBSan+LSan, asserts, exception monitor and watchdog under hostile texts", SCHEMA),
    "C14": ("differential monitor: reset parser against new parser on the same input", LOG),
    "C15": ("fault injection at the reader with a monitor of return codes and reader calls", LOG),
    "C16": ("transcripts in random order against transcripts from fresh forked processes, leak accounting", SCHEMA),
    "C17": ("ThreadSanitizer with injected delays; transcripts against single-threaded ones",
            "Races visible to ThreadSanitizer in the executed schedules, and wrong results in them; no enumeration of "
            "schedules. Happens-before detection makes most races independent of the exact schedule."),
    "C18": ("monitor of tag events on walked automaton paths and of printed trees", RE),
    "C19": ("get_intersect compared with reference product emptiness under perturbed heaps", RE),
    "C20": ("history monitor against a model of branching histories, ASan+UBSan",
            "Holds for the operation sequences run; trusts the model in harness/h_misc.cpp."),
    "C21": ("byte and return-code monitor over file operations, descriptor accounting",
            "Holds for the files and sequences run; trusts the file's bytes as read back by the harness itself."),
    "C22": ("monitor of generated parsers against reference grammar classification and Earley recognition, ASan+UBSan",
            "Holds for the grammars and texts that were run; trusts the textbook constructions in harness/refgrammar.hpp."),
    "C23": ("history monitor against an ordered-map model, ASan+UBSan",
            "Holds for the operation sequences run; trusts the model in harness/h_misc.cpp."),
    "C24": ("lockstep monitor of moved parsers against twins that never move, ASan+UBSan", LOG),
}

m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "hooks": {
        "guard": "LOG_SURGEON_VERIF_STATIC_BUFF_SIZE",
        "enable": "the driver compiles /repo/src with -DLOG_SURGEON_VERIF_STATIC_BUFF_SIZE=64 (or 22) in the "
                  "configurations small and tiny of tools/plan.py; the others build the sources as shipped",
        "source_commits": ["2ac33ee041e39d28fca36447930191d2e86da8ed"],
    },
    "checks": [
        {"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
         "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": n}
        for p, (t, n) in sorted(T.items())
    ],
    "not_applicable": [],
    "notes": "The seed is VERIF_SEED (or --seed). A reported case is run again with ./check --replay FILE. "
             "Known findings and repaired defects: known_findings.txt. See DESIGN.md.",
}
Path(__file__).resolve().parent.parent.joinpath("MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
