#!/usr/bin/env python3
"""Writes MANIFEST.json: edit here, run, commit both."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
GEN = ("Held on the executions observed at run time, which are generated from the seed; trusts the harness's own description "
       "of the ULog format (cross-checked against a second decoder) and samples inputs rather than enumerating them.")
T = {
 "C01": ("runtime monitor: re-encoded bytes vs. input over generated logs", "exploration", GEN),
 "C02": ("runtime monitor: returned items vs. the generator's description of the log", "exploration", GEN),
 "C03": ("runtime monitor: second parse and second encoding of whatever was accepted from mutated streams", "exploration", GEN),
 "C04": ("runtime monitor: supervised workers over hostile streams (panic, abort, stack, CPU, item count)", "exploration", GEN),
 "C05": ("runtime monitor: counting allocator over streams that claim huge sizes", "exploration", GEN + " The bound is generous (hundreds of times the bytes present)."),
 "C06": ("runtime monitor: live heap and read-ahead over unbounded step-wise sources", "exploration", GEN),
 "C07": ("fault injection at every cut position, items vs. prefix of the uncut result", "fault_enumeration", "Every cut position of each generated log is executed; the logs are sampled."),
 "C08": ("fault injection: chunked, interrupted and failing readers at every position", "fault_enumeration", "Every failure position of each generated log is executed; logs and partitions are sampled."),
 "C09": ("runtime monitor: items with inserted malformed messages vs. items without", "exploration", GEN),
 "C10": ("runtime monitor: filtered items vs. unfiltered items, re-encoding vs. kept messages", "exploration", GEN),
 "C11": ("runtime monitor: items under all eight option combinations vs. projection", "exploration", GEN),
 "C12": ("runtime monitor: items vs. message extents under appended-data offsets anywhere", "exploration", GEN),
 "C13": ("runtime monitor: bad magics and each incompatibility bit, then valid messages", "exploration", GEN + " All 63 unknown bits are executed in every run."),
 "C14": ("runtime monitor: raw items vs. input with unknown and out-of-place messages inserted", "exploration", GEN),
 "C15": ("runtime monitor: online reference subscription table over random histories", "exploration", GEN),
 "C16": ("runtime monitor: generated derive programs over matching logs vs. schema description", "exploration", GEN + " Programs are sampled; each run compiles a new batch."),
 "C17": ("runtime monitor: generated derive programs over mismatching logs", "exploration", GEN + " Programs are sampled; each run compiles a new batch."),
 "C18": ("runtime monitor: derived streams vs. plain parser items under all builder settings", "exploration", GEN + " Programs are sampled; each run compiles a new batch."),
 "C19": ("ThreadSanitizer and Miri over threads sharing parsed data; per-thread digests", "exploration", "Races are found only on interleavings and accesses that were executed; Miri explores several seeds of its scheduler."),
 "C20": ("Miri and AddressSanitizer over the whole public interface and hostile streams", "exploration", "Undefined behaviour is found only on the executions observed."),
 "C21": ("runtime monitor: interleaved and threaded parsers vs. solo runs; captured standard streams", "exploration", GEN),
 "C22": ("runtime monitor: reference cursor over random operation sequences", "exploration", GEN),
 "C23": ("runtime monitor: rendered text and flattened lists vs. independent rendering, numbers read back", "exploration", GEN),
 "C24": ("fault injection: short, interrupting and failing sinks at each byte position", "fault_enumeration", "Every failure position of messages up to 80 bytes (sampled beyond) is executed; messages are sampled."),
 "C25": ("runtime monitor: encode results and length fields around the limits", "exploration", GEN),
 "C26": ("runtime monitor: derived streams on damaged bytes and failing sources vs. reference mapping of the plain items", "exploration", GEN + " Over nine declared structs; C16 to C18 vary the declarations."),
 "C27": ("runtime monitor: items under random histories of settings vs. projection of the fully included items", "exploration", GEN),
 "C28": ("runtime monitor: encodings of built and edited messages vs. the generator's layout, and read back", "exploration", GEN),
 "C29": ("differential runtime monitor: digests of everything observable, compared between four builds", "exploration", "Held on the generated streams executed; four of the possible builds."),
 "C30": ("differential runtime monitor: digests compared between x86_64, wasm32 (node) and s390x (Miri interpreter)", "exploration", "Held on the generated streams executed; the big-endian machine is interpreted, hence slow: about a thousand short streams per quick run."),
    "C31": ("runtime monitor of the derive macros at work in the compiler: pairs of declarations, one at fault, and what is accepted", "exploration", "Held on the generated declarations; only that a declaration is refused is judged, not the message."),
    "C32": ("runtime monitor over streams under way in which messages, formats, accessors and fields are also handled by hand", "exploration", "Held on the generated logs and interleavings."),
    "C33": ("runtime monitor comparing every error with the single fault that was injected: kind, payload, text, source", "exploration", "Held on the generated faults; one fault at a time."),
}
TODO = [] if False else [l for l in os.environ.get("TODO", "").split() if l]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
                      evidence_file=f"evidence/{p}.json", technique=t, level=l, level_note=n) for p, (t, l, n) in T.items() if p not in TODO],
         not_applicable=[dict(property=p, reason="check under construction") for p in TODO],
         notes="No hooks in /repo: every monitor observes the public interface. Fixed defects are listed in known-findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
