#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import config
T = "contract-based deductive verification (Verus) of functions extracted from /repo's source on every run; the real code is also executed against an independent reference (bounded)"
TB = "bounded execution of the derived clients of the real code against an independent reference (stand-in for contracts, labelled bounded)"
COMMON = "Assumes: the contracts of std, byteorder and closures listed in the evidence's trusted_base; the extraction's stated rewrites; Verus, Z3 and rustc. Machine integers are exact (overflow is an obligation)."
NOTE = {
    "C01": "Verus: postconditions of Iterator::next and read_message over the byte source, for every input.",
    "C02": "Verus: postconditions of next, read_message and the byte source's reads, for every input and truncation point.",
    "C03": "Verus: absence of overflow, out-of-bounds access, failed unwrap and non-termination in every extracted function; the array bound before allocation. Stack and allocation sizes, and formatting of error texts, are bounded (executed).",
    "C04": "Verus: the recursive decoder computes exactly the specification function of the format and bytes (values, offsets, errors).",
    "C05": "Verus: decoder and encoder each against its specification, lemmas that encoding what was decoded from a well-formed log gives the same bytes, and a verified loop (parse, encode) over the real contracts: its output is its input.",
    "C06": "Verus: the bytes appended by each encoder and the error conditions.",
    "C07": "Verus: postconditions of the filter and of parse_data, and the state invariant of the allowed ids.",
    "C08": "Verus: the subscriptions map after each message and the lookup in parse_data.",
    "C09": "Verus: fields kept and the timestamp taken, for all four option settings.",
    "C10": "Verus: flag bits decoding, the limit it sets and its effect in next.",
    "C11": "Verus: tokenizer and format parser against a character and a token grammar; lemmas and a verified function (parse, encode, parse) give the round trip.",
    "C12": "Verus: the state machine of next, including after the end.",
    "C13": "Verus: macro_utils, and the code that the current derive macros make of five struct types (table in tools/mkclients.py), for every format and message. Other struct types are bounded (executed).",
    "C14": "Verus: the code that the current derive macros make of three enum types (table in tools/mkclients.py), for every history of messages. Other enum types are bounded (executed).",
    "C15": "Verus: both conversions of the message type and the fallback branches.",
    "C16": "Verus: every method of MessageBuf against its view (bytes not yet read).",
    "C17": "Verus: the info, multi-info, parameter and default-parameter decoders and the key parser.",
    "C18": "Verus: the branches of parse_data and LogLevel's conversion.",
    "C19": "Verus: the set of multi-instance names and its use in parse_data_message.",
    "C20": "Verus: the character helpers.",
    "C21": "Verus: the conversion, variant by variant.",
}
checks = []
for p in config.PROPS:
    proof = config.VERUS[p] is not None
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": T if proof else TB, "level": "proof" if proof else "exploration", "level_note": NOTE[p] + " " + COMMON if proof else NOTE[p]})
na = [
    {"property": "C22", "reason": "Send and Sync are marker traits decided by the compiler's type checker; no function contract states them, and the deductive verifier has no obligation for them."},
    {"property": "C23", "reason": "Resource bounds cannot be stated in the contracts of the verifier used (it has no cost model); and the property is false here: nested formats of zero-size fields take time exponential in the nesting depth (see DESIGN.md)."},
]
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check extracts the functions under contract from /repo's working tree, verifies them, and runs the real crate. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
