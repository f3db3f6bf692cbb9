#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "exhaustive enumeration of calls on the real code (explicit-state, bounded)"
T = {
 "C01": (E + ", with guard pages, canaries, panic and hang capture",
         "Every input of the bounded families x every buffer size of its class x both flags is executed. A stray access is seen only if it reaches a guard page or the adjacent 16 bytes."),
 "C02": (E + " against a UTF-8 well-formedness automaton",
         "Complete for all byte strings up to 3 bytes (thorough 4 for UTF-8/32), all unit pairs around surrogates, boundary words and long runs; other long inputs rest on C21's context-independence law."),
 "C03": (E + " against an executable reference model, at every buffer size",
         "All characters, all words over a 29-character boundary alphabet, long runs; every buffer size from 0 to need+5 for short inputs. Trusts the oracle tables."),
 "C04": (E + " against an executable reference model, at every buffer size",
         "All byte strings up to 3 bytes, boundary words, all character codes, long runs; every buffer size. Trusts the oracle tables."),
 "C05": (E + " plus closure of the streaming decoder's state graph against the Unicode automaton",
         "All scalar values, all surrogate unit pairs, all short byte strings; the closure makes the byte-at-a-time decoder bisimilar to the model for streams of any length."),
 "C06": (E + " against the Unicode encoding forms",
         "All 1,112,064 scalar values in several contexts, all boundary words, long runs, every buffer size."),
 "C07": (E + " against the published tables",
         "All bytes and byte pairs, all characters, all ordered pairs of encodable characters for all 31 tables. Trusts oracle/ (cross-checked with CPython's codecs)."),
 "C08": (E + " against the WHATWG index, plus closure of the streaming decoder",
         "All 2- and 3-byte strings, all characters in contexts; thorough: all ordered pairs. 57 listed characters are known findings (see known_findings.txt)."),
 "C09": (E + " against the WHATWG index, plus closure of the streaming decoder",
         "All 2- and 3-byte strings, all characters in contexts; thorough: all ordered pairs. Trusts the oracle index."),
 "C10": (E + " against an executable reference model", "Every unencodable character in context and at every offset of long blocks; outcome, character, range and written count compared."),
 "C11": (E + " against an executable reference model", "Every invalid sequence up to 3 bytes and at every offset of long blocks; outcome, cause, range and written count compared."),
 "C12": ("explicit-state exploration of all client sessions (chunk arrivals x buffer sizes) on the real decoder", "For each enumerated input the whole session graph is explored; long inputs: every two-chunk split."),
 "C13": ("explicit-state exploration of all client sessions (chunk arrivals x buffer sizes) on the real encoder", "For each enumerated text the whole session graph is explored; long texts: every two-chunk split."),
 "C14": (E + " and complete client loops with minimal buffers", "Progress checked on every enumerated call; every client loop run to its end."),
 "C15": (E + ": encode then decode, many buffer sizes and chunkings (model-free)", "All characters, all words, all two-character contexts within the bounds."),
 "C16": (E + ": decode then encode, several buffer sizes (model-free)", "All byte strings up to 3 bytes, boundary words, all codes."),
 "C17": ("exhaustive enumeration of inputs, each driven through complete skip-and-resume sessions on the real decoder", "Result compared with a declarative definition of the well-formed characters and ill-formed bytes."),
 "C18": ("explicit exploration of call histories, buffer placements and instruction-granular thread interleavings (preemption-bounded) on the real code",
         "Complete for histories up to length 3 (4) over a ~40-call alphabet and for one preemption at every instruction of short calls; sequentially consistent schedules only; x86-64 trap flag."),
 "C19": ("exhaustive product exploration of the big- and little-endian codecs", "Both codecs run on every enumerated input and its byte-swapped twin (model-free)."),
 "C20": ("exhaustive product exploration of calls with and without the end flag", "Both calls on every enumerated input and buffer size; the incomplete tail is located by the reference automata."),
 "C21": (E + " of a context-independence law (model-free)", "Periodic prefixes of 0..300 (thorough 1100) units and around powers of two up to 2^17 (2^20), 16 alignments, every tail symbol and pair."),
 "C22": (E + " and complete decoding clients", "All characters, all 2- and 3-byte strings, words and contexts; unit boundaries from the reference automata."),
 "C23": ("exhaustive product exploration of two builds: shipped tables and freshly regenerated tables", "Generators run from every listed starting state; all byte strings up to 2 (3), all characters, both builds compared; test data compared byte for byte."),
 "C24": ("exhaustive product exploration of several builds of the crate (checked, unchecked, debug) and of the same calls interpreted for other targets (Miri: 32/64 bits, both byte orders)",
         "All family members in the two optimised builds; about 70,000 recorded calls (words, blocks, tight rooms) in the debug build and on powerpc, s390x, aarch64, i686. Trusts Miri's implementation of the targets."),
 "C25": ("exhaustive enumeration of calls, each executed step by step in an interpreter that checks every step (Miri), and of pairs of concurrent callers with happens-before race detection",
         "About 100,000 recorded calls. Aliasing models are not enforced; races are judged on the executed schedules."),
 "C26": (E + " at four lengths each, counting executed instructions (x86-64 trap flag)",
         "Every unit class x tail class x room class; a linear law on the instruction counts. Growth below about a tenth of an instruction per earlier unit is not seen."),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    t, n = T[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is driven through the public API. Known findings and fixes: known_findings.txt. Replays: target/release/mc replay <file>."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
