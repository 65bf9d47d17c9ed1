#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("TLA+ model of the mechanism and of the two tools, checked with TLC; recorded behaviours of the library, `zkenc` and the JavaScript package validated as traces", "library over a 257-element field and BN254 tools on TLC-generated circuits; group arithmetic is a stand-in (exponents), see DESIGN.md"),
 "C02": ("TLA+ models checked with TLC; trace validation of rejections: every wire changed, every single constraint broken, short and foreign assignments", "same stand-ins as C01"),
 "C03": ("TLA+ model of symbol files, documents and statements; trace validation of both tools on TLC-generated documents", "documents of small integers; value forms are C14"),
 "C04": ("TLA+ specification of a random source handed out once (Fresh), checked with TLC; recorded histories of draws validated against it", "histories of up to some 10^5 draws; statistical quality of the operating system's generator is assumed"),
 "C05": ("TLA+ generic-group adversary (Adversary) over recorded encapsulations, plus published bytes of recorded runs compared with every secret", "derivations up to one pairing product and its public scaling; one known finding"),
 "C06": ("TLA+ byte-level specification of the combined ciphertext and of the system; trace validation of all tool combinations", "messages up to a few MB"),
 "C07": ("TLA+ byte-level specification of parsing; TLC judges the recorded outcome of every truncation, byte change and splice", "all positions of some ciphertexts, a few values per position (all 255 in header and length bytes when thorough)"),
 "C08": ('TLA+ specification of AES-256-GCM itself (Aes, Sealing: cipher, GHASH, counter, tag; checked with TLC against the FIPS-197 and GCM vectors); recorded sealing and opening of both implementations validated by TLC', 'messages up to some hundred bytes recomputed in full, longer ones by round trip across implementations'),
 "C09": ('TLA+ specification of AES-256 and its counter mode (64-bit big-endian counter) evaluated by TLC over recorded outputs, including vectors at counter carries', 'keystream recomputed block by block for the recorded messages'),
 "C10": ("TLA+ specification of the circuit-file format as a byte-level parser; TLC-generated files read by both tools, results validated", "files up to some hundred bytes, plus fixtures"),
 "C11": ("TLA+ byte-level parser of circuit files; recorded outcomes for every truncation and corrupted count validated", "one known finding (memory)"),
 "C12": ("TLA+ byte-level parser of witness files; recorded outcomes for well-formed and damaged files validated", "files up to some hundred bytes"),
 "C13": ("TLA+ specification of symbol files at the level of characters; TLC-generated texts parsed by both tools, maps validated", ""),
 "C14": ("TLA+ specification of values modulo p with limb arithmetic; recorded field elements of both tools and the witness calculator validated", ""),
 "C15": ('TLA+ specification of JSON (UTF-8, grammar, escapes, numbers) and of flattening (JsonText); TLC parses each generated or damaged document itself and validates the recorded result', 'documents up to some hundred bytes'),
 "C16": ("TLA+ state machine of stores and export/import paths (Store), checked with TLC; histories replayed into both libraries and validated", ""),
 "C17": ('TLA+ state machine of the commands over files (Command), checked with TLC (CommandMC); combinations of file conditions run through `zkenc` in scratch directories and validated', ''),
 "C18": ("TLA+ state machine of initialisation and callers (Init) refined by the implementation's design (InitImpl), checked exhaustively with TLC including liveness; TLC-generated schedules (InitGen) replayed into the real code, traces validated", 'the module is a stand-in under control of the schedule'),
 "C19": ('TLA+ specification of the witness calculator (Calc: acceptance, values modulo any prime by certificates over byte numbers, the three output forms; CalcMC: the shared-memory design question); generated circuits and histories run on real WebAssembly programs, results validated by TLC', ''),
 "C20": ("TLA+ byte-level specification of extraction; recorded extractions, truncations and length changes validated", ""),
 "C21": ("TLA+ specification of the quadratic arithmetic program; recorded query elements validated by TLC over the toy field", "domains up to 64 points"),
 "C22": ("TLA+ specification; recorded verifications over all changed lists validated", ""),
 "C23": ("TLA+ model of objects, contents and operations (Memory; MemoryMC: why results must be objects of their own); TLC-generated sessions (MemGen) run on the package with all objects read back after every step, validated by TLC (MemTrace)", "sessions of up to 60 steps over two circuits and eight documents"),
}
checks, na = [], []
for pid in sorted(T):
    tech, note = T[pid]
    if os.path.exists(f"{V}/checks/{pid.lower()}.py"):
        checks.append({"property": pid, "quick_cmd": f"python3 bin/check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {pid}", "technique": tech, "level": "model_checking",
                       "level_note": note or "bounded: what TLC enumerates or generates and the real code is run on"})
    else:
        na.append({"property": pid, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), len(na))
