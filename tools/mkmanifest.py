#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
T = {
"C01": ("model-based round trip over generated databases", "compares every public field of the reopened database with the saved one, on generated databases of every shape; sampled, not exhaustive"),
"C02": ("generated near-miss credentials, must-fail oracle", "near misses are constructed from each generated credential; trusts that SHA-256 has no accidental collisions"),
"C03": ("structure-aware fuzzing under valid encryption, no-panic oracle", "mutated files, payloads, gzip streams, XML trees and values; runs in-process with overflow checks, aborts are detected by a parent process"),
"C04": ("fault-injecting mutation of saved files, reject-or-identical oracle", "every header byte and sampled/enumerated payload modifications of generated files"),
"C05": ("differential testing against an independent KDBX 3.1 decoder", "trusts the harness's own decoder, which is written from the format and checked against published vectors and the repository's fixtures"),
"C06": ("differential testing with an independent KDBX 3.1 encoder and layout generator", "trusts the harness's own encoder; raw carriage returns, which the XML parser in use does not normalise, are not generated"),
"C07": ("secret-scanning oracle over saved bytes, inner XML and Debug output", "secrets are planted tokens long enough that an accidental occurrence is impossible in practice"),
"C08": ("stateful generation of save/construct histories, no-repeat oracle", "collisions of 128-bit or longer random values, or of their 8-byte windows, are taken as violations (probability below 2^-30 per run)"),
"C09": ("metamorphic testing over generated read/write schedules", "the harness owns the reader and writer and their chunking"),
"C10": ("systematic fault injection at every call and offset over generated databases", "every call index of small files, sampled indexes of larger ones"),
"C11": ("round trip and differential testing of key-file formats", "trusts the harness's own key-file encoder and decoder"),
"C12": ("differential testing against an independent key derivation", "trusts the harness's own SHA-256 and AES, self-tested on published vectors"),
"C13": ("model-based testing of searches on generated trees", "reference search written on the harness's model, comparing identities and order-insensitive multisets"),
"C14": ("model-based testing of identifier lookup on generated trees", "reference lookup on the harness's model"),
"C15": ("stateful model-based testing of tree editing and traversal", "reference ordered tree; iterators are used as documented (one live reference at a time)"),
"C16": ("stateful model-based testing of accessors", "reference map of fields; every untouched field compared after every call"),
"C17": ("exhaustive and generated testing of conversions against reference tables", "all one- and two-edit neighbours of valid values plus generated strings; numbers over full ranges near the defined ones and sampled elsewhere"),
"C18": ("generated single-defect headers with expected-error oracle", "every field crossed with generated sizes, values and orders"),
"C19": ("generated single-defect block streams with expected-error oracle", "every position of generated streams"),
"C20": ("generated trees, element orders and move histories with parent-link invariant", "parents are recomputed by the harness from the opened tree"),
"C21": ("generated omission sets against default-value model", "every single omission plus generated subsets"),
"C22": ("stateful model-based testing of edit/save/reopen histories", "reference database state updated alongside the real one"),
"C23": ("generated unrepresentable content, error-or-round-trip oracle", "generated texts, bytes and comments at every text position"),
"C24": ("generated single-defect XML under valid encryption, must-fail oracle", "every typed element crossed with generated malformed values"),
"C25": ("generated hostile sizes and large contents, allocation bound measured by a counting allocator", "peak bytes per open and save against a bound linear in the data; leak check over repeated rounds"),
"C26": ("generated operation sequences over files sharing salts, keys and content, sequential and on parallel threads, model oracle", "every result compared with what the operation alone must give"),
"C27": ("generated failures around marked secrets, secret-scanning oracle over error texts", "Display, Debug and sources of every error scanned for every secret in many encodings"),
"C28": ("metamorphic single-difference generation against structural equality of the model", "one generated change in any field at any depth decides the expected comparison; clones against the model"),
"C29": ("generated construction histories against the documented initial state", "every field of every new object compared with the documented default"),
"C30": ("generated stream failures, wrong credentials, damaged content and error values against the documented meaning of each error", "kind, code, message, cause and text of every error compared with what caused it"),
"C31": ("laws of equality, order and hash over generated tuples of values, and over all values of small types", "reference comparison by the values held; look-ups in maps and sets"),
"C32": ("generated histories of operations on marked secrets, under an allocator that searches every block given back", "no mark in any freed or reallocated block; a value that is not wiped is found, as a control"),
"C33": ("generated contents measured at two sizes, growth-of-work oracle", "processor time at eight times the size may be 14 times as long plus 20 ms; a failure must repeat in five measurements; growth by a logarithm or a small power passes"),
"C34": ("the generated cases of other properties, watched for calls that leave the process", "interposed functions of the C library note every file, socket, process and variable used on the thread; a control shows that they are seen"),
}
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
        "technique": "property-based testing: " + t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
