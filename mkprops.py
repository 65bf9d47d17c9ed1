#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements are easy to edit)."""
import json
CORE=["packages/zkenc-core/src/algorithm.rs","packages/zkenc-core/src/data_structures.rs"]
QAP="packages/zkenc-core/src/r1cs_to_qap.rs"
CMD="packages/zkenc-cli/src/commands.rs"; CIRC="packages/zkenc-cli/src/circuit.rs"
JSRS="packages/zkenc-js/src/lib.rs"; JSTS="packages/zkenc-js/src/zkenc.ts"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
p("C01","Every satisfying witness recovers the encapsulated key",
  "For every circuit with at least one private wire and every public statement, the key returned by encapsulation is exactly the key that decapsulation returns for any assignment that satisfies the circuit and agrees with the statement. This holds for the library, for the command-line tool and for the JavaScript package, and for a ciphertext that was written out and read back.",
  ["inputs","programs","histories"],"all circuits (any number of public/private wires and constraints), statements, satisfying assignments and random choices",
  "The core's tests use three hand-made circuits and one assignment each, and none of the stable tests can run the core at all.",
  CORE+[QAP,CIRC,JSRS],[("key computed from the pairing at encapsulation and from A*B - C*delta at decapsulation, both hashed the same way","algorithm.rs encap/decap")],
  ["return values of encapsulation/decapsulation","key files"],state=[("sigma","published group elements","data_structures.rs EncapKey")])
p("C02","Assignments that do not prove the recorded statement yield no key",
  "Decapsulation returns an error, and never a key, when the assignment violates any constraint of the circuit or differs in any position from the public statement recorded in the ciphertext. This holds for every single wire and every single constraint, for the library, the command-line tool and the JavaScript package, and for an assignment shorter than the circuit.",
  ["inputs","programs"],"all circuits, ciphertexts and all non-satisfying or non-matching assignments",
  "The tests try one wrong assignment of one circuit (and accept either outcome); nothing checks each wire and each constraint.",
  CORE+[CIRC,CMD,JSRS],[("satisfaction check, then position-by-position comparison with the recorded public inputs","algorithm.rs decap"),("wire to variable mapping","circuit.rs / lib.rs generate_constraints")],
  ["result of decapsulation","absence of the key output file"])
p("C03","A ciphertext records exactly the supplied statement in wire order",
  "The public statement recorded in a ciphertext has one value per public wire of the circuit (outputs first, then inputs), and each is the value the user supplied under the name the symbol file gives that wire, whatever the order of keys in the JSON and whatever unrelated signals the files contain. The command-line tool and the JavaScript package record the same statement for the same files. If the value of a public wire is not supplied, encapsulation fails in either tool instead of producing a ciphertext for a weaker statement.",
  ["inputs","configurations"],"all circuits, symbol files and input documents (key orders, nesting, missing and extra keys)",
  "The tests only check that encapsulation succeeds for two key orders, never which statement was recorded.",
  [CMD,"packages/zkenc-cli/src/sym_parser.rs",JSTS,"packages/zkenc-js/src/sym_parser.ts",JSRS]+CORE,
  [("symbol-file mapping of JSON keys to wires","commands.rs encap_command/encrypt_command, zkenc.ts encap"),("public inputs taken from the instance assignment","algorithm.rs encap")],
  ["recorded public inputs in the serialized ciphertext"])
p("C04","Every encapsulation and encryption uses fresh, independent randomness",
  "Each encapsulation draws its secret scalars freshly and independently from the random source it is given, so over any history of calls no two ciphertexts share a random group element and no two encapsulations (even of identical inputs) produce the same key. Each message encryption uses a new nonce or initialisation vector, so no two encryptions of any history share one. With the same random source state, encapsulation is a deterministic function of its inputs, and different states give different keys.",
  ["histories","inputs"],"all histories of encapsulations and encryptions, in one process or many",
  "Freshness is a relation over a history of calls; the tests make one or two calls.",
  CORE[:1]+["packages/zkenc-cli/src/crypto.rs","packages/zkenc-js/src/crypto.ts",JSRS,CMD],
  [("five scalars sampled per call","algorithm.rs encap"),("seed from the operating system","lib.rs wasm_encap, commands.rs"),("random nonce / IV","crypto.rs, crypto.ts")],
  ["group elements of the ciphertext","first 12 (GCM) or 16 (CTR) bytes of the output"])
p("C05","A ciphertext does not give away the key or the message",
  "Nothing that is published (the witness ciphertext, the combined ciphertext, what the tools print) contains the key, the private part of an assignment, the secret scalars or the message, and the message bytes never appear unencrypted. The key cannot be obtained from the published group elements by additions, scalar multiplications and pairings without a satisfying assignment.",
  ["inputs","histories"],"all circuits, statements, keys and messages; all generic-group combinations of the published elements up to one pairing product",
  "Tests compare ciphertexts for inequality only; no test takes the position of an attacker.",
  CORE+[CMD,JSTS],[("key hashed from a pairing value of secret exponents","algorithm.rs encap")],
  ["serialized ciphertexts, standard output"])
p("C06","Encrypted messages decrypt to the same bytes, across both tools",
  "For every message (any length including zero, any bytes), every circuit and statement, and with or without embedded public inputs, decrypting what was encrypted with a satisfying witness returns exactly the original bytes. A combined ciphertext made by the command-line tool decrypts with the JavaScript package and the reverse, and its layout is: flag byte, 4-byte big-endian length, witness ciphertext, (when the flag is 1) 4-byte big-endian length and the public-input JSON, encrypted message.",
  ["inputs","histories","configurations"],"all messages, circuits, statements, options and tool combinations",
  "The round-trip tests need the unbuildable core and cover one message per tool; none crosses from one tool to the other.",
  [CMD,JSTS,"packages/zkenc-cli/src/crypto.rs","packages/zkenc-js/src/crypto.ts"],
  [("combined layout written and parsed","commands.rs encrypt_command/decrypt_command, zkenc.ts encrypt/decrypt")],
  ["bytes of the combined ciphertext","decrypted output"])
p("C07","A damaged combined ciphertext never decrypts to different bytes",
  "Decrypting a combined ciphertext that was truncated, extended, spliced with another one or changed in any byte either fails or returns the original message unchanged; it never returns other bytes. Every truncation, every change of the encrypted-message part and every length field that points outside the data is rejected with an error, without a crash.",
  ["inputs","fault_sequences"],"all single-byte changes, all truncation points, and splices of combined ciphertexts, for both tools",
  "No test damages a combined ciphertext; there are as many damages as bits.",
  [CMD,JSTS,"packages/zkenc-cli/src/crypto.rs","packages/zkenc-js/src/crypto.ts"],
  [("length checks and authenticated decryption","commands.rs decrypt_command, zkenc.ts decrypt")],
  ["result of decryption"])
p("C08","Authenticated encryption round-trips and rejects everything else",
  "For every 32-byte key and every message, authenticated encryption outputs a 12-byte nonce, the AES-256-GCM ciphertext and its 16-byte tag, and decryption under the same key returns exactly the message; the Rust and JavaScript implementations read each other's output. Decryption under any other key, of any altered, truncated or spliced data, or of data shorter than 28 bytes fails, and every key that is not 32 bytes long is refused in both directions.",
  ["inputs","histories"],"all keys, messages, and all alterations of a ciphertext",
  "Three tests use one 13-byte message, one wrong key and one wrong key length; decryption's own key check and altered data are untested.",
  ["packages/zkenc-cli/src/crypto.rs","packages/zkenc-js/src/crypto.ts"],
  [("AES-256-GCM with a prepended nonce","encrypt_gcm/decrypt_gcm, aesGcmEncrypt/aesGcmDecrypt")],["returned bytes or error"])
p("C09","Counter-mode encryption round-trips for every key, message and IV",
  "For every 32-byte key and every message, counter-mode encryption outputs a 16-byte initialisation vector followed by a ciphertext of the message's length, and decryption with the same key returns exactly the message; keystream block i is AES-256 of the vector with its last 8 bytes, read as a big-endian number, increased by i (wrapping). Keys that are not 32 bytes long and data shorter than 16 bytes are refused with an error.",
  ["inputs"],"all keys, messages (any length) and initialisation vectors",
  "One 13-byte message is tested, so neither block boundaries nor counter carries nor the refusals of decryption are reached.",
  ["packages/zkenc-cli/src/crypto.rs"],[("AES-256-CTR with a prepended IV","encrypt_ctr/decrypt_ctr")],["returned bytes or error"])
p("C10","Circuit files are read completely and faithfully",
  "Reading a well-formed circuit file yields exactly the header numbers, prime, constraints (every factor's wire and coefficient, in order) and wire labels that the file encodes, in whatever order its sections appear and whatever unknown sections it contains; absent labels default to the wire numbers. The same constraint system results in the command-line tool and in the JavaScript package: both accept exactly the assignments that satisfy every constraint of the file.",
  ["inputs"],"all well-formed circuit files: every section order, field size, count and value",
  "The tests read one file and look only at counts and the first factor.",
  ["packages/zkenc-cli/src/r1cs.rs",CIRC,JSRS],[("two-pass section parser","r1cs.rs from_file, lib.rs parse_r1cs")],["parsed circuit, accepted assignments"])
p("C11","Malformed circuit files are rejected, never read as a weaker circuit",
  "A circuit file with a wrong magic number or version, without a header or constraint section, with more public wires than wires, with a factor naming a wire that the header does not announce, or cut off before the end of the data its counts announce is rejected with an error by both tools. Reading any sequence of bytes terminates without a crash and without using memory out of proportion to the file's size.",
  ["inputs","fault_sequences"],"all byte strings; in particular every truncation and every corrupted count of a well-formed file",
  "No test feeds a malformed file.",
  ["packages/zkenc-cli/src/r1cs.rs",JSRS],[("reads that fail at end of file, magic and version checks","r1cs.rs from_file, lib.rs parse_r1cs")],["result of loading"])
p("C12","Witness files are read completely and faithfully or rejected",
  "Reading a well-formed witness file yields for every wire exactly the field element stored at its position, whatever unknown sections surround the data. Files with a wrong magic number or version, a missing section, a data size that disagrees with the announced count, a value that is not a canonical field element, or a cut-off end are rejected with an error by the command-line tool, and no witness file makes either tool crash or run out of memory.",
  ["inputs","fault_sequences"],"all byte strings as witness files",
  "The witness tests are ignored by default and check wire 0 of two files.",
  ["packages/zkenc-cli/src/witness.rs",JSRS],[("section parser","witness.rs from_file/to_field_elements, lib.rs parse_witness")],["parsed assignment"])
p("C13","Symbol files map every named wire, identically in both tools",
  "Parsing a symbol file gives each signal name the wire number on its line (the last line wins for a repeated name), ignoring signals without a wire (negative number), blank lines and lines that do not have four fields, whatever the line endings and surrounding blanks. The circuit's own signals are exactly those under the main component, named without that prefix, restricted to the given highest wire if there is one. The Rust and JavaScript parsers agree on every symbol file whose wire fields are integers that fit signed 32-bit numbers and whose blanks are ASCII ones.",
  ["inputs"],"all symbol files: names, wire numbers, line order, endings and malformed lines",
  "The Rust parser has no test; the JavaScript tests are not among the stable ones and use one small file.",
  ["packages/zkenc-cli/src/sym_parser.rs","packages/zkenc-js/src/sym_parser.ts"],[("line parser and prefix filter","parse_sym_file/get_input_signals, parseSymFile/getInputSignals")],["returned maps"])
p("C14","Input values denote the same field element in both tools",
  "Every value supplied as an input (an integer or its decimal text, scalar or element of an array nested to any depth) is recorded as that integer reduced into the scalar field, so a negative integer -k denotes the field element p-k. The command-line tool and the JavaScript package give the same field element, equal to the one the witness calculator uses for the same value, or report an error; a value is never silently altered or dropped.",
  ["inputs"],"all integers (small, negative, above 64 bits, around and above the field prime) and all array shapes",
  "Tests use small non-negative numbers in flat arrays.",
  [CMD,JSTS,"packages/zkenc-js/src/sym_parser.ts","packages/zkenc-js/src/witness_calculator.ts"],[("number conversion and array flattening","commands.rs parse_circuit_inputs_with_keys, sym_parser.ts mapInputsToWires, zkenc.ts encap")],["recorded public inputs"])
p("C15","Input documents are flattened completely and in order",
  "Loading an input document for a circuit returns one entry per top-level key holding the values of that key in document order, arrays (nested as deep as the JSON reader accepts, at least 100 levels) flattened row by row: strings verbatim, numbers in decimal exactly as written for integers that fit 64 bits, booleans as 1 or 0 and null as 0. Documents that are unreadable, are not valid JSON or are not an object at the top level are rejected with an error. (What a value contributes that holds an object is left open.)",
  ["inputs"],"all JSON documents",
  "One fixture is loaded and two of its keys are looked at.",
  ["packages/zkenc-cli/src/circom.rs"],[("recursive flattening","circom.rs parse_inputs/flatten_value")],["returned map"])
p("C16","Exported circuits and witnesses survive every export/import path",
  "Exporting a circuit, witness or test case and importing it again through any supported path (JSON text, JSON file, compact binary, binary file, in any sequence and onto existing files) gives back an equal value in every field. Converting a parsed circuit for export preserves every number, prime byte and factor in order, and importing truncated data fails with an error instead of giving a different value.",
  ["inputs","histories"],"all circuits, witnesses, test cases and sequences of export/import steps",
  "The tests round-trip empty constraint lists and compare two or three fields.",
  ["packages/zkenc-cli/src/serializable.rs","packages/zkenc-core/src/serializable.rs","packages/zkenc-cli/src/r1cs.rs"],[("serde derives and file helpers","serializable.rs"),("field-by-field conversion","r1cs.rs to_serializable")],["imported values, file contents"])
p("C17","A failing command leaves its outputs alone and reports failure",
  "When any input of a command is missing, malformed or does not prove the statement, the command exits with a failure status, leaves every output path exactly as it was, and never alters an input file. When it exits successfully every output has been written completely, replacing older content, and each command-line option is connected to the file it is documented for.",
  ["fault_sequences","configurations","inputs"],"all combinations of input-file conditions (present, missing, malformed, mismatched) and pre-existing outputs, for all four commands",
  "The tests run each command once with good files.",
  [CMD,"packages/zkenc-cli/src/main.rs"],[("outputs written after every check","commands.rs"),("argument routing","main.rs")],["exit status, file contents"])
p("C18","Concurrent callers initialise the WebAssembly module once, before use",
  "Under every interleaving of concurrent encapsulations and decapsulations the WebAssembly module is initialised at most once (again only after a failure), and no cryptographic operation of the module starts before that initialisation has completed. When initialisation fails no operation of the module runs and every waiting caller gets an error, and each caller's result belongs to its own arguments.",
  ["schedules","fault_sequences"],"all interleavings of concurrent calls with the completion or failure of initialisation",
  "The JavaScript tests cannot run here and call sequentially.",
  [JSTS],[("shared initialisation promise","zkenc.ts ensureWasmInit")],["calls made to the module"])
p("C19","The witness calculator feeds every input once and returns the exact witness",
  "For every input object the witness calculator sets each signal's elements exactly once, in row-by-row order, as the canonical residue of the given integer modulo the circuit's prime, and refuses unknown signals, too few or too many values and missing inputs. The witness it returns, as numbers, as raw binary or in the standard file layout, contains exactly the values the circuit computed, in wire order, with the circuit's prime and count, for every field width, and repeated or interleaved use of the same calculator never mixes results of different inputs.",
  ["inputs","histories","programs"],"all circuits (field widths, witness sizes, signals), input objects and sequences of calls",
  "The witness tests need a fixture that is not in the repository and check lengths.",
  ["packages/zkenc-js/src/witness_calculator.ts","packages/zkenc-js/src/witness.ts"],[("signal hashing, flattening, normalisation, layout","witness_calculator.ts")],["calls into the circuit instance, returned bytes"])
p("C20","Embedded public inputs are returned exactly, and only when embedded",
  "For every ciphertext encrypted with embedded public inputs, extracting them returns a value equal to what was supplied (numbers as far as JavaScript numbers carry them), whatever its size or characters, including when the ciphertext is a view into a larger buffer; for a ciphertext without embedded inputs extraction fails with an error. Extraction from data cut off before the end of the embedded inputs or data whose length fields point outside it fails with an error and never reads beyond the given bytes.",
  ["inputs","fault_sequences"],"all public-input objects, both options, all truncations, both producing tools",
  "One small object is tested, and not among the stable tests.",
  [JSTS,CMD],[("length-prefixed JSON","zkenc.ts encrypt/getPublicInput, commands.rs encrypt_command")],["returned object"])
p("C21","Published query elements are the circuit's QAP evaluated at one point",
  "When every wire is assigned at encapsulation, the published query vectors have one element per wire and are consistent with a single evaluation point: each wire's element is the sum over constraints of the Lagrange basis value of that constraint times the wire's coefficient, scaled as the scheme prescribes, over a power-of-two domain holding the constraints and the public wires. When wires are unassigned the vectors contain no information about a partial circuit beyond their length.",
  ["inputs","programs"],"all circuits (constraint counts around powers of two, repeated and zero coefficients) and evaluation points",
  "No test evaluates a polynomial; the functions are internal and need arkworks.",
  [QAP,CORE[0]],[("Lagrange evaluation over the FFT domain","r1cs_to_qap.rs evaluate_qap_polynomials_at_x")],["group elements of the ciphertext"])
p("C22","Ciphertext verification accepts exactly the recorded statement",
  "Verifying a ciphertext against a list of public inputs accepts if and only if the list equals the recorded statement in length and in every position. It depends on nothing else, and a ciphertext that was serialized and read back verifies identically.",
  ["inputs"],"all ciphertexts and all candidate statements (prefixes, extensions, permutations, single changes)",
  "The tests check one equal list and one different list.",
  CORE,[("length and element comparison","algorithm.rs verify_ciphertext")],["returned boolean"])
p("C23","The JavaScript package shares no memory with its callers",
  "For every history of calls of the JavaScript package (encap, decap, encrypt, decrypt, getPublicInput, AES encryption and decryption, the symbol-file functions and the witness calculator) by callers that leave the arguments of a call alone until its promise has settled, an operation leaves its arguments as they are, gives a result that depends only on what its arguments contain at the time of the call (not on which object carries the data or on earlier contents of that object), and never changes what an earlier call returned. What callers do to a returned object (wiping a key, editing a document or a map) affects no other object and no later call.",
  ["histories"],"all sequences of calls and of writes of the callers into the objects they hold",
  "The tests use each buffer and each result once and never look at a result again after a later call.",
  [JSTS,"packages/zkenc-js/src/crypto.ts","packages/zkenc-js/src/witness_calculator.ts","packages/zkenc-js/src/sym_parser.ts","packages/zkenc-js/src/witness.ts"],
  [("fresh buffers for every result, arguments read but not kept","zkenc.ts, crypto.ts, witness_calculator.ts")],["contents of all argument and result objects after every call"],state=[("module state","what a package could keep between calls","zkenc.ts wasmInitPromise")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema; s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
print(len(P))
