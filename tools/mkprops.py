import sys
import json
CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Authenticated encryption round-trips every message",
 "Decrypting what the authenticated (AES-GCM) encryption produced, under the same key, returns exactly the original message, for every 32-byte key and every message length including empty and multi-megabyte. This holds in the Rust CLI library and in the JavaScript package, for any interleaving of calls with different keys.",
 ["inputs","histories"],"all keys, all message contents and lengths (block boundaries, 64 KiB, >1 MiB), any sequence of interleaved encryptions and decryptions",
 "Tests round-trip three fixed messages under one or two keys; a defect tied to a length, a byte value or the history of calls is not sampled.",
 [CLI+"crypto.rs",JS+"crypto.ts"],[("encrypt_gcm/decrypt_gcm",CLI+"crypto.rs"),("aesGcmEncrypt/aesGcmDecrypt",JS+"crypto.ts")])
p("C02","Any tampering, truncation or wrong key is rejected on decryption",
 "Authenticated decryption returns a plaintext only if the key and every byte of the sealed message are exactly those of an encryption: flipping any bit of nonce, body or tag, dropping, inserting or appending bytes, swapping parts of two sealed messages, or using any other key yields an error and no plaintext. This holds in the Rust CLI library and in the JavaScript package.",
 ["inputs"],"every sealed message, every bit position, every truncation/extension length, every splice of two sealed messages, every differing key (including keys differing in one bit)",
 "Tests flip one byte at one position and try one wrong key; they cannot sweep positions, lengths and key bits.",
 [CLI+"crypto.rs",JS+"crypto.ts"],[("GCM tag verification",CLI+"crypto.rs"),("subtle.decrypt with 128-bit tag",JS+"crypto.ts")])
p("C03","Sealed messages are standard AES-256-GCM, interoperable both ways",
 "A sealed message is exactly a 12-byte nonce, then the AES-256-GCM ciphertext of the message, then the 16-byte tag, with no associated data (28 bytes longer than the message). An independent AES-256-GCM implementation can open what either implementation (Rust CLI library, JavaScript package) produces, and either implementation opens what the independent one produces.",
 ["inputs"],"all keys, nonces (including all-zero and all-ones) and messages",
 "Tests only compose the code with itself, so a symmetric deviation from the format (other tag length, reordered parts, associated data, byte-swapped nonce) passes.",
 [CLI+"crypto.rs",JS+"crypto.ts"],[("nonce||ct||tag layout",CLI+"crypto.rs"),("nonce prefix + subtle AES-GCM",JS+"crypto.ts")])
p("C04","Nonces and IVs are fresh for every encryption",
 "Every call that encrypts (GCM in Rust and JavaScript, CTR in Rust) uses a nonce or IV that has not been used before and whose bits are all unpredictable, regardless of key, message, earlier calls, thread or process. In particular the same key and message never give the same output twice.",
 ["histories","schedules","inputs"],"all sequences of encryptions over one or many threads and processes, same or different keys and messages",
 "Tests compare two encryptions of one message; a nonce that repeats after many calls, across threads or processes, or that has constant bytes or depends on the message is invisible to them.",
 [CLI+"crypto.rs",JS+"crypto.ts"],[("generate_nonce(OsRng), thread_rng IV",CLI+"crypto.rs"),("crypto.getRandomValues",JS+"crypto.ts")])
p("C05","CTR encryption round-trips and is standard AES-256-CTR",
 "CTR encryption of a message is a 16-byte IV followed by the message XORed with the AES-256 counter keystream starting at that IV (16 bytes longer than the message), and decrypting returns the message exactly. Decrypting any IV and body produced by an independent AES-256-CTR implementation returns that implementation's plaintext, wherever the counter's low 64 bits do not wrap around within the message.",
 ["inputs"],"all keys, IVs (counter below the 64-bit wrap) and message lengths",
 "Tests round-trip two or three messages, which any self-inverse stream passes.",
 [CLI+"crypto.rs"],[("encrypt_ctr/decrypt_ctr",CLI+"crypto.rs")])
p("C06","Bad key lengths and short inputs give an error, never a crash",
 "Every encryption and decryption entry point, in Rust and JavaScript, accepts keys of exactly 32 bytes: any other key length is an error. Ciphertexts too short to contain their nonce and tag (28 bytes for GCM) or IV (16 bytes for CTR) are an error, the shortest well-formed ones are accepted, and no input makes these functions crash.",
 ["inputs"],"all key lengths, all ciphertext lengths, all four Rust entry points and both JavaScript ones",
 "Tests try one wrong key length on one function.",
 [CLI+"crypto.rs",JS+"crypto.ts"],[("length checks",CLI+"crypto.rs"),("length checks",JS+"crypto.ts")])
p("C07","R1CS files are read faithfully",
 "Reading a well-formed R1CS file returns every header number, the prime, every constraint in order with every factor's wire and coefficient bytes, and the wire-to-label table, exactly as stored in the file. The reported number of public inputs is the number of public outputs plus public inputs.",
 ["inputs"],"all well-formed files: any field size, any counts (empty to tens of thousands), any wire ids and coefficient bytes, any file size relative to I/O buffer boundaries",
 "Tests parse one fixture and check that counts are positive and vector lengths agree; no coefficient, wire id, label or order is compared with the file.",
 [CLI+"r1cs.rs"],[("R1csFile::from_file",CLI+"r1cs.rs"),("n_public_inputs",CLI+"r1cs.rs")])
p("C08","R1CS section layout is honoured",
 "R1CS sections may come in any order, unknown section types anywhere are skipped, and a section may be longer than the data it needs; a missing wire-to-label section means the identity mapping. A wrong magic number, a version other than 1, or a missing header or constraints section is an error.",
 ["inputs"],"all section orders, any number, type and size of unknown sections, all magic and version values",
 "Both fixtures use one section order with no unknown section; error cases are not tested at all.",
 [CLI+"r1cs.rs"],[("two-pass section table",CLI+"r1cs.rs")])
p("C09","Corrupt or hostile R1CS files give an error, not a crash",
 "Reading any file as R1CS terminates with either a parsed circuit or an error: it never panics, aborts, hangs, or allocates memory out of proportion to the file's size. A file cut short anywhere inside the data it declares is an error.",
 ["inputs","fault_sequences"],"all byte strings: every truncation of valid files, every header and length field set to boundary values, bit flips, random bytes",
 "No test feeds a malformed file.",
 [CLI+"r1cs.rs"],[("read_exact errors, bounded allocation",CLI+"r1cs.rs")])
p("C10","Exporting a circuit loses nothing",
 "Converting a parsed R1CS circuit into the exportable circuit keeps the field size, prime, all wire and input counts and every constraint's factors (side, order, wire, coefficient bytes) exactly.",
 ["inputs"],"all parsed circuits, including empty linear combinations, repeated wires, unequal sizes of the three sides",
 "Tests compare lengths and one factor of one constraint's first side in one fixture.",
 [CLI+"r1cs.rs",CLI+"serializable.rs"],[("to_serializable",CLI+"r1cs.rs")])
p("C11","Saved circuits, witnesses and test cases load back equal",
 "Writing a circuit, a witness or a test case to JSON (and a circuit to the binary form), in memory or to a file, and reading it back yields an equal value for every content, including optional labels and arbitrary Unicode names. Saving over an existing file leaves exactly the new content.",
 ["inputs","histories"],"all values of the exported types, all sequences of saves and loads on the same path",
 "Tests round-trip one tiny circuit with no constraints and compare two counters.",
 [CLI+"serializable.rs",CORE+"serializable.rs"],[("serde JSON / bincode",CLI+"serializable.rs"),("serde JSON / bincode",CORE+"serializable.rs")])
p("C12","The CLI and core exchange formats are the same and stay stable",
 "Anything the CLI package exports as JSON or binary is read by the core package as the same value and vice versa, and both produce identical bytes for the same circuit (up to the order of entries in unordered maps). The committed binary test-case fixtures and documented field names remain readable with the same content.",
 ["inputs","configurations"],"all circuits and witnesses, both directions, both encodings; the committed fixtures",
 "Each package only tests itself; the fixtures are read only by core tests that do not build here.",
 [CLI+"serializable.rs",CORE+"serializable.rs"],[("duplicated data structures",CLI+"serializable.rs"),("duplicated data structures",CORE+"serializable.rs")])
p("C13","Corrupt exported data gives an error, not a crash or a wrong value",
 "Loading any byte string as an exported circuit (JSON or binary), witness or test case either fails with an error or yields a value, without panicking, hanging or allocating memory out of proportion to its size. A strict prefix of an exported value is an error.",
 ["inputs"],"all byte strings: truncations, bit flips, boundary length fields, random bytes",
 "No test loads malformed data.",
 [CLI+"serializable.rs",CORE+"serializable.rs"],[("from_json/from_bincode/load_*",CLI+"serializable.rs")])
p("C14","Input JSON is flattened completely and in order",
 "Parsing a circuit input file returns, for every top-level key, the list of its leaf values in document order with arrays of any nesting flattened: strings verbatim, integers in decimal, true/false as 1/0 and null as 0. No key or leaf is lost, duplicated, reordered or rounded, and a file that is not valid JSON or not an object is an error.",
 ["inputs"],"all JSON objects: any keys, any array nesting and length, big decimal strings, all 64-bit integers, duplicates of values, Unicode",
 "Tests read two fixtures and check a few names and one length.",
 [CLI+"circom.rs"],[("parse_inputs/flatten_value",CLI+"circom.rs")])
p("C15","Symbol files are parsed into the exact signal-to-wire map",
 "Parsing a symbol file maps each four-field line's signal name (surrounding whitespace ignored, fields separated by commas) to its wire number, in the Rust CLI library and in the JavaScript package (each name standing on one line of the file). Lines without exactly four fields and signals with a negative wire number are left out; Unix or Windows line ends, blank lines and a missing final newline make no difference.",
 ["inputs"],"all symbol files: any number of lines, names, wire numbers up to 2^31-1, junk lines, line ends, whitespace",
 "Tests use one eight-line sample; large wire numbers, junk lines, line ends and repeats are not sampled.",
 [CLI+"sym_parser.rs",JS+"sym_parser.ts"],[("parse_sym_file",CLI+"sym_parser.rs"),("parseSymFile",JS+"sym_parser.ts")])
p("C16","Input-signal selection keeps exactly the main signals in range",
 "From a signal map, selecting input signals returns exactly the signals whose name starts with `main.`, with that one prefix removed and the same wire, and, when a maximum is given, only those whose wire number is at most that maximum. This holds in the Rust CLI library and in the JavaScript package.",
 ["inputs"],"all signal maps, all maxima including 0, none and the largest wire",
 "The JavaScript test checks four names without a maximum; Rust has no test of it.",
 [CLI+"sym_parser.rs",JS+"sym_parser.ts"],[("get_input_signals",CLI+"sym_parser.rs"),("getInputSignals",JS+"sym_parser.ts")])
p("C17","The Rust and JavaScript symbol readers agree",
 "For every well-formed symbol file the CLI and the JavaScript package derive the same signal map and the same input-signal selection, so both tools bind the same JSON name to the same wire. This includes the committed circuit symbol files.",
 ["inputs","configurations"],"all well-formed symbol files and all maxima; the four committed symbol files",
 "Each implementation is tested alone on different samples.",
 [CLI+"sym_parser.rs",JS+"sym_parser.ts"],[("duplicated parsers",CLI+"sym_parser.rs"),("duplicated parsers",JS+"sym_parser.ts")])
p("C18","JSON inputs map to wires by name, whatever the key order",
 "In the JavaScript package, mapping input JSON to wires assigns each named leaf - scalars, array elements at any nesting `a[i][j]`, and fields of nested objects `a.b` - to the wire of that name, and assigns nothing else. The result does not depend on the order of keys, and unknown names are ignored.",
 ["inputs"],"all input objects with scalar, array, nested array and nested object values, all key orders, zero/negative/huge values as string, number or bigint",
 "Tests map two scalars and one flat array; nested arrays, objects, falsy values and mixes are not sampled.",
 [JS+"sym_parser.ts"],[("mapInputsToWires",JS+"sym_parser.ts")])
p("C19","Witness files are read exactly",
 "The CLI reads a well-formed witness file, whatever other sections it contains, as exactly the stored prime, element count and value of every wire, and converts each value to the field element it encodes. The committed witness files of both circuits are read in full and satisfy their circuits.",
 ["inputs"],"all well-formed witness files: any element count, any values in the field, sections in any order, unknown sections anywhere",
 "The two tests are ignored by default and check only counts and wire 0.",
 [CLI+"witness.rs"],[("WitnessFile::from_file/to_field_elements",CLI+"witness.rs")])
p("C20","Corrupt or hostile witness files give an error, not a crash",
 "Reading any byte string as a witness file - in the CLI and through the JavaScript bindings - or as a circuit through the bindings terminates with a value or an error: no panic, abort, hang, or memory use out of proportion to its size. Bad magic or version, missing sections, truncation inside declared data, or (in the CLI) a data size that disagrees with the count are errors.",
 ["inputs","fault_sequences"],"all byte strings: truncations, boundary values in every length and count field, section reorderings, random bytes",
 "No test feeds a malformed witness.",
 [CLI+"witness.rs",JS+"lib.rs"],[("WitnessFile::from_file",CLI+"witness.rs"),("parse_witness/parse_r1cs",JS+"lib.rs")])
p("C21","Computed witnesses satisfy the circuit and encode identically",
 "For every valid input, the JavaScript witness calculator produces a full witness that satisfies every constraint of the circuit's R1CS file with the given inputs on their wires. Its array, raw binary and .wtns outputs carry the same values, the .wtns output is a well-formed container with correct section lengths, prime and count, and recalculating or reusing a calculator gives the same result.",
 ["inputs","histories"],"all satisfying inputs of the available circuits, all three encodings, any sequence of calculations on one or several calculators",
 "Tests check the output size, wire 0 and determinism for one puzzle.",
 [JS+"witness_calculator.ts",JS+"witness_calculator.js",JS+"witness.ts"],[("WitnessCalculator",JS+"witness_calculator.ts"),("calculateWitness",JS+"witness.ts")])
p("C22","Witness inputs are validated and normalised",
 "The JavaScript witness calculator fails with an error, and returns no witness, when an input signal is unknown (and given values), missing, has too few or too many values, or violates the circuit. Equivalent spellings of a value - number, decimal or hex string, bigint, negative or unreduced modulo the field prime, nested or flat arrays, any key order - give the identical witness.",
 ["inputs"],"all malformed input objects for the available circuits, all equivalent spellings of each value",
 "Tests try one missing input; normalisation of negatives or unreduced values is untested.",
 [JS+"witness_calculator.ts",JS+"witness_calculator.js"],[("_doCalculateWitness, normalize, flatArray, fnvHash",JS+"witness_calculator.ts")])
p("C23","The combined ciphertext has the documented layout",
 "JavaScript encryption outputs exactly: one flag byte (1 if the public input is embedded, else 0), the big-endian 32-bit length of the witness ciphertext, that ciphertext, then if flagged the big-endian 32-bit byte length and UTF-8 JSON of the public input, then the sealed message, and nothing else. Reading the public input back returns a value equal to the one embedded, and is an error when none was embedded.",
 ["inputs","configurations"],"all messages, public inputs (Unicode, large, nested, empty), both settings of the option including its default, witness-ciphertext lengths across byte boundaries, ciphertexts held in larger buffers",
 "Tests check one ciphertext's total length and one ASCII public input.",
 [JS+"zkenc.ts"],[("encrypt, getPublicInput",JS+"zkenc.ts")])
p("C24","Malformed combined ciphertexts are rejected by JavaScript decryption",
 "JavaScript decryption of bytes that differ from what encryption produced never returns anything but the original message, and throws whenever they are truncated, extended, changed in a length field or in the sealed message, or arbitrary data. Reading the embedded public input of bytes that end before their declared lengths, or whose flag is not 1, throws.",
 ["inputs","fault_sequences"],"every truncation, every byte position and bit, every length field set to boundary values, random bytes",
 "Tests try one empty or short buffer.",
 [JS+"zkenc.ts",JS+"crypto.ts"],[("decrypt/getPublicInput bounds checks",JS+"zkenc.ts"),("GCM authentication",JS+"crypto.ts")])
p("C25","JavaScript encryption then decryption returns the message",
 "For every circuit, matching inputs and message, JavaScript decryption of what JavaScript encryption produced returns the message byte for byte, with and without embedded public input, and the key returned by encryption equals the key recovered from the ciphertext. This does not depend on whether buffers are views into larger ones, and no argument passed in is modified.",
 ["inputs","configurations"],"all messages (any length and bytes), both options, buffers and subarray views, any sequence of operations",
 "The end-to-end tests need the compiled WebAssembly package and use one or two text messages.",
 [JS+"zkenc.ts",JS+"crypto.ts",JS+"witness.ts"],[("encap/decap/encrypt/decrypt",JS+"zkenc.ts")])
p("C26","JavaScript encryption commits to exactly the given public inputs",
 "JavaScript encapsulation hands the key-encapsulation core a well-formed assignment in which the constant is 1 and every named public input stands on its own wire with its value reduced modulo the field prime, whatever the key order, nesting or spelling of the value. If the circuit's public wires are not all given, it fails instead of encrypting to a weaker statement.",
 ["inputs"],"all public-input objects, key orders, spellings (negative, hex, unreduced), nested arrays; every subset of missing inputs",
 "Tests only check that encapsulation of one flat object yields bytes of the right size.",
 [JS+"zkenc.ts",JS+"sym_parser.ts",JS+"lib.rs"],[("witness assembly and serialisation",JS+"zkenc.ts"),("public-input extraction",JS+"lib.rs")])
p("C27","Concurrent JavaScript operations do not interfere",
 "Any number of overlapping JavaScript encrypt, decrypt, encapsulate, decapsulate and witness calls, including the very first ones, each return the result they would return alone; the WebAssembly module is initialised before its first use and initialised once.",
 ["schedules","histories"],"all interleavings of overlapping calls with different circuits, inputs and messages, including calls that fail",
 "Tests await each call before the next.",
 [JS+"zkenc.ts",JS+"witness_calculator.ts"],[("ensureWasmInit",JS+"zkenc.ts"),("per-call calculator instance",JS+"witness.ts")])
p("C28","A satisfying witness always recovers the encapsulated key",
 "For every circuit with at least one private wire and every public input, a key encapsulated from the public input alone is recovered exactly by decapsulating with any full witness that satisfies the circuit and agrees on the public input - through the core library, the CLI commands and the JavaScript bindings, and across them. CLI encrypt followed by CLI decrypt returns the message file byte for byte.",
 ["inputs","configurations"],"all satisfiable circuits with private wires, all satisfying witnesses, all messages, all pairs of tools",
 "These tests need dependencies that are absent here and cover two fixed circuits with one witness each.",
 [CORE+"algorithm.rs",CLI+"commands.rs",CLI+"circuit.rs",JS+"lib.rs"],[("encap/decap",CORE+"algorithm.rs"),("commands",CLI+"commands.rs"),("wasm_encap/wasm_decap",JS+"lib.rs")])
p("C29","Decapsulation refuses witnesses that do not satisfy the circuit",
 "Decapsulation - core library, CLI and JavaScript bindings - returns an error and no key whenever the witness violates any constraint of the circuit or leaves a wire without a value. For the CLI this means a failing exit status and no key or plaintext file.",
 ["inputs"],"all circuits, every single-wire corruption of a satisfying witness that breaks a constraint, missing wires, witnesses of other circuits",
 "Tests use at most one wrong witness.",
 [CORE+"algorithm.rs",CLI+"circuit.rs",JS+"lib.rs"],[("is_satisfied gate",CORE+"algorithm.rs"),("witness size check",JS+"lib.rs")])
p("C30","Decapsulation refuses a different public input",
 "Decapsulation returns an error and no key when the witness's public values differ in any position from the public inputs the ciphertext was made for, even if the witness satisfies the circuit. This holds through the core library, the CLI and the JavaScript bindings.",
 ["inputs"],"all circuits and pairs of satisfying witnesses whose public parts differ in one or more positions, first or last",
 "Tests use one circuit and one mismatch.",
 [CORE+"algorithm.rs"],[("public input comparison",CORE+"algorithm.rs")])
p("C31","Ciphertexts are bound to every public input of the circuit",
 "The ciphertext the CLI or the bindings produce carries exactly the values of all public wires (outputs and inputs) in wire order, taken from the input JSON by signal name or from the given assignment. If some public value is not given, or does not name a field element, the operation fails instead of producing a ciphertext bound to fewer or other values.",
 ["inputs"],"all circuits with any split of public outputs, inputs and private wires; all JSON spellings, key orders, nestings; every subset of missing inputs",
 "Tests only use circuits without public outputs and complete inputs.",
 [CLI+"commands.rs",CLI+"sym_parser.rs",CORE+"algorithm.rs",JS+"lib.rs"],[("input mapping",CLI+"commands.rs"),("public input extraction",CORE+"algorithm.rs")])
p("C32","Every encapsulation is fresh",
 "Two encapsulations never produce the same key, the same ciphertext, or a shared random group element, even for the same circuit and inputs, in the same or different processes and threads, through the core library with a cryptographic generator, the CLI and the bindings. Keys are 32 bytes.",
 ["histories","schedules"],"all sequences of encapsulations over threads and processes",
 "Tests compare two runs at most.",
 [CORE+"algorithm.rs",CLI+"commands.rs",JS+"lib.rs"],[("random scalars",CORE+"algorithm.rs"),("OsRng",CLI+"commands.rs"),("getrandom-seeded StdRng",JS+"lib.rs")])
p("C33","Ciphertexts and keys survive serialisation; bad ones are rejected",
 "Serialising and deserialising a ciphertext or key yields an equal value, the key file is the 32 key bytes, and truncated or invalid ciphertext bytes are an error without a crash. Ciphertext verification accepts exactly the public-input list stored in the ciphertext: same length, same values, same order.",
 ["inputs"],"all ciphertexts, all truncations and corruptions, all public-input lists including prefixes, extensions and permutations",
 "Tests check one matching and one mismatching list.",
 [CORE+"data_structures.rs",CORE+"algorithm.rs"],[("derived canonical serialisation",CORE+"data_structures.rs"),("verify_ciphertext",CORE+"algorithm.rs")])
p("C34","Circuit satisfaction equals the R1CS equation",
 "The constraint system built from an R1CS file, in the CLI and in the JavaScript bindings, is satisfied by an assignment exactly when (A·w)(B·w) = C·w holds modulo the field prime for every constraint in the file, with wire 0 equal to 1 and public wires as instance variables in order. Coefficients are read as little-endian field elements.",
 ["inputs"],"all circuits and assignments: repeated wires, empty sides, constants, coefficients up to the prime, satisfied and minimally violated assignments",
 "The synthesis test only runs on all-zero values and accepts either outcome.",
 [CLI+"circuit.rs",JS+"lib.rs"],[("generate_constraints",CLI+"circuit.rs"),("generate_constraints/build_lc",JS+"lib.rs")])
p("C35","CLI and JavaScript ciphertexts are interchangeable",
 "The combined ciphertext file written by the CLI has the same layout as the JavaScript package's, embeds the input file's JSON text unless told not to, and is decrypted by the JavaScript package; the CLI decrypts what the JavaScript package wrote. Each recovers the exact message.",
 ["inputs","configurations"],"all messages, inputs, both embedding options, both directions",
 "No test exchanges data between the two tools.",
 [CLI+"commands.rs",JS+"zkenc.ts"],[("encrypt_command/decrypt_command",CLI+"commands.rs"),("encrypt/decrypt",JS+"zkenc.ts")])
p("C36","A failing CLI command reports failure and leaves no output",
 "When a CLI command cannot do its work - bad or missing circuit, symbol, input, witness or ciphertext file, corrupted combined ciphertext, wrong witness - it exits with a failure status and a message, without a panic, and writes none of its output files. When it succeeds, every output file is complete.",
 ["inputs","fault_sequences"],"every command with every input file missing, truncated, corrupted or mismatched; every truncation of a combined ciphertext and every flip in its lengths or sealed message",
 "Tests run only successful commands.",
 [CLI+"commands.rs",CLI+"main.rs"],[("anyhow error propagation before writes",CLI+"commands.rs")])
p("C37","Input numbers mean the same field element in every tool",
 "A JSON input value - an integer of at most 53 bits or a plain decimal string (an optional minus sign and digits without leading zeros), negative, zero, or larger than the field prime - denotes the same field element (its value modulo the prime) in CLI encryption, JavaScript encryption and witness calculation. A fractional number or a non-numeric word is an error in each.",
 ["inputs","configurations"],"all integers and decimal strings, in scalars and nested arrays, across the three consumers",
 "Tests use small non-negative numbers in one tool at a time.",
 [CLI+"commands.rs",JS+"zkenc.ts",JS+"witness_calculator.ts"],[("parse_circuit_inputs_with_keys",CLI+"commands.rs"),("BigInt conversion",JS+"zkenc.ts"),("normalize",JS+"witness_calculator.ts")])
p("C38","The key cannot be computed from the ciphertext without a witness",
 "Nobody can obtain the encapsulated key from the public ciphertext and circuit alone: the key is not contained in the ciphertext and is not a function of its public group elements and public inputs.",
 ["inputs"],"all ciphertexts produced by encapsulation, against the direct public computations an eavesdropper can run",
 "Tests never play the adversary.",
 [CORE+"algorithm.rs"],[("key derivation from the pairing",CORE+"algorithm.rs")])
p("C39","File operations report I/O failures instead of losing data",
 "Every file-based entry point of the Rust library returns an error when its file is missing, is a directory, cannot be created, or cannot be written completely (disk full), and never reports success with incomplete content. Loading a circuit's R1CS and WASM pair succeeds exactly when both files can be read.",
 ["fault_sequences","inputs"],"every load and save function, every injected failure (missing, directory, no parent, full device, size limit)",
 "No test injects an I/O failure.",
 [CLI+"circom.rs",CLI+"serializable.rs",CORE+"serializable.rs",CLI+"r1cs.rs"],[("error propagation",CLI+"serializable.rs"),("load_circom_circuit",CLI+"circom.rs")])
p("C40","Encapsulation and decapsulation compute the documented scheme",
 "Encapsulation to a circuit whose constraints can be generated publishes, for every wire i and secret random alpha, beta, delta, r, x, exactly r*u_i(x) in G1, r*v_i(x) in G2 and (r*beta*u_i(x) + r*alpha*v_i(x) + r^2*w_i(x))/delta in G1, where u, v, w interpolate the wire's coefficients in the constraints over a power-of-two domain, and returns as key the BLAKE3 hash of e(alpha,beta) + e(sum over the constant and public wires of a_i*phi_i/delta, G2). Decapsulation returns the BLAKE3 hash of e(A,B) - e(C,delta) with A, B, C the sums alpha + sum a_i*u_i, beta + sum a_i*v_i and sum a_i*phi_i over all wires of the witness.",
 ["inputs"],"all circuits (including none, one and a power-of-two number of constraints, wires missing on a side), all witnesses, all well-formed ciphertexts including ones no encapsulation made, in the core library, with the CLI's circuit and through the bindings",
 "Tests check that encapsulation returns something and that two keys agree; in the tools' own flow the queries are all neutral, so no test or use observes the polynomials.",
 [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs",CORE+"data_structures.rs"],[("encap, decap",CORE+"algorithm.rs"),("evaluate_qap_polynomials_at_x",CORE+"r1cs_to_qap.rs")])
p("C41","CLI commands touch only their outputs and do not interfere",
 "A CLI command leaves its input files and everything else in its surroundings (working directory, home, temporary directory, files that happen to lie beside its own) byte for byte as they were: when it succeeds only its named output files have changed, when it fails nothing has. Any number of commands running at the same time in one directory, sharing inputs and writing differently named outputs, each do what they would do alone, and an output may name the same file as one of the command's own inputs.",
 ["schedules","histories","inputs","fault_sequences"],"all file names and directory layouts, relative and absolute paths, existing neighbours and outputs, all interleavings of commands in one directory, every replacement of an input by an output, succeeding and failing commands",
 "Tests run one command at a time with fixed names and never look at anything but its output.",
 [CLI+"commands.rs",CLI+"main.rs"],[("reads before writes, direct writes to the named paths",CLI+"commands.rs")])
p("C42","No secret is printed or put into an error message",
 "Neither the CLI commands, the core library, the bindings nor the JavaScript package ever write a key, a message, a private witness or input value, or the random numbers of an encapsulation to standard output, standard error, the console or an error, in any spelling, whether they succeed or fail. Public inputs and sizes may be shown.",
 ["inputs","fault_sequences"],"all circuits, witnesses, messages and keys; successful operations and ones that fail on missing, damaged or wrong files, ciphertexts, keys or inputs",
 "Tests do not look at what is printed.",
 [CLI+"commands.rs",CORE+"algorithm.rs",CLI+"witness.rs",JS+"zkenc.ts",JS+"witness_calculator.ts",JS+"lib.rs"],[("progress output and errors",CLI+"commands.rs"),("progress output",CORE+"algorithm.rs"),("thrown errors",JS+"zkenc.ts")])
p("C43","CLI options select the files they name, however they are spelled",
 "Every documented option works in its long form (--name value, --name=value) and its documented short form (-c circuit, -s sym, -i input or decrypt's ciphertext, -k key, -w witness, -m message, -o output), in any order, and names exactly the file it documents; --no-public-input leaves the public input out and its absence embeds it. A missing required option, an unknown option or argument, or an unknown command is refused with a failure status and a message, and no file is touched.",
 ["inputs","configurations"],"all orders and spellings of all options of the four commands, every missing option, options of other commands",
 "The tests call the command functions directly and never parse a command line.",
 [CLI+"main.rs"],[("clap definitions and dispatch",CLI+"main.rs")])
p("C44","Library calls from several threads give what each gives alone",
 "Any number of threads of one process may at the same time read R1CS, witness, symbol and input files, export, save and load the exchange formats of both packages, seal and open messages, build and check circuits, encapsulate, decapsulate and call the command functions, on the same or different inputs and with outputs of different names, some of the calls failing: each call ends and gives the result, or the refusal, that it gives when nothing else runs.",
 ["schedules","inputs","histories"],"all interleavings of all public functions of the Rust packages over any inputs, differing in field size, size and validity, with outputs that share stems, extensions or directories",
 "Tests run in parallel at best by accident, on the same two circuits, and judge only their own fixed values.",
 [CLI+"r1cs.rs",CLI+"witness.rs",CLI+"circuit.rs",CLI+"commands.rs",CLI+"serializable.rs",CORE+"serializable.rs",CORE+"algorithm.rs",CLI+"crypto.rs",CLI+"sym_parser.rs",CLI+"circom.rs",JS+"lib.rs"],[("readers that keep their state in local variables",CLI+"r1cs.rs"),("saves that write directly to the named path",CLI+"serializable.rs"),("constraint systems made per call",CORE+"algorithm.rs")])
p("C45","Long use leaves nothing behind: memory, descriptors, threads and files",
 "A process that keeps calling the library - reading R1CS, witness, symbol and input files, saving and loading the exchange formats, sealing and opening, building circuits, encapsulating, decapsulating, encrypting, decrypting, computing witnesses, in Rust and in JavaScript, always with new inputs, one call after another or several at once, some of them failing - holds no more memory, open file descriptors, threads, WebAssembly instances, timers or listeners after many calls than after some, leaves no files other than the outputs it was asked for, and its calls go on succeeding. (A cache of bounded size is allowed.)",
 ["inputs","histories"],"histories of thousands of calls of every public function with distinct inputs, refusals among them",
 "Tests make each call once in a process that then ends.",
 [CLI+"r1cs.rs",CLI+"witness.rs",CLI+"circom.rs",CLI+"sym_parser.rs",CLI+"crypto.rs",CLI+"serializable.rs",CLI+"circuit.rs",CLI+"commands.rs",CORE+"serializable.rs",CORE+"algorithm.rs",JS+"lib.rs",JS+"zkenc.ts",JS+"witness.ts",JS+"witness_calculator.ts",JS+"crypto.ts",JS+"sym_parser.ts"],[("files opened per call and closed with their reader",CLI+"r1cs.rs"),("constraint systems made per call",CORE+"algorithm.rs"),("a WebAssembly instance per calculator",JS+"witness_calculator.ts"),("initialisation promise kept once",JS+"zkenc.ts")])
p("C46","Costs stay in proportion to the size of the input",
 "Reading R1CS, witness, symbol and input files, exporting and building circuits, saving and loading the exchange formats, sealing and opening, mapping inputs to wires, computing and serialising witnesses, encapsulating, decapsulating, encrypting, decrypting and reading the public input back take CPU time and memory in proportion (up to a logarithm) to the size of what they are given - constraints, factors, wires, labels, sections, public inputs, array elements, names, message bytes - so that a circuit with a hundred times the constraints costs about a hundred times as much, and not ten thousand times.",
 ["inputs"],"files, inputs, circuits and messages of every size in each of their dimensions",
 "Tests use one or two small circuits, on which a quadratic step takes milliseconds.",
 [CLI+"r1cs.rs",CLI+"witness.rs",CLI+"circom.rs",CLI+"sym_parser.rs",CLI+"crypto.rs",CLI+"serializable.rs",CLI+"circuit.rs",CLI+"commands.rs",CORE+"serializable.rs",CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs",JS+"lib.rs",JS+"zkenc.ts",JS+"witness.ts",JS+"witness_calculator.ts",JS+"crypto.ts",JS+"sym_parser.ts"],[("one pass over the sections and over each",CLI+"r1cs.rs"),("signals in a hash map",CLI+"sym_parser.rs"),("Lagrange coefficients computed once for all variables",CORE+"r1cs_to_qap.rs"),("wires looked up in a map",JS+"sym_parser.ts")])
p("C47","Commands and calls depend only on their options, arguments and named files",
 "Each of the four commands does the same - same results, same refusals, outputs in the same places, keys and nonces that never repeat - whatever the environment variables (set, unset, empty or hostile), the working directory (elsewhere, behind a symbolic link, removed), files nobody named that lie beside the inputs, in the home, temporary or working directory, the standard streams (closed, a pipe, a terminal, a silent or talking input), the clock, the ages of the files, the process number, the name it is called by, the umask, the number of CPUs and the user, as long as the named files can be read and written. What is made in one environment opens in every other. A call of the JavaScript package likewise depends only on its arguments: it works and gives the same in Node.js and browsers, whatever variables, globals, clock, Math.random, locale, working directory or stored settings there are, asks no network and writes no files.",
 ["configurations"],"all environments a process or page can be started in, crossed with the commands and calls and with inputs that must succeed and that must fail",
 "Tests run in one environment, the developer's, with nothing set that the code could ask for.",
 [CLI+"main.rs",CLI+"commands.rs",CLI+"circom.rs",CLI+"witness.rs",CLI+"crypto.rs",CLI+"circuit.rs",CORE+"algorithm.rs",JS+"zkenc.ts",JS+"crypto.ts",JS+"witness.ts",JS+"witness_calculator.ts",JS+"sym_parser.ts"],[("paths used as given",CLI+"commands.rs"),("randomness from the operating system alone",CORE+"algorithm.rs"),("nonces from the operating system alone",CLI+"crypto.rs"),("randomness from Web Crypto alone, available in Node.js and browsers",JS+"crypto.ts")])
p("C48","Calls in JavaScript leave arguments alone and give results of their own",
 "No call of the JavaScript package, whether it succeeds or is refused, changes any of its arguments: not the bytes of an array or of the memory around it, not an object, array, map or option at any depth (frozen ones serve as well). Arguments count by their contents at the call alone: byte arrays may be views, Node.js Buffers, subclasses or come from another realm (an iframe, a vm context); objects may be frozen, without prototype, instances of classes, with accessors, reactive proxies, or from another realm; an array or object that an earlier call was given may have been filled anew. What a call returns is the caller's alone: changing it does not change any argument, any other result or what later calls give, and changing the arguments after the call does not change it.",
 ["inputs","histories"],"all exported functions with arguments of all shapes, in histories in which the caller changes, reuses and refills what it gave and what it got",
 "Tests pass fresh plain objects once and drop the results.",
 [JS+"zkenc.ts",JS+"crypto.ts",JS+"witness.ts",JS+"witness_calculator.ts",JS+"sym_parser.ts"],[("result arrays allocated per call",JS+"crypto.ts"),("witness buffers allocated per calculation",JS+"witness_calculator.ts"),("maps built per call",JS+"sym_parser.ts"),("public inputs parsed anew from the bytes",JS+"zkenc.ts")])
p("C49","The Rust code gives the same results in every build",
 "What the Rust packages compute from given inputs and given random numbers - parsed circuits, witnesses, symbols and inputs, exchange formats, sealed and opened messages, ciphertexts, keys, combined files - and what they refuse is the same whichever way they are built: for debugging or for release, with or without optional cargo features, natively or as the WebAssembly module that the JavaScript package ships, with 64-bit or with 32-bit words. In particular counts, sizes and lengths in files are honoured or refused by their full value on 32-bit builds, and no input makes one build panic, overflow or accept where another refuses.",
 ["inputs","configurations"],"all inputs of all public functions, well-formed or not, in all builds: profiles, feature sets and target word sizes",
 "Tests are built once, for debugging, for the developer's 64-bit machine; the WebAssembly module is never run by them.",
 [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs",CORE+"serializable.rs",CLI+"r1cs.rs",CLI+"witness.rs",CLI+"circom.rs",CLI+"sym_parser.rs",CLI+"crypto.rs",CLI+"serializable.rs",CLI+"circuit.rs",CLI+"commands.rs",JS+"lib.rs"],[("section lengths compared in 64 bits before they are narrowed",JS+"lib.rs"),("size of witness data compared in 64 bits",CLI+"witness.rs"),("lengths of a combined file compared without addition",CLI+"commands.rs")])
p("C50","The playground page opens a message to those who solve its circuit only",
 "On the playground page of the documentation site, in both of its tabs: once a message, a puzzle (typed or generated) or public inputs (typed or uploaded) and, for a custom circuit, its .r1cs, .wasm and .sym files are entered, in any order, encryption succeeds, and the file offered for download holds exactly the message and the public inputs that were in the fields when the button was pressed (the public inputs embedded as chosen), as the package and other pages read them; its size is the one stated. Whoever loads that file, on the same page or on another, sees the embedded puzzle or public inputs, may not edit given cells in the solution, and sees exactly the message once a correct solution or private inputs (alone, merged with the public ones, or with them) are entered. Incomplete or wrong ones, unreadable JSON, a damaged file, a file sealed to something else, or circuit files that do not load give an error and show no message, also when one was shown before, and do not stand in the way of a later correct attempt; the page never stays busy.",
 ["histories","inputs","schedules"],"all sequences of typing, uploading, choosing and pressing on the page, with files and network answers arriving in any order or failing",
 "No test renders the page.",
 ["docs/src/components/PlaygroundClient.tsx","docs/src/pages/playground.tsx",JS+"zkenc.ts"],[("uploads merged into the files loaded so far","docs/src/components/PlaygroundClient.tsx"),("public inputs merged with the private ones","docs/src/components/PlaygroundClient.tsx"),("the shown message cleared before every decryption","docs/src/components/PlaygroundClient.tsx")])
open(sys.argv[1] if len(sys.argv)>1 else '/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
