"""What decides each property: the monitor components, in order, and how cases are made."""
P = lambda **k: dict({"run": "part", "name": "rust"}, **k)
J = lambda **k: dict({"run": "js", "name": "js"}, **k)
F = lambda **k: dict({"run": "full", "name": "full"}, **k)
CHECKS = {}
# Also under AddressSanitizer in the quick tier when the sources contain `unsafe` (the thorough tier always does it).
ASAN = {"C01", "C06", "C07", "C09", "C12", "C13", "C15", "C16", "C18", "C20", "C34"}


def add(prop, components, technique, rule, note, assumptions=()):
    CHECKS[prop] = {"components": components, "technique": technique, "rule": rule, "note": note, "assumptions": list(assumptions)}

EXPL = "Exploration: the real code of the working tree ran under the monitors on the counted executions; nothing is claimed beyond them. "
add("C01", [P(), J()], "runtime monitor: round-trip oracle over single calls and interleaved histories",
    "Random, literal-sized and every small message length, related keys, histories of interleaved and overlapping calls, buffers that are views into larger ones; distinct = distinct (key, message) pairs.",
    EXPL)
add("C02", [P(), J()], "fault injection into sealed messages with a refusal oracle",
    "Every bit of nonce, body, tag and key flipped, every truncation, splices, insertions and reorderings of two sealed messages, arbitrary bytes; distinct = distinct sealed messages.",
    EXPL + "A forgery that random tampering cannot hit (2^-128) is out of reach.")
add("C03", [P(), J()], "runtime monitor: differential oracle against independent AES-256-GCM implementations",
    "Both directions of interoperation with an AES-256-GCM written for the monitor (Rust) and with OpenSSL (JavaScript); distinct = distinct (key, nonce, message).",
    EXPL + "Trusts the monitor's own AES-GCM (self-tested on NIST vectors) and OpenSSL.")
add("C04", [P(), J()], "runtime monitor over recorded histories: uniqueness and per-bit statistics of every nonce and IV, across threads, forks and processes",
    "Nonces of sequences under one key and many, of threads, worker threads, forked and separate processes are collected; no value may repeat and no bit may deviate from one half by 6.5 standard deviations; distinct = nonces.",
    EXPL + "Unpredictability is judged by repetition and per-bit statistics only.")
add("C05", [P()], "runtime monitor: differential oracle against an independent AES-256-CTR on recorded executions",
    "Random, boundary and multi-block keys, IVs and messages; each execution compared byte for byte with an independent AES-256 written for the monitor; distinct = distinct (key, IV, length) inputs.",
    EXPL + "Trusts the monitor's own AES (self-tested on FIPS/NIST vectors at start).")
add("C06", [P(), J()], "fault injection on key and ciphertext lengths under a panic monitor",
    "Every key length 0-80 and literal-sized ones, every ciphertext length up to 80 and literal-sized ones, all entry points; distinct = distinct (entry point, lengths).",
    EXPL)
add("C07", [P()], "runtime monitor: independent R1CS encoder/decoder as oracle over generated and committed files",
    "Files encoded by an independent writer from random models (field sizes, counts from the sources' own literals, buffer-boundary paddings, >65535 items); every parsed field compared; distinct = distinct file contents.",
    EXPL + "Trusts the monitor's encoder of the iden3 R1CS format.")
add("C08", [P()], "runtime monitor: independent R1CS encoder with permuted, padded and foreign sections",
    "Random section orders, unknown types (including ones that alias known types in fewer bits), slack, >4 GiB sparse sections, every single-bit change of magic and version, removed or retyped sections; distinct = distinct files.",
    EXPL + "Trusts the monitor's encoder of the iden3 R1CS format.")
add("C09", [P()], "fault injection under panic, memory-limit (counting allocator) and CPU-time monitors",
    "Every truncation of small files, every count/size field set to boundary values singly and in pairs, bit flips, random section soup; non-trivial = each mutated file read once under the monitors; distinct = distinct base files.",
    EXPL + "Memory bound: 16 MiB plus 64 times the file size; CPU bound 60 s per case.")
add("C10", [P()], "runtime monitor: exported circuit compared with the model the file was encoded from",
    "Parsed files of random, enumerated-shape and literal-sized circuits; every factor compared after export; distinct = distinct files.",
    EXPL + "Trusts the monitor's encoder of the iden3 R1CS format.")
add("C11", [P()], "runtime monitor: round-trip oracle over values, files and histories of saves and loads",
    "Random circuits, witnesses and test cases (edge integers, all code-point blocks, literal-sized lengths) in both packages, and histories of saves over three shared paths; distinct = distinct values.",
    EXPL)
add("C12", [P()], "runtime monitor: differential cross-reading of the two packages plus an independent encoder and decoder",
    "Every value is written by each package and read by the other, compared with independently built JSON and binary encodings, and the committed fixtures with an independent decoder; distinct = distinct values.",
    EXPL + "Byte identity is required only where no map has more than one entry (map order is free).")
add("C13", [P()], "fault injection under panic, memory-limit (counting allocator) and CPU-time monitors",
    "Every prefix of exported values, every length field set to boundary values, structural mutations, nesting bombs, out-of-range numbers, random bytes, in memory and through files; distinct = distinct inputs.",
    EXPL + "Memory bound: 16 MiB plus 96 times the input size.")
add("C14", [P()], "runtime monitor: generated JSON text with a known leaf list as oracle",
    "Documents written by the monitor with random nesting, escapes, whitespace and 64-bit edge integers, literal-sized arrays, keys, strings and nesting; invalid and truncated documents; distinct = distinct documents.",
    EXPL)
add("C15", [P(), J()], "runtime monitor: generated symbol files with a known map as oracle",
    "Files with every line end, junk lines, surrounding blanks, wire numbers around every power of two, literal-sized line counts and names, and the committed files; distinct = distinct files.",
    EXPL + "Names and fields are padded with spaces and tabs only.")
add("C16", [P(), J()], "runtime monitor: selection recomputed by an independent oracle",
    "Random maps with near-miss names and all maxima around their wires, every maximum of small maps, literal boundaries, the committed files; distinct = distinct maps.",
    EXPL)
add("C17", [P(args=["--emit", "@SCRATCH@/c17.jsonl"]), J(args=["--emit", "@SCRATCH@/c17.jsonl"])], "runtime monitor: differential oracle between the two packages on recorded results",
    "The Rust half records what the CLI reader makes of each file; the JavaScript half reads the same files and every map and selection is compared; distinct = distinct files.",
    EXPL)
add("C18", [J()], "runtime monitor: independent name-to-wire mapping as oracle, metamorphic over key orders",
    "Random nested inputs and wire maps with near-miss names, shuffled key and map orders, literal-sized arrays, every nesting depth to 40, the committed symbol files; distinct = distinct (inputs, wires).",
    EXPL + "Values are safe-integer numbers, decimal or hexadecimal strings and bigints.")
SHIM = "Runs the real sources against stand-ins for arkworks and blake3 (absent offline) with the same interface and encodings and real BN254 arithmetic. "
add("C19", [F()], "runtime monitor: independent witness-file encoder and decoder as oracle",
    "Files encoded by an independent writer (section orders, foreign sections, field sizes, every count, values up to the prime) and the committed witnesses, which must satisfy their circuits; distinct = distinct files.",
    EXPL + SHIM)
add("C20", [F()], "fault injection under panic, memory-limit (counting allocator) and CPU-time monitors",
    "Every truncation, every count and size field at boundary values, section soup and random bytes, read by the CLI and by the JavaScript bindings; distinct = distinct base files.",
    EXPL + SHIM + "Memory bound proportional to the file; CPU bound 60 s per case.")
add("C21", [J()], "runtime monitor: independent R1CS evaluator and .wtns reader over real and generated circuits",
    "Circuits generated with their WebAssembly calculator over several fields plus both committed circuits with random satisfying inputs; all encodings, calculators reused, after failures and overlapping; distinct = distinct circuits.",
    EXPL + "Generated circuits run in an interpreter written for the monitor that implements the circom calculator interface.")
add("C22", [J()], "fault injection into inputs with a refusal oracle; metamorphic oracle over spellings",
    "Unknown, missing, short, long, shifted, non-numeric and violating inputs of generated and committed circuits; random equivalent spellings compared with the expected witness; distinct = distinct (circuit, inputs).",
    EXPL + "Generated circuits run in an interpreter written for the monitor that implements the circom calculator interface.")
KEMNOTE = "The WebAssembly module is replaced by a recording stand-in that decides with an independent R1CS evaluator; the real bindings are covered by C28-C35."
add("C23", [J()], "runtime monitor: independent reader of the combined format over recorded encryptions",
    "Random and literal-sized witness ciphertexts, public inputs (Unicode, nested) and messages under every option form; every part compared with what was put in; distinct = distinct contents.",
    EXPL + KEMNOTE)
add("C24", [J()], "fault injection into combined ciphertexts with a refusal oracle",
    "Every bit flip, every truncation, every length field at boundary values, rearranged parts, arbitrary bytes; distinct = distinct base ciphertexts.",
    EXPL + KEMNOTE)
add("C25", [J()], "runtime monitor: round-trip oracle over histories of encryptions and decryptions",
    "Generated and committed circuits, literal-sized messages, public inputs and witness ciphertexts, buffers that are views, histories over many ciphertexts; distinct = distinct (inputs, message).",
    EXPL + KEMNOTE)
add("C26", [J()], "runtime monitor on the hooked call into the KEM: recorded assignment compared with an independent mapping",
    "The assignment handed to the KEM is recorded and compared wire by wire for random spellings, edge values and key orders; every subset of missing public signals must be refused; distinct = distinct (circuit, inputs).",
    EXPL + KEMNOTE)
add("C27", [J()], "schedule exploration with injected delays under a per-call oracle and an initialisation monitor",
    "Storms of overlapping calls on fresh modules with random delays at every asynchronous step; each result is compared with what the call gives alone; distinct = scenarios, counters give distinct completion orders.",
    EXPL + KEMNOTE)
add("C28", [F(), F(name="cli", args=["--part", "cli"]), J(full=True)], "runtime monitor: round-trip oracle across tools over generated circuits, histories and spawned commands",
    "Random and enumerated circuit shapes plus the committed circuits, every pair of tools, second witnesses, many ciphertexts alive in several threads; CLI commands spawned on generated files; distinct = distinct (circuit, public input).",
    EXPL + SHIM)
add("C29", [F(), F(name="cli", args=["--part", "cli"])], "fault injection into witnesses with a refusal oracle decided by an independent R1CS evaluator",
    "Every wire of small circuits changed to near values, every wire missing, one broken constraint among many; distinct = distinct (circuit, witness).",
    EXPL + SHIM)
add("C30", [F(), F(name="cli", args=["--part", "cli"]), J(full=True)], "fault injection into public inputs with a refusal oracle",
    "Satisfying witnesses whose public values differ from the ciphertext's in one chosen or several positions, near values, permutations; distinct = distinct (circuit, public input).",
    EXPL + SHIM)
add("C31", [F(), F(name="cli", args=["--part", "cli"])], "runtime monitor: public inputs carried by recorded ciphertexts compared with an independent mapping; refusal oracle for missing ones",
    "Random circuits, partial assignments with every single and random sets of public wires missing, generated symbol and input files in random spellings; distinct = distinct (circuit, input).",
    EXPL + SHIM)
add("C32", [F(), F(name="cli", args=["--part", "cli"])], "runtime monitor over recorded histories: uniqueness, per-bit statistics and entropy influence of every key and group element",
    "Keys and group elements of long sequences, threads and spawned commands are collected and may not repeat; operating-system randomness is dictated byte by byte to see which bytes reach the output, or made to fail; distinct = encapsulations.",
    EXPL + SHIM)
add("C33", [F(), F(name="cli", args=["--part", "cli"])], "runtime monitor: round-trip and refusal oracle over generated ciphertexts and fault-injected bytes",
    "Random ciphertexts of every list length, every truncation, points off the curve or outside the subgroup, unreduced coordinates, counts at boundary values, read by the library, the bindings and spawned commands; hundreds of key and ciphertext files; public-input lists changed in length, value and order; distinct = distinct byte strings.",
    EXPL + SHIM)
add("C34", [F()], "runtime monitor: independent R1CS evaluator as oracle over generated constraint systems and assignments",
    "Random circuits and both committed ones, satisfying and near-satisfying assignments, coefficients at limb boundaries; distinct = distinct (circuit, assignment).",
    EXPL + SHIM)
add("C35", [J(full=True)], "runtime monitor: round-trip oracle between two implementations over recorded files, with an independent reader of the format",
    "Generated and committed circuits, literal-sized and random messages, input files with random whitespace, escapes and foreign members, both embedding settings, both directions; distinct = distinct (input text, message).",
    EXPL + SHIM + "The WebAssembly module is the real binding code compiled natively.")
add("C36", [F(name="cli", args=["--part", "cli"])], "fault injection into every input and output file of spawned commands with an exit-status and file-system oracle",
    "Every command with each file missing, a directory, empty, truncated, corrupted, exchanged or mismatched, every truncation and bit flips of combined ciphertexts, forbidden and full output paths; distinct = distinct (command, files).",
    EXPL + SHIM)
add("C37", [J(full=True)], "runtime monitor: differential oracle between four consumers of the same input text against the integer's value",
    "Random integer literals around 0, 2^53, 2^64, powers of two and ten and multiples of the prime as numbers or decimal strings, on free public wires; fractional numbers and words that must be refused by each; distinct = distinct input texts.",
    EXPL + SHIM + "Integers as JSON numbers are kept within 53 bits.")
add("C38", [F(), F(name="cli", args=["--part", "cli"]), J(full=True)], "attack oracle: candidate computations of the key from recorded ciphertexts",
    "Keys of the library, commands and package compared with every value a fixed set of public computations gives (byte strings and their hashes, all signed combinations of the pairings of published elements, scalars searched to 2^33 by baby and giant steps); distinct = ciphertexts.",
    EXPL + SHIM + "Secrecy against arbitrary adversaries is a cryptographic claim no execution can show; the monitor runs a list of attacks.")
add("C39", [P()], "fault injection at the file system (missing, forbidden, EIO, ENOSPC, file-size limit) with a completeness oracle",
    "Every loader and saver of both packages crossed with every fault; size limits at random and boundary offsets, with the file on disk compared to the value whenever success is reported; distinct = distinct (entry point, fault, content) triples.",
    EXPL + "Disk-full is provoked with RLIMIT_FSIZE and, without the rights to replace it, /dev/full.")
add("C40", [F()], "runtime monitor: recomputation of every published element and key from dictated randomness by an independent implementation of the scheme",
    "Random circuits and every number of constraints and wires around powers of two, encapsulated with dictated random bytes; fabricated ciphertexts (sparse, dense, equal elements) opened by every tool with one and another satisfying witness; distinct = distinct (circuit, ciphertext).",
    EXPL + SHIM)
add("C41", [F(name="cli", args=["--part", "cli"])], "runtime monitor: whole-directory snapshots around spawned commands; stress of overlapping commands with injected stops",
    "Commands with odd file names among neighbours, succeeding and failing, every file of their home compared before and after; outputs in place of inputs; storms of commands in one directory with outputs sharing stems, randomly stopped and continued; distinct = scenes.",
    EXPL + SHIM + "Files outside the directories a command is told about are not watched.")
add("C42", [F(name="cli", args=["--part", "cli"]), J()], "runtime monitor: search of everything printed and thrown for known secrets in every common spelling",
    "Commands, library, bindings and package run on scenes with large private values and dictated randomness, succeeding and failing; their output is searched for stretches of keys, messages and random bytes and for private numbers, raw, in hexadecimal, base 64, decimal and lists; distinct = scenes.",
    EXPL + SHIM + "A spelling that the search does not know is not found.")
add("C43", [F(name="cli", args=["--part", "cli"])], "runtime monitor: round-trip oracle over generated command lines; refusal oracle with snapshots",
    "Random orders and spellings of every option with results checked file by file; every option missing, unknown options, arguments and commands; distinct = scenes.",
    EXPL + SHIM)
add("C44", [P(attempts=4), F(attempts=4)], "runtime monitor: storms of calls from many threads with delays injected at allocations and file transfers, each judged by what the call gives alone; deadlock monitor",
    "Threads read generated circuits, witnesses, inputs and symbol files of different shapes, save and load both packages' formats, seal and open, encapsulate and decapsulate, build constraint systems and call the command functions, with calls that must fail among them; every call is judged by the model it was generated from, after that judgement held for the call alone; distinct = distinct completion orders.",
    EXPL + SHIM + "The schedules are those the scheduler and the injected delays produce; counters give how many calls began beside others and how many pairs were seen overlapping.")
add("C45", [P(), F(), J()], "runtime monitor of resources over long histories: live heap (counting allocator; V8 heap and buffers after forced collection), descriptors, threads, WebAssembly instances, handles, files",
    "Thousands of calls of each entry point with inputs of their own, refusals among them, one after another, in turn, in threads of their own and overlapping; what the process holds is recorded after a quarter, a half and all calls and, when everything grew, after twice and four times as many; growth in every interval is the violation; distinct = distinct histories.",
    EXPL + SHIM + "Growth of less than one byte a call (Rust; 32 to 700 bytes a call of V8 heap in JavaScript, of which compiling WebAssembly itself leaves some) or that stops within the history is not seen.")
add("C46", [P(), F(), J()], "runtime monitor of costs: CPU time of the calling thread and bytes requested from a counting allocator, per item, at sizes that grow fourfold",
    "Generated inputs grow in one dimension at a time (constraints, factors, labels, sections, keys, elements, digits, names, lines, values, public inputs, wires, message bytes); each size is measured several times and its cheapest run counts; a size whose cost per item is more than 8 (JavaScript 10) times that of a smaller one in CPU time, or 5 times in memory, three times measured, is the violation; distinct = distinct histories of sizes.",
    EXPL + SHIM + "A growth that shows only beyond the sizes tried (about 100 000 items; 1 000 wires or public inputs for encapsulation) is not seen; constant factors are not judged.")
add("C47", [F(name="cli", args=["--part", "cli"]), J()], "runtime monitor: differential execution of commands and package calls between environments, with recorders of the variables, paths, globals and files asked for",
    "The same commands and calls in a plain environment and in hostile ones: environment variables (all those asked for, a list of likely names and every literal of the sources), decoy files beside the inputs and at every path looked at, working directories absent, elsewhere and behind links, standard streams closed, silent, terminals, other clocks, process numbers, file ages, CPUs and users; in JavaScript other globals, browser and Node, clocks, Math.random, locales, network and files answered by recorders; what works or fails elsewhere does so here, with the same result and never the same key or nonce; distinct = scenes.",
    EXPL + SHIM + "A variable or file is only shown to the code if it asks for it during the recorded run or its name is in the lists; JavaScript recorders answer any name.")
add("C48", [J()], "runtime monitor: snapshots and write traps around the arguments of recorded calls, and histories in which results are scribbled on and arguments spoilt, reused and refilled",
    "Every exported function with arguments in random shapes (views, Buffers, subclasses, other realms, frozen, bare, class instances, accessors, proxies); after every call all arguments and all results alive are compared with what they were; results are then changed and arguments refilled; distinct = distinct sequences of calls and shapes.",
    EXPL + "The WebAssembly module is a stand-in that keeps nothing of what it is given.")
add("C49", [F(builds=True)], "runtime monitor: differential execution of dictated calls between builds: debug and release, with and without optional features, 64-bit and 32-bit words, WebAssembly",
    "Encapsulations with dictated random bytes and their inverses by core, bindings and commands, witnesses, circuits, symbols, inputs, exchange formats and sealed messages, as they are, damaged, and with counts, sizes and lengths changed to values whose low 32 bits, or whose products, agree with the true ones; every call is answered by all builds and the answers are compared; distinct = distinct groups of calls.",
    EXPL + SHIM + "The bindings are compared as a WebAssembly module with a calling convention of the monitor's; texts of refusals are not compared. Big-endian machines are not tried.")
add("C50", [J()], "runtime monitor: the page's own source run over a stand-in for React and the browser, used as a person would; every download is opened by an independent reader, every page shown is read back",
    "Sessions in both tabs with random puzzles, generated circuits and messages: fields typed, files uploaded in any order or at once, network and file reads delayed or failing, wrong, incomplete, unreadable and damaged things before, between and after right ones, on the page that encrypted and on others; distinct = distinct sessions.",
    EXPL + "React, the site's components, the sudoku package and the WebAssembly module are stand-ins; controls are found by their visible texts and types; layout is not judged.")
