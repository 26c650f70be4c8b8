NOTE["C04"] = "Every message content and key, every length within the listed chunk counts (length symbolic inside the last chunk), all modes and platforms. Long inputs up to 2^63 bytes: complete subtrees of every size at every offset by induction over their size, and from these lengths around each power of two chunks. Outside: other chunk counts."
NOTE["C05"] = "Message, key, mode flags and the position of every write boundary inside a block are symbolic; the number of whole blocks of each write and the stream position (chunk count) are from the listed sets, which reach to 2^64 bytes and include any chunk count with up to 3 (8) high bits set. Outside: other boundary blocks and more than three writes in one run (longer histories follow from the confirmed shape of the state after a write)."
NOTE["C14"] = "As C04 and C05, with overflow checks and debug assertions compiled in: no path to a panic, overflow, out-of-bounds access or read of uninitialised memory."
HOOKS = {
    "guard": "--cfg baokeshed_verif (module verif in src/lib.rs) and --cfg baokeshed_verif_native (src/platform.rs)",
    "enable": "RUSTFLAGS='--cfg baokeshed_verif' (and '--cfg baokeshed_verif_native' for native replays), set by the checks themselves",
    "source_commits": ["5eedc94", "f5268b9", "7605721", "7a9e313", "1aa9ed9"],
}
NOTE["C06"] = "Message, a different continuation for the clone, key, all modes and platforms symbolic; three write boundaries at listed block positions (byte position inside the block symbolic). Outside: other boundary blocks."
NOTE["C07"] = "Message, key and the position in the output stream (any multiple of 64 up to 2^64-192) symbolic; message shapes and write boundaries from listed sets. Outside: other shapes."
NOTE["C16"] = "Every combination of the x86 feature bits the standard library detects (closed under implication), key, message; message shapes and write boundaries from a listed set. Outside: other architectures, and code the compiler puts into functions without a target-feature attribute."
NOTE["C12"] = "As C05, for the C hasher in each compiled SIMD configuration: message, key, mode flags and write positions inside a block symbolic; whole blocks per write and stream position from listed sets reaching to 2^64 bytes. NEON is compiled against a functional model of arm_neon.h. Outside: other boundary blocks."
NOTE["C15"] = "Every schedule of the two halves of each join that is equivalent to some order of complete halves is covered by showing that the halves touch no common memory that either writes; also halves in different threads with thread-local variables of their own, and an independent hash run by the waiting thread at each join. Message, key, modes and platforms symbolic, lengths from listed shapes. Outside: other stolen work than one hash at one join; memory the compiled rayon itself uses (replaced by a stand-in join), data races inside rayon."
NOTE["C13"] = "Every memory access of the kernels (each input, key, offset table and output an object of exactly its documented size, stack objects too), of the C hasher running in an object of the size Rust declares, and the declared layout against the C one. Contents, offsets, flags and write positions symbolic; input counts, block counts and stream positions from listed sets. Outside: other counts; the NEON bindings (the NEON code itself is covered)."
NOTE["C09"] = "Every 32-byte value and every pair of values; no bound on contents, the functions have no other input. Outside: hex strings longer than the fixed 64 characters do not exist."
NOTE["C11"] = "Every behaviour of reader and writer (any count up to the space offered, end of stream, interruption, each of 19 error kinds) over up to 8 calls (thorough 12), from the start and from any total below 2^64; the Write interface for every length up to 50,000 and 2^31..2^40. Outside: longer sequences other than through the arbitrary total; readers that break their contract."
NOTE["C17"] = "Key, message and write positions inside a block symbolic, all modes; every output length up to 200 (thorough 700) and some to 5001; whole blocks per write from listed sets; from listed and partly symbolic stream positions up to 2^64 bytes, starting at a chunk boundary. Outside: other boundary blocks, output positions beyond 5001 bytes."
NOTE["C18"] = "Message bytes, key bytes and message length symbolic: every length up to 34,816 bytes (thorough 67,584) through the three functions, one step of the recursion for every length up to 2^63-1 and every offset below 2^60; output lengths 0..199 (thorough 399) and some to 5001. The module's own code runs on symbolic values (no model of it is written). Outside: other output lengths; arguments that are not bytes."
TECHS = {"C18": "symbolic execution of the real Python functions on symbolic bytes and lengths + SMT (z3), bounded; counterexamples replayed on the real module"}
NOTE["C19"] = "Every length from 0 to 200 (thorough 700) explicitly and every 64-bit length by induction: one iteration of the printing loop from an arbitrary state of the form the first iterations establish prints the next 64 bytes and takes the same step. Output contents symbolic. Argument parsing, the operating system and the library are models. Outside: loops whose state does not change by constants (then only the first 200 lengths and the first blocks of every length are decided)."
NOTE["C20"] = "Contents, key and reported file length symbolic; every kind of input (file, special file, unmappable file, standard input, errors), modes, key lengths 0..40 and some to 128 (thorough 0..130), up to three reads of up to 4 bytes and up to three inputs. Argument parsing, hex decoding, the operating system and the library are models (the library itself is C04-C07). Outside: more or larger reads, terminals, races with other processes."
NOTE["C10"] = "Every branch condition, address, length and standard-library comparison that is built from key, message or hash bytes, on every explored path, is shown to have one value for all secrets with the same lengths (two-run query). All contents symbolic; lengths, input counts and stream positions from listed sets. The subject is the unoptimised IR. Outside: what later compiler passes or the processor do, hex formatting, data-dependent instruction latency, the Python and command-line code."
TECHS["C10"] = "symbolic execution of the compiler's IR + two-run (relational) SMT queries on branch conditions and addresses; counterexample pairs replayed natively on an instrumented build"
NOTE["C08"] = "Pairs of calls with unrelated symbolic keys and messages, modes, and lengths around the listed block boundaries (length inside the last block symbolic), one-shot, incremental (one or two writes) and extended output, Rust on three platforms and the C hasher in two configurations. Outside: pairs across platforms (equal by C04, C05), other block counts."
TECHS["C08"] = "symbolic execution of the real code for two callers; equation of the root inputs unified (compression taken as injective) and refuted by SMT; counterexample pairs replayed natively as colliding hashes"
