//! What each check says about itself in its evidence file.
use crate::ck::Report;

const CORE: &str = "The harness crate links /repo's crate; rustc's (clang's) unoptimised LLVM IR of this run is executed symbolically, forking where a condition has both outcomes.";
const CMP: &str = "Results are compared with a specification written down separately (symex/src/spec.rs, oracle.rs), as terms: by normal form, by certified rewriting, and otherwise by an SMT query over all values. Before a violation is reported, the counterexample is run natively against the real code.";
const KERN: &str = "Compression and batch kernels are replaced by their contracts inside the larger runs; each contract is first shown, in this same run, for the real kernel (contract jobs).";

fn base() -> Vec<&'static str> {
    vec![
        "rustc/clang translate the source to IR faithfully; behaviour that appears only after optimisation is not seen",
        "the IR executor (symex), the term normaliser (its rewrite rules are certified by z3) and z3 are right",
        "x86 intrinsics, memcpy/memset/memcmp and the allocator behave as modelled",
    ]
}

pub fn of(id: &str, th: bool) -> Report {
    let mut a = base();
    let q = |x: &str, y: &str| if th { y.to_string() } else { x.to_string() };
    let (e, b): (String, Vec<String>) = match id {
        "C01" => (
            format!("{} Each of the compression implementations is one job on symbolic chaining value, block, length, offset and flags. {}", CORE, CMP),
            vec!["none: every input of each compression function (block length, offset and flags are free words)".into()],
        ),
        "C02" | "C03" => (
            format!("{} Each batch entry point is run for every input count and block count below, on symbolic contents, key, offset, step and flags. {}", CORE, CMP),
            vec![
                "number of inputs: 0 .. 2*degree+3 of each implementation".into(),
                "blocks per input: 1, 2, 3, 32".into(),
                "contents, key, offset, offset step, three flag bytes: every value".into(),
            ],
        ),
        "C04" => (
            format!("{} The three one-shot functions run on a message whose length is symbolic within its last chunk. Long inputs: the recursion on a complete subtree of 2^k chunks is shown, by induction over k, to give the chaining values the tree has there, and is then replaced by a symbol for them; the right edge is executed. {} {}", CORE, KERN, CMP),
            vec![
                "long inputs: 2^k chunks; 2^k plus 1..64 bytes (thorough: any part of a chunk); 2^k + 2^(k-1) + 3 chunks; some of 2^(k+1)-2 chunks and a part; k to 51 (2^63 bytes)".into(),
                "complete subtrees: every key, message and flags, every offset below 2^63 a subtree of that size can have".into(),
                q("chunk counts 0..20 (default mode), 0..10 (other modes), default mode also 24,31-33,63-65", "chunk counts 0..140, 255-257, 511, 513, every mode"),
                "platforms portable, SSE4.1, AVX2; modes default, keyed, derive".into(),
                "message bytes, key bytes and the length inside the last chunk: every value".into(),
            ],
        ),
        "C05" | "C14" => (
            format!(
                "{} A new hasher gets one to five writes whose whole-block counts are listed and whose remainders are symbolic (from-start jobs); or it starts from the confirmed shape of a mid-stream state (chunk counter of the listed or partly symbolic high bits, symbolic subtree hashes and buffer) and gets writes (mid-stream jobs; form jobs show first that the shape is what real histories produce). {} {}{}",
                CORE,
                KERN,
                CMP,
                if id == "C14" { " Overflow checks and debug assertions are compiled in; a path to a panic, overflow, trap, out-of-bounds access or uninitialised read is the violation." } else { "" }
            ),
            vec![
                q("first write ends at chunks 0-4,7-9,16,17, block 0 or 31, one and two writes; 200 random histories of 3-5 writes", "more chunks and blocks; 2,000 random histories"),
                q("mid-stream chunk counts 0..33, 2^j-1, 2^j, 2^j+1 to 2^53, 40 random ones, 3 with symbolic high bits", "as quick, more random counts, 8 with symbolic high bits"),
                "byte position of every boundary inside its block, message, key: every value".into(),
            ],
        ),
        "C06" => (
            format!("{} Histories with finalisations and clones in between are run beside histories without; states and outputs must be equal. {} {}", CORE, KERN, CMP),
            vec!["14 first positions, two further writes; each position inside its block symbolic".into(), "message, a different message for the clone, key: every value".into()],
        ),
        "C07" => (
            format!("{} Outputs of one-shot and incremental runs are read k times; one read is also run from any stream position. {} {}", CORE, KERN, CMP),
            vec![
                q("one-shot: chunk counts 0,1,2,3,5,8,9, three reads", "one-shot: chunk counts 0..33, three reads"),
                "one read from any position that is a multiple of 64 up to 2^64-192".into(),
                "incremental: one in five of C05's histories (thorough: all)".into(),
            ],
        ),
        "C08" => (
            format!("{} For each pair of (mode, shape of message) the outermost compression inputs of two runs on unrelated symbolic keys and messages are unified level by level, compressions being injective; the solver must show that every way for them to coincide makes mode, key, length and message equal. {}", CORE, KERN),
            vec!["block counts 1-3, 16, 31-35, 63-66, 96, 97, 128, 129, 160-162, 256-258, 288, 289, 512, 513, 544 (thorough more), last block full or partial, every pair".into()],
        ),
        "C09" => (
            format!("{} Conversions, hex, and the comparisons run on symbolic 32-byte values. {}", CORE, CMP),
            vec!["none: every value and every pair of values".into()],
        ),
        "C10" => (
            format!("{} Key, message and hash bytes are marked secret; whenever a branch condition, a memory address, a length or a library comparison is built from them, a two-run query asks for two secrets (same lengths) that make it differ. A pair found is replayed on a natively instrumented build (edges and addresses recorded) before it is reported.", CORE),
            vec![
                "kernels: every input; batch counts as in C02 (quick: without the fixed-step variants)".into(),
                q("one-shot chunk counts 0,1,3,6 (keyed also 2,5,8,9,13,17); one in five or ten of the C05-C07 histories", "one-shot chunk counts 0..39; half of the C05-C07 histories"),
                "C hasher: portable and AVX-512 configurations".into(),
            ],
        ),
        "C11" => (
            format!("{} copy and copy_wide run against a reader and writer that may do anything the traits allow, each answer a symbolic choice; from an arbitrary running total as well. {}", CORE, CMP),
            vec![
                q("up to 8 reader/writer calls", "up to 12 reader/writer calls"),
                "each read any count up to the space offered; 19 error kinds".into(),
                "Write::write for every length to 50,000 and 2^31..2^40".into(),
            ],
        ),
        "C12" => (
            format!("{} As C05, on the C hasher built in five configurations (portable, SSE4.1, AVX2, AVX-512, NEON), assertions enabled. {} {}", CORE, KERN, CMP),
            vec!["write positions and stream positions as C05, spread over the configurations".into(), "mode flags, key, message and byte positions inside a block: every value".into()],
        ),
        "C13" => (
            format!("{} Every buffer is an object of exactly its documented size; every load and store is checked against bounds, alignment claims and initialisation by the solver when not plainly inside. The layout Rust declares is compared with clang's. A finding is replayed under AddressSanitizer.", CORE),
            vec![
                q("input counts to 2*degree+3", "input counts to 4*degree+7"),
                "blocks per input 0,1,2,3,5,32".into(),
                "C hasher through the Rust binding: listed writes and stream positions".into(),
            ],
        ),
        "C15" => (
            format!("{} rayon's join is replaced by a stand-in that runs the halves in either order and logs what each one reads and writes: no byte may be written by one and touched by the other, and results equal the specification. {} {}", CORE, KERN, CMP),
            vec![q("chunk counts 0..12,16,17,31-33,40,64,65", "chunk counts 0..70,127-130,256,257"), "three platforms, three modes".into()],
        ),
        "C16" => (
            format!("{} The feature word the standard library caches is symbolic; every function with a target-feature attribute that a path enters must be implied by the bits reported on that path, and the result must be the specified hash. {} {}", CORE, KERN, CMP),
            vec!["every combination of the feature bits, closed under implication".into(), "message shapes to 9 chunks, write boundaries and output positions as listed in the job names".into()],
        ),
        "C17" => (
            format!("{} The reference implementation runs like C05's hashers; its compression function is summarised after its contract was shown. {}", CORE, CMP),
            vec![q("output lengths 0..200 and some to 5001", "output lengths 0..700 and some to 5001"), "writes and stream positions from listed sets, positions inside a block symbolic".into()],
        ),
        "C19" => (
            format!("{} The real src/cli code of baokeshed_bin is compiled against models of docopt, hex, memmap, files and the library's output reader; printed bytes are recorded. {}", CORE, CMP),
            vec![q("lengths 0..200 explicitly", "lengths 0..700 explicitly"), "every 64-bit length by induction over the printing loop".into()],
        ),
        "C20" => (
            format!("{} As C19; the input may be a file, special file, unmappable file or standard input, with any reported length and symbolic contents. {}", CORE, CMP),
            vec!["up to three reads of up to 4 bytes, up to three inputs".into(), q("key lengths 0..40,63-65,96,128", "key lengths 0..130"), "file length as reported: every 64-bit value".into()],
        ),
        _ => (String::new(), vec![]),
    };
    match id {
        "C19" | "C20" => a.push("models of docopt, hex decoding, memory mapping, files and the library's hasher (hxcli/src/lib.rs, symex/src/cli.rs) match their documentation"),
        "C12" | "C02" | "C03" => a.push("NEON code is compiled against a functional model of arm_neon.h (cx/)"),
        "C15" => a.push("rayon::join runs both closures to completion before it returns and synchronises with them"),
        "C08" => a.push("the compression function is injective (that is the property's own condition)"),
        "C05" | "C14" => a.push("mid-stream states have the confirmed shape (form jobs)"),
        _ => {}
    }
    Report { bounds: b, assumptions: a.iter().map(|x| x.to_string()).collect(), explanation: e, level: "other" }
}
