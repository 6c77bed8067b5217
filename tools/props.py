H = "Bounded: holds for every value of the stated symbolic inputs at the sizes listed in the evidence's bounds. "
HASH = "Blake2b/Keccak/SHA3 compression is an uninterpreted function shared by the code and the specification (any function, so the verdict does not depend on it). "
SOON = "machinery not built yet in this revision"

prop("C01", "Equihash accepts exactly the valid solutions",
 "A solution is accepted exactly when the indices it encodes are pairwise distinct, every subtree starts with the smaller first index, every subtree of 2^l leaves cancels on its l-th collision segment and all leaves together cancel on the last one. Anything else is refused, and no accepted solution comes with an error.",
 ["inputs", "configurations"], "every header, every solution of the right length, every leaf hash function, for the (n,k) shapes listed in the evidence",
 "Tests verify a few dozen recorded solutions and a handful of corrupted ones per coin; a check that is skipped for one tree position, one level or one index relation accepts forged work only for solutions no one recorded.",
 ["equihash/equihash.go", "equihash/client.go"],
 [("per-level subtree validation", "equihash/equihash.go validateSubtrees"), ("merge of subtrees", "equihash/equihash.go newNodeFromChildrenRef"), ("leaf hashes", "equihash/equihash.go newNode/generateHash")],
 H + HASH + "Small parameter sets are checked for arbitrary indices; larger ones as listed.")

prop("C02", "Equihash solutions decode bit-exactly for every parameter set",
 "Decoding a solution yields index i from bits [i*w,(i+1)*w) of the input, big-endian, for every element width the verifier accepts, and expanding a leaf hash yields each collision segment right-aligned in whole bytes. Inputs of any other length are refused.",
 ["inputs", "configurations"], "every input content; element widths 8..32 with every padding; the (n,k) of every preset and a dozen others",
 "Tests decode two or three fixed strings; accumulator overflow, masks and shortcut conditions go wrong only for particular widths and bit patterns.",
 ["equihash/equihash.go"], [("bit expansion", "equihash/equihash.go expandArray"), ("minimal to indices", "equihash/equihash.go indicesFromMinimal")], H)

prop("C03", "ZelHash twist is the masked running sum of its 16-block",
 "With the twist enabled, the hash of generation g is the 32-bit wrapping sum, word by word, of the plain hashes of all generations from the start of its 16-block through g, with the low three bits of every sixteenth byte cleared; without it the plain hash is used unchanged. Flux verification uses the twist and accepts exactly the solutions valid under it.",
 ["inputs"], "every header, every generation index, every base hash function",
 "Tests sample a few Flux solutions; an off-by-one in the block or a wrong mask position only shows for certain positions in the 16-block.",
 ["equihash/equihash.go"], [("twisted generation", "equihash/equihash.go generateHash")], H + HASH)

prop("C04", "BeamHash III accepts exactly the valid solutions",
 "A BeamHash III solution is accepted exactly when its 32 indices are distinct where the tree demands it, ordered by first index in every subtree, collide on the low 24 bits at every merge, and the final work bits are zero, with the mixing of each leaf's siphash-derived words exactly as specified. All other inputs are refused.",
 ["inputs"], "every seed, nonce and solution; the siphash outputs arbitrary",
 "Tests verify one or two recorded solutions; mixing, masking and tree-position bugs survive them.",
 ["beamhashiii/beamhashiii.go", "beamhashiii/client.go"], [("work-bit mixing", "beamhashiii/beamhashiii.go applyMix"), ("merge and order checks", "beamhashiii/beamhashiii.go"), ("prework seed", "beamhashiii/client.go")],
 H + HASH)

prop("C05", "Cuckoo and Cuckaroo accept exactly the single full-length cycles",
 "A proof is accepted exactly when it has the configured number of strictly ascending edges inside the graph whose endpoints form one cycle using every edge once. Every other list of edges is refused with an error.",
 ["inputs", "configurations"], "every header, every edge list, every node function at proof sizes 2..6; 42-edge presets for every 42-cycle",
 "Tests verify a few recorded 42-cycles; two short cycles, branches, repeated edges, or out-of-range edges need adversarial proofs.",
 ["cuckoo/cuckoo.go", "cuckoo/cuckaroo.go", "cuckoo/client.go"], [("cycle walk", "cuckoo/cuckoo.go, cuckoo/cuckaroo.go"), ("edge order and range", "cuckoo/cuckoo.go, cuckoo/cuckaroo.go"), ("key derivation", "cuckoo/client.go")],
 H + HASH + "Node functions are arbitrary functions of key and edge.")

prop("C06", "SipHash-2-4 variants equal their definition for all keys and nonces",
 "Every siphash variant the library uses (2-4, 4-8, the legacy node function and the Cuckaroo block function) returns exactly the value of the published rounds for all 256-bit keys, nonces and rotations. Successive calls on one hasher continue from the state its definition prescribes.",
 ["inputs", "histories"], "all keys, nonces, edges and rotation amounts; call sequences up to three",
 "Tests compare a few vectors with one rotation; wrong rotation or block masking shows only for other edges.",
 ["internal/crypto/siphash.go"], [("rounds", "internal/crypto/siphash.go")], H)

prop("C07", "Eaglesong equals the sponge definition for every input length",
 "The Eaglesong digest of any input equals the published sponge: big-endian absorption with the delimiter byte after the last input byte, 43 rounds of bit-matrix, circulant rotation, constant injection and add-rotate-add, and little-endian squeezing of 32 bytes.",
 ["inputs"], "every content for the input lengths listed (across the rate boundary), arbitrary permutation state for the round function",
 "Tests hash a few strings; delimiter placement at block boundaries and single wrong coefficients/constants that cancel on those strings go unseen.",
 ["eaglesong/eaglesong.go", "eaglesong/eaglesong_constants.go", "eaglesong/client.go"], [("permutation", "eaglesong/eaglesong.go"), ("round constants and matrices", "eaglesong/eaglesong_constants.go")], H)

prop("C08", "HeavyHash equals its definition and always uses a full-rank matrix",
 "For every header hash, timestamp and nonce the digest equals Keccak of the pre-image digest XORed with the packed nibble products of the 64x64 matrix drawn from the xoshiro stream of the header hash. The matrix used is the first full-rank one of that stream.",
 ["inputs"], "every hash (non-zero), timestamp and nonce; every matrix of nibbles for the product step",
 "Tests hash a few blocks; overflow or nibble order errors appear only for large products and rare rank failures.",
 ["heavyhash/heavyhash.go", "heavyhash/matrix.go", "internal/crypto/xoshiro256plusplus.go"], [("matrix generation", "heavyhash/matrix.go newMatrix"), ("rank test", "heavyhash/matrix.go calculateRank"), ("matrix product", "heavyhash/heavyhash.go heavyHash")],
 H + HASH)

prop("C09", "Autolykos table size follows the height schedule for every height",
 "The table size is the initial size up to the increase start, then grows by 5% every period up to the final increase height, and is constant from there on, for every 64-bit height. It never decreases with height and never overflows.",
 ["inputs"], "every 64-bit height (symbolic), including heights far past the last increase",
 "Tests check seven heights; boundaries of a period, and heights past the cap, are different inputs each.",
 ["autolykos2/autolykos2.go"], [("growth loop", "autolykos2/autolykos2.go calcN")], H)

prop("C10", "Autolykos2 digest equals its definition for every message, nonce and height",
 "The computed hash equals the definition: index seed from the table row selected by the nonce hash, k indices from overlapping windows of the seed, the sum of k 31-byte elements, hashed as a 32-byte big-endian integer.",
 ["inputs"], "every 32-byte message, nonce and height; Blake2b arbitrary",
 "Tests hash a handful of blocks; sums with leading zero bytes or window wrap-around occur in one hash of hundreds.",
 ["autolykos2/autolykos2.go", "autolykos2/client.go"], [("index generation", "autolykos2/autolykos2.go genIndexes"), ("element sum", "autolykos2/autolykos2.go")], H + HASH)

prop("C11", "Ethash and Etchash return the hashimoto mix and digest",
 "For every header hash, height, nonce, dataset size and dataset content, the returned mix and digest are those of hashimoto: 64 accesses of 128-byte pages selected by FNV from the replicated Keccak-512 seed, FNV-mixed, compressed, and hashed with the seed. Every dataset row addressed lies inside the dataset of that height's epoch.",
 ["inputs"], "every header hash, nonce and dataset content; dataset sizes of every epoch in the tables; lookup an arbitrary function",
 "Tests compute a few blocks at a few heights; index arithmetic and mix replication errors depend on the addressed page.",
 ["ethash/ethash.go", "ethash/client.go", "internal/crypto/fnv.go"], [("hashimoto", "ethash/ethash.go hashimoto"), ("framing", "ethash/client.go Compute")], H + HASH)

prop("C12", "Kawpow, Firopow and ProgPow 0.9.4 frame the core exactly as specified",
 "Seed and final digests absorb the header hash, nonce, mix and the coin's padding words into Keccak-f[800] (or Keccak-256 for 0.9.4) exactly as specified, and the core runs with the coin's period, lane, register and access counts. The mix and digest returned are those of the same invocation.",
 ["inputs"], "every header hash, height, nonce and dataset content; core and permutation arbitrary functions",
 "Tests compute a few blocks; a padding word or period error at other heights goes unseen.",
 ["kawpow/kawpow.go", "firopow/firopow.go", "internal/progpow/progpow094.go"], [("padding words", "kawpow/kawpow.go, firopow/firopow.go initialize/finalize"), ("period and counts", "kawpow/kawpow.go, firopow/firopow.go, internal/progpow/progpow094.go")], H + HASH)

prop("C13", "The ProgPow core executes the program its period number generates",
 "For every period number, mix state, dataset item and L1 content, a round performs exactly the random cache accesses, random math and merges (with all eleven math operations and four merges as specified on all 32-bit operands) that KISS99 generates from that period, and the final lane reduction is exact.",
 ["inputs", "programs"], "every operand pair and selector for each operation; every mix, item and L1 content for sampled periods; every period for the generator state",
 "Tests run one round of one period and one vector per operation; edge operands (shift by 0, clz of 0, high multiply) and other periods' programs are not reached.",
 ["internal/progpow/algorithm.go", "internal/progpow/math.go", "internal/progpow/mixrng.go", "internal/progpow/kiss99.go"], [("program generation", "internal/progpow/mixrng.go, kiss99.go"), ("random math and merge", "internal/progpow/math.go"), ("round and reduction", "internal/progpow/algorithm.go")], H)

prop("C14", "Keccak-f[800] is the specified permutation on every state",
 "The 22-round Keccak-f[800] permutation computes theta, rho, pi, chi and iota with the standard offsets and round constants truncated to 32 bits, for every one of the 2^800 states.",
 ["inputs"], "every 25-word state, all 22 rounds",
 "Tests permute two states; a wrong constant in a late round or a lane swap would be caught, but a data-dependent shortcut would not.",
 ["internal/crypto/keccak.go"], [("permutation", "internal/crypto/keccak.go KeccakF800")], H)

prop("C15", "Octopus digest equals its definition for every header, nonce and dataset",
 "For every header hash and nonce the Conflux digest equals the specification: parameters remapped into the multiplicative group modulo 1032193, siphash-derived polynomial evaluated at the points of the nonce's warp lane, 32 page accesses of 256 bytes, FNV mixing, compression and Keccak. Parameter search always yields a non-degenerate quadratic.",
 ["inputs"], "every 32-byte hash, nonce and dataset content per warp lane with the remap an arbitrary function; the remap itself on windows of 64-bit words around its boundaries",
 "Tests compute a few headers; the lane-dependent powers and remap cases are data dependent.",
 ["octopus/octopus.go"], [("remap and quadratic", "octopus/octopus.go remap/computeC"), ("polynomial evaluation", "octopus/octopus.go octopus"), ("page mixing", "octopus/octopus.go octopus")], H + HASH)

prop("C16", "DAG cache and dataset items are generated as specified",
 "The verification cache built from any seed is the sequential Keccak chain followed by the configured rounds of RandMemoHash, each dataset item is the Keccak-sealed FNV fold of its configured number of parents, wider lookups are the concatenation of consecutive 64-byte items, and the L1 cache is the prefix of the dataset.",
 ["inputs", "configurations"], "every seed, every cache content, every item index at reduced row counts; all parents counts of the presets",
 "Tests compare one tiny cache and one item; the parent index arithmetic depends on row count, index and data.",
 ["internal/dag/generate.go", "internal/dag/dag.go"], [("cache rounds", "internal/dag/generate.go generateCache"), ("item generation", "internal/dag/generate.go generateDatasetItem"), ("wide lookups", "internal/dag/dag.go NewLookupFunc*")], H + HASH)

prop("C17", "Cache and dataset sizes are the prime-row sizes of every epoch",
 "For every epoch the cache and dataset sizes are the largest values not above the linear growth bound whose row count is prime, reached in steps of two rows, whether read from a table or calculated. Tables and calculation agree at every tabulated epoch, for every coin.",
 ["inputs", "configurations"], "all 2048 tabulated epochs of all five presets, and epochs past the table end up to 2^20",
 "Tests compare ten epochs per table; a wrong entry among 16384 makes every block of one epoch fail.",
 ["internal/dag/dag.go", "ethash/ethash_lookup.go", "kawpow/kawpow_lookup.go", "firopow/firopow_lookup.go", "octopus/octopus_lookup.go"], [("tables", "*_lookup.go"), ("prime search", "internal/dag/dag.go calcCacheSize/calcDatasetSize"), ("table/calculation switch", "internal/dag/dag.go CacheSize/DatasetSize")], H)

prop("C18", "Height determines epoch, seed hash and coin parameters",
 "For every height the epoch is height divided by the epoch length, and the seed hash is the Keccak-256 chain iterated once per seed epoch; each preset runs with its coin's published sizes, lengths, parents and rounds.",
 ["inputs", "configurations"], "every 64-bit height; every preset",
 "Tests sample seven heights on one config; presets' fields are only exercised at the few heights tested.",
 ["internal/dag/dag.go", "ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go"], [("epoch", "internal/dag/dag.go CalcEpoch"), ("seed", "internal/dag/dag.go SeedHash"), ("presets", "*/client.go")], H + HASH)

prop("C19", "Cache lookup returns the right epoch's data under any request history",
 "Whatever sequence or interleaving of epochs is requested, the cache returned holds exactly the data of the requested epoch, at most the configured number of caches is retained, the least recently used one is evicted first, and no shared state is touched without the lock. Concurrent requests for one epoch generate it once and all see the finished data.",
 ["histories", "schedules"], "every sequence of epochs up to the stated length; goroutine interleavings at generation points",
 "Tests request one epoch; eviction, pre-generation and concurrent requests are history and schedule properties.",
 ["internal/dag/dag.go", "internal/dag/cache.go"], [("cache map, LRU, future", "internal/dag/dag.go GetCache"), ("once-guarded generation", "internal/dag/cache.go generate")], H)

prop("C20", "Disk caches never change results whatever the storage does",
 "Whatever files other runs left in the storage directory, whichever file-system calls fail, and at whatever point an earlier process was killed or another one ran, the data served equals freshly generated data for the epoch. A file with a wrong magic or length is never served, a file only appears under its final name when complete, and only files of outdated epochs are deleted.",
 ["crash_points", "fault_sequences", "inputs"], "every failing open, create, truncate, map, unmap, close, rename, remove up to the stated number; every kill point between operations and within generation; file lengths and magic words arbitrary; killed processes, not power loss",
 "Tests never inject a fault or a truncated file; a half-written cache silently corrupts verification.",
 ["internal/dag/mmap.go", "internal/dag/cache.go"], [("magic and length check", "internal/dag/mmap.go memoryMap"), ("temp file and rename", "internal/dag/mmap.go memoryMapAndGenerate"), ("fallback to memory", "internal/dag/cache.go generate")], H)

prop("C21", "Malformed input is refused with an error and never panics",
 "Every public entry point returns an error, without panicking or hanging, for hashes, headers, proofs and solutions of any wrong length or content, and accepts every input of the right shape.",
 ["inputs"], "every length of the stated ranges of every byte argument, every content and nonce; heights of tabulated epochs",
 "Tests pass well-formed input only.",
 ["ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go", "heavyhash/client.go", "autolykos2/client.go", "eaglesong/client.go", "equihash/client.go", "beamhashiii/client.go", "cuckoo/client.go"], [("length checks", "*/client.go")], H)

prop("C22", "Verification is a pure function of its arguments",
 "No call modifies its input slices (including their spare capacity), package tables, client configuration or data shared with other calls, and repeating a call with the same arguments gives the same result whatever ran in between.",
 ["inputs", "histories", "schedules"], "every input content with spare capacity; two successive or concurrent calls",
 "Tests use exact-capacity literals once; append into a caller's spare capacity or a shared scratch buffer needs aliasing inputs or a second call.",
 ["equihash/equihash.go", "beamhashiii/beamhashiii.go", "cuckoo/client.go", "heavyhash/heavyhash.go", "autolykos2/autolykos2.go", "ethash/ethash.go", "octopus/octopus.go", "kawpow/kawpow.go", "firopow/firopow.go"], [("fresh buffers", "all packages")], H)

prop("C23", "XORBytes xors exactly the common prefix for all lengths and alignments",
 "XORing two byte slices into a destination writes the XOR of the first min(len) bytes, returns that count, and touches nothing else, for all lengths and contents, including destination aliasing a source.",
 ["inputs"], "all contents, lengths 0..N and relative alignments",
 "Tests cover fixed sizes with equal lengths.",
 ["internal/common/bitutil/xor_amd64.go", "internal/common/bitutil/xor_amd64.s", "internal/common/bitutil/xor_generic.go"], [("assembly kernel", "internal/common/bitutil/xor_amd64.s"), ("wrapper", "internal/common/bitutil/xor_amd64.go")], H)

prop("C24", "Hash wrappers, FNV and xoshiro equal their definitions, on every call",
 "The Keccak, Blake2b, CShake wrappers feed all input bytes to the right hash with the right output size and personalisation, reusable hashers give the same result on every call whatever came before and do not write outside their destination, and FNV and xoshiro256++ follow their definitions for all states.",
 ["inputs", "histories"], "all contents at a range of lengths; call sequences of one hasher; all states",
 "Tests use one or two vectors; state left over from a previous call needs call sequences.",
 ["internal/crypto/hasher.go", "internal/crypto/keccak.go", "internal/crypto/blake.go", "internal/crypto/shakehash.go", "internal/crypto/fnv.go", "internal/crypto/xoshiro256plusplus.go"], [("wrappers", "internal/crypto/*.go")], H + HASH)

prop("C25", "The table generator emits every epoch's size",
 "For every number of epochs and every size parameters, the generated source file contains exactly the sizes of epochs 0..n-1 in order for both tables.",
 ["inputs", "configurations"], "every epoch count up to the bound, symbolic sizes",
 "There is no test of the generator; partial last rows need particular counts.",
 ["cmd/gen-lookup/main.go"], [("formatting", "cmd/gen-lookup/main.go formatLookupTable"), ("tables", "cmd/gen-lookup/main.go genCacheLookupTable/genDatasetLookupTable")], H)

prop("C26", "Byte/word conversions round-trip in both byte orders",
 "Converting bytes to 32-bit words and back is the identity for whole words in either byte order, each word being the big- or little-endian value of its four bytes.",
 ["inputs"], "all contents, lengths 0..N words, both byte orders",
 "Tests convert two arrays.",
 ["internal/common/convutil/convutil.go"], [("conversions", "internal/common/convutil/convutil.go")], H)
