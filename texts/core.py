"""Texts of the properties over the six crates that build with their real dependencies."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or []))


ST = "storage/src/backends/"
p("S01", "A storage batch is applied completely, in order and atomically",
  "Committing a batch of put and delete operations applies every operation, in the order given, with its own key and value. A reader that shares the store sees the state before the whole batch or after it, never in between, and on disk the batch reaches the database as one unit. A batch that reports success has been applied completely.",
  ["inputs", "schedules", "crash_points"], "all batches (any length, any mix and repetition of keys) against every concurrent reader and every crash point, on every backend that stores data",
  "The storage tests commit one short batch on one thread and read it back; no test runs a reader beside a commit or interrupts one, and repeated keys in one batch are not tried.",
  [ST + "hashmap.rs", ST + "rocks.rs", "storage/src/storage.rs"],
  [("exclusive guard over the whole commit loop", ST + "hashmap.rs write"), ("native batch commit", ST + "rocks.rs write")])
p("S02", "Storage returns exactly the value last stored under the same key",
  "A read returns the value most recently stored under exactly that key, or nothing if it was never stored or was deleted since. Storing or deleting one key never changes the value under another key. Keys and values reach the backend unaltered, for every byte string.",
  ["inputs", "histories"], "all histories of put, get and delete over all byte-string keys and values, on every backend that stores data",
  "Tests use a handful of short ASCII keys in one fixed sequence; empty keys, long keys and interleavings of several keys are not reached.",
  [ST + "hashmap.rs", ST + "rocks.rs", "storage/src/storage.rs"], [("key/value arguments of each primitive", ST + "hashmap.rs, rocks.rs")])
p("S03", "Prefix scans yield exactly the entries with that prefix",
  "Scanning with a prefix yields every stored entry whose key starts with the prefix, each once, with the value stored under that very key. No entry with another key is yielded, whatever the order in which the backend holds its entries.",
  ["inputs", "histories"], "all store contents and all prefixes, including the empty prefix and prefixes that are themselves keys",
  "One small store and one prefix are tried per backend; which entries the underlying iteration visits after the first non-matching key depends on content and ordering that the tests do not vary.",
  [ST + "hashmap.rs", ST + "rocks.rs"], [("filter predicate and cursor", ST + "hashmap.rs DBIterator"), ("prefix filter", ST + "rocks.rs prefix_iterator")])
p("S04", "A storage failure is never reported as success",
  "When a backend operation fails, or its lock is unavailable, the caller receives an error (or the thread stops): the failure is never turned into success, an empty answer or a missing value. The placeholder backend refuses every operation.",
  ["fault_sequences", "inputs"], "every failure of every backend primitive, at every call",
  "No test makes the database fail; the failure branches are never executed.",
  [ST + "hashmap.rs", ST + "rocks.rs", ST + "nobackend.rs"], [("error propagation", ST + "*.rs")])

CK = "crypto/src/key.rs"
p("K01", "AES-CBC decryption undoes encryption",
  "Decrypting with the same key and IV what was encrypted with them returns the original bytes, for every plaintext, key and IV of the accepted sizes. Invalid key sizes, IV sizes and ciphertexts produce an error instead of wrong output or a crash.",
  ["inputs"], "all plaintexts, keys and IVs, of every length",
  "A few fixed vectors are tested; lengths around the block size, empty input and malformed ciphertext are sampled at most once.",
  ["crypto/src/cipher.rs"], [("encrypt_aes_cbc, decrypt_aes_cbc", "crypto/src/cipher.rs")])
p("K02", "Random keys, IVs and salts are entirely filled by a secure generator",
  "Every byte of generated random material comes from a cryptographically secure generator, the result has exactly the requested length, and a failure of the generator is an error. No returned byte keeps a preset value, and two calls draw independently.",
  ["inputs", "fault_sequences"], "all requested lengths and all generator failures",
  "A test can only see that output looks different; it cannot tell a predictable generator or a partly filled buffer from a good one.",
  ["crypto/src/cipher.rs", "crypto/src/mnemonic.rs"], [("generate_random", "crypto/src/cipher.rs"), ("entropy", "crypto/src/mnemonic.rs")])
p("K03", "The three ways to compute a Merkle root agree",
  "For every list of hashes, the direct root computation, the root of the materialised tree and the root of the incrementally grown tree (after any number of insertions, read at any time) are the same value. The root of no leaves is the hash of the empty string, the root of one leaf is that leaf, and swapping or changing a leaf changes the input of the root.",
  ["inputs", "histories"], "all numbers of leaves, all leaf values, all insertion histories with reads in between",
  "Tests compare the computations for a few dozen leaf counts; shapes for larger counts depend on the binary expansion of the count.",
  ["crypto/src/merkle.rs"], [("merkle_tree_root", "crypto/src/merkle.rs"), ("ProgressiveMerkleTree", "crypto/src/merkle.rs"), ("FullMerkleTree", "crypto/src/merkle.rs")])
p("K04", "Merkle inclusion proofs verify for their own leaf and position",
  "A proof built for a leaf of a tree verifies against that tree's root with that leaf and reports that leaf's position. An index outside the tree gives no proof. Verifying any proof, of any length and index, against any root neither crashes nor accepts unless recombining the leaf with all the siblings in order gives exactly that root.",
  ["inputs"], "all trees, all positions, all proofs (including forged ones of any length)",
  "Tests build proofs for small trees and verify them; forged proofs and long sibling lists are not tried.",
  ["crypto/src/merkle.rs"], [("FullMerkleTree::inclusion_proof", "crypto/src/merkle.rs"), ("InclusionProof::verify", "crypto/src/merkle.rs")])
p("K05", "Signatures verify for exactly the message, key and signature given",
  "A signature made with a secret key over some data verifies with the matching public key and the same data. Verification accepts only what the signature primitive accepts for precisely the given key, data and signature, and data that cannot be signed yields an error.",
  ["inputs"], "all keys, data and signatures",
  "One fixed key and message are tested; that a wrong message, key or signature is refused is sampled once at most.",
  ["crypto/src/signature.rs"], [("sign, verify", "crypto/src/signature.rs")])
p("K06", "Key derivation follows BIP32 for every key, chain code and path",
  "Deriving a child uses the parent's chain code as MAC key over the standard input: a zero byte, the secret key and the index for hardened steps, and the public key and the index (big-endian) otherwise; the child's secret is the left half added to the parent's secret and its chain code is the right half. Deriving along a path is deriving step by step in order, and an empty path returns the key itself. A failing primitive gives an error.",
  ["inputs"], "all keys, chain codes, indices and paths of any length",
  "Published test vectors cover a few short paths; the choice between hardened and normal input for an arbitrary index is not settled by them.",
  [CK], [("ExtendedSK::derive, child derivation", CK)])
p("K07", "Exported keys import back to the same key and path",
  "Importing the text exported for a key and a path returns the same key (secret and chain code) and the same path, for every path depth that the format can express, together with the prefix that tells private from public keys. Writing never truncates or reorders a component.",
  ["inputs"], "all keys and all paths of up to 255 levels",
  "The tests export and import one key with a short path.",
  [CK], [("to_slip32, from_slip32", CK)])
p("K08", "Importing a key accepts only well-formed text and never crashes",
  "Any text that is not the encoding of a private key (wrong prefix, wrong length for its depth, wrong padding byte, invalid secret) is refused with an error, whatever its content. No input text makes the import crash.",
  ["inputs"], "all input texts",
  "A test can only try a few malformed strings; crashes hide in unusual lengths and depth bytes.",
  [CK], [("from_slip32", CK)])
p("K09", "Master keys come only from seeds of allowed length, by the standard MAC",
  "A seed of 16 to 64 bytes gives the master key whose secret and chain code are the two halves of the HMAC-SHA512 of the whole seed under the configured key (by default the standard one). Any other seed length is refused with an error.",
  ["inputs"], "all seeds of every length and all MAC keys",
  "Tests use one or two vectors; the length boundaries are not all exercised.",
  [CK], [("MasterKeyGen::generate", CK)])
p("K10", "Mnemonics and seeds pass through the standard unchanged",
  "Each supported phrase length maps to its own number of words and entropy bits, importing a phrase validates exactly that phrase in exactly the requested language, and the words and seed of a mnemonic are those of the standard for that phrase and passphrase. The protected and the plain variants of an operation give the same result.",
  ["inputs"], "all phrases, languages, lengths and passphrases",
  "Tests check one phrase per operation.",
  ["crypto/src/mnemonic.rs"], [("MnemonicGen, Mnemonic, Seed", "crypto/src/mnemonic.rs")])
p("K11", "Key paths keep every element, its hardening and its printed form",
  "Appending a normal or hardened step accepts exactly the numbers below 2^31 and stores them as given (hardened ones with the top bit set), keeping all earlier elements in order. An element counts as hardened exactly when its top bit is set. The printed path lists every element in order with the hardening mark exactly on hardened elements, and paths built from raw numbers keep them unchanged.",
  ["inputs"], "all 32-bit numbers and all paths",
  "Tests print one or two paths; boundary numbers around 2^31 are not covered.",
  [CK], [("KeyPath, KeyPathIndex", CK)])
p("K12", "Hashes and password keys depend on exactly the given bytes",
  "Hashing returns the full SHA-256 digest of exactly the given bytes. Password stretching returns 32 bytes of PBKDF2-HMAC-SHA256 computed from exactly the given password, salt and iteration count.",
  ["inputs"], "all byte strings, salts and iteration counts above zero",
  "One or two fixed vectors are tested.",
  ["crypto/src/hash.rs", "crypto/src/pbkdf2.rs"], [("calculate_sha256", "crypto/src/hash.rs"), ("pbkdf2_sha256", "crypto/src/pbkdf2.rs")])

p("K13", "Exported key material is exactly the key held",
  "Asking an extended key for its secret, its chain code, both concatenated, its public half or its plain key returns exactly that material, complete and in that order: the concatenation is the secret key's bytes followed by the whole chain code, and the extended public key is that of the same secret with the same chain code.",
  ["inputs"], "all extended keys, with chain codes of any length",
  "Tests compare a few fixed derived keys.",
  ["crypto/src/key.rs"], [("ExtendedSK::concat", "crypto/src/key.rs"), ("ExtendedPK::from_secret_key", "crypto/src/key.rs")])

TR = "reputation/src/trs.rs"
p("R01", "A reputation gain is credited once to its owner and expires as stated",
  "Recording gains credits every listed positive amount exactly once to its owner's total and exactly once to the packet of that expiration, merging with the newest packet only when the expirations are equal. Gains older than the newest packet are refused without changing anything. Amounts of zero leave no trace.",
  ["inputs", "histories"], "all histories of gains, with any identities, amounts and expirations",
  "Tests replay a few fixed histories with small integers.",
  [TR], [("gain", TR)])
p("R02", "Expiry removes exactly the reputation that has expired",
  "Expiring at a given time removes all packets whose expiration is at or before it and no others, takes each of their amounts off its owner's total, forgets owners left with nothing, and returns the sum of what was removed. The total of each owner stays the sum of the owner's amounts in the remaining packets.",
  ["inputs", "histories"], "all histories and all expiration times",
  "Tests replay a few fixed histories; expiration equal to the given time and several packets at once are barely sampled.",
  [TR], [("expire", TR)])
p("R03", "A penalty takes the requested amount, oldest gains last, or nothing at all",
  "Penalising lowers each identity's total by the reduction computed from its current total (also when an identity is listed more than once) and takes it from the packets that expire last first; the returned sum is the sum of the reductions. Attempting to raise reputation is refused before anything changes. Totals and packets stay consistent in every case.",
  ["inputs", "histories", "fault_sequences"], "all histories, all lists of identities (with repetitions) and all penalty functions, including ones that fail midway",
  "Tests penalise a few identities once; repetition and mid-list failures are not tried.",
  [TR], [("penalize, penalize_many", TR)])
p("R04", "Settling a packet against owed penalties is exact in either direction",
  "When owed penalties are taken out of one packet, each identity present on both sides loses the smaller of the two amounts on both sides, entries that reach zero disappear, and other identities are untouched. The result is the same whichever of the two sides is walked.",
  ["inputs"], "all packets and all owed amounts, of any relative size",
  "Which side is walked depends on the relative sizes; tests have small packets and few penalties, so most orderings are not met.",
  [TR], [("packet settlement", TR)])
p("R05", "Reputation queries report the recorded totals and change nothing",
  "The reputation of an identity is its recorded total or zero. Sums, listing and number of identities cover every identity with reputation exactly once. Two sets are equal exactly when their packets are equal, and clearing removes everything.",
  ["inputs", "histories"], "all histories of a reputation set and all lists of queried identities",
  "Tests query small sets.",
  [TR], [("get, get_sum, get_total_sum, identities, num_identities, clear", TR)])
AR = "reputation/src/ars.rs"
p("R06", "An identity is active exactly while one of the last periods lists it",
  "Recording a period makes every listed identity active and makes inactive exactly those whose last mention fell out of the window. Mentioning an identity several times in one period counts once. At no time does the window hold more periods than its capacity.",
  ["inputs", "histories"], "all histories of periods, with any lists of identities (including repeated and empty ones)",
  "Tests push a few periods on a small window.",
  [AR], [("push_activity", AR)])
p("R07", "Activity gaps count as empty periods",
  "Updating with a later epoch counts every skipped epoch as an empty period before recording the given identities; if the gap is as long as the window, everything older is forgotten. An epoch that is not later than the last update changes nothing and is refused, unless it is zero.",
  ["inputs", "histories"], "all sequences of epochs and lists of identities",
  "Tests try a few gaps; boundary gaps around the window length are not all met.",
  [AR], [("update", AR)])
p("R08", "Activity queries report the window and change nothing",
  "An identity is reported active exactly when it is counted in the window; the listing and number of active identities cover each once. Size and capacity report the number of recorded periods and the configured length, and clearing forgets all activity.",
  ["inputs", "histories"], "all histories of an activity window",
  "Tests query small windows.",
  [AR], [("contains, active_identities, active_identities_number, buffer_size, capacity, clear", AR)])

p("X01", "Protected values never appear in formatted output",
  "Formatting a protected value for debugging or logging reveals nothing about its content: the text is the same whatever bytes or characters are protected. There is no other way to obtain the content as text than asking for it explicitly.",
  ["inputs"], "all contents and every formatting flag",
  "A test shows that one value is not printed; it cannot exclude that length or parts are.",
  ["protected/src/lib.rs"], [("Debug implementations", "protected/src/lib.rs")])
p("X02", "Protected values survive serialization unchanged",
  "Reading a serialized protected value back gives the same content, in every self-describing and binary format. A failure to read is reported as an error, never as an empty value.",
  ["inputs", "configurations"], "all contents and all serialization formats",
  "There is no test that reads a protected value back from any format.",
  ["protected/src/serde.rs", "protected/src/lib.rs"], [("Serialize and Deserialize implementations", "protected/src/serde.rs")])
p("X03", "Protected content is held only in wiped memory and given out only by reference",
  "The content of a protected value lives only in a container that overwrites its memory when dropped; it is never moved out, forgotten or leaked. A value built from bytes or text holds exactly these, and the accessors give out exactly the whole content.",
  ["inputs", "histories"], "all contents and all sequences of operations",
  "Memory after drop cannot be observed by a safe test.",
  ["protected/src/lib.rs"], [("Protected, ProtectedString", "protected/src/lib.rs")])
p("U01", "Flattening nested future results loses neither values nor errors",
  "A flattened future resolves to the inner success value, to the inner error converted from exactly that error, or to the outer error converted likewise. No other outcome occurs.",
  ["inputs"], "all outcomes of the nested future",
  "Tests cover a few combinations with unit-like errors.",
  ["futures_utils/src/lib.rs"], [("flatten_err", "futures_utils/src/lib.rs")])
p("M01", "Derived partial structures make every field optional unless told otherwise",
  "For every structure, the derived partial structure has the same fields in the same order with each type wrapped in exactly one option. A field marked to be skipped keeps its type, and a field with a replacement type gets exactly that type.",
  ["programs"], "all structures, field types and field options",
  "Two or three example structures are compiled in tests.",
  ["partial_struct/src/lib.rs"], [("field rewriting", "partial_struct/src/lib.rs")])
p("M02", "Derived partial structures keep identity and forward attributes once",
  "The derived type is named after the original with the fixed prefix and keeps its visibility and generics. Foreign attributes are copied, options nested in the derive's own attribute become attributes of the generated item in order, and the derive's own options and conversion attributes do not appear on it.",
  ["programs"], "all structures and attribute lists",
  "Two or three example structures are compiled in tests.",
  ["partial_struct/src/lib.rs"], [("attribute forwarding", "partial_struct/src/lib.rs")])
