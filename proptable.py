T_DIFF = "runtime monitoring: differential oracle against an independent reference model, under AddressSanitizer and UBSan"

prop("P01", "Block ciphers compute exactly their definition, in both directions",
 "For every key, optional expansion info and block, each block cipher (AES, Serpent and their HKDF- and SHAKE-extended variants) produces exactly the block its specification defines, decryption inverts encryption, and the 1, 2, 4, 8 and 16 block wide forms give what the single-block form gives. This holds at any input and output offset, writes nothing outside the blocks asked for, and does not depend on what keys or directions the instance was used with before. A key of a length the cipher does not publish is refused.",
 ["inputs", "histories", "configurations"], "all keys of the defined lengths, all info strings, all blocks, offsets and widths, any sequence of re-initialisations of one instance",
 "The tests compare published vectors and a few hundred random round trips per cipher; a wrong round key for one key size and info length, a wide form disagreeing with the narrow one, or state left from an earlier key only shows up on inputs they do not sample.",
 ["CEX/RHX.cpp", "CEX/SHX.cpp", "CEX/IBlockCipher.h", "CEX/BlockCipherFromName.cpp"],
 [("StandardExpand/SecureExpand derive the round keys", "CEX/RHX.cpp"), ("Encrypt128..2048 / Decrypt128..2048", "CEX/RHX.cpp, CEX/SHX.cpp")],
 ["IBlockCipher::Initialize, EncryptBlock, DecryptBlock, Transform, Transform256..2048 (output vectors)"],
 T_DIFF, "Seeded exploration; every output is compared with a scalar model of the cipher written from its definition, inside guard bytes and under sanitizers. Trusts that model and OpenSSL's SHA-2.",
 [("round keys", "expanded key; replaced as a whole by each initialisation", "CEX/RHX.h, CEX/SHX.h")])

prop("P02", "Cipher modes equal their definition whatever the chunking and parallelism",
 "For every key, IV, direction and message, ECB, CBC, CFB, OFB, CTR and ICM over every block cipher produce exactly the stream their definition gives. The result is the same in one call or several, with parallel processing on or off, for any parallel degree and block size, and also when the counter carries across words inside or between parallel segments.",
 ["inputs", "configurations", "histories"], "all messages, keys and IVs including all-ones counters, all legal parallel degrees and block sizes, all ways of cutting a message into calls",
 "The tests compare parallel with sequential processing of a few random sizes with random IVs, where a counter carry at a segment boundary has negligible probability, and never vary degree, block size and chunking together.",
 ["CEX/CTR.cpp", "CEX/ICM.cpp", "CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/ECB.cpp", "CEX/OFB.cpp", "CEX/IntegerTools.h", "CEX/ParallelTools.cpp"],
 [("ProcessParallel splits a transform into per-thread segments with their own counter or chaining value", "CEX/CTR.cpp, CEX/ICM.cpp, CEX/CBC.cpp, CEX/CFB.cpp"), ("Generate: vectorised counter blocks", "CEX/CTR.cpp")],
 ["ICipherMode::Transform, EncryptBlock, DecryptBlock output vectors; ParallelProfile"],
 T_DIFF, "Seeded exploration of message length, IV, parallel degree and block size around the parallel threshold; every byte is compared with a scalar model of the mode.",
 [("nonce / chaining register", "advances exactly with the bytes processed", "CEX/CTR.h, CEX/CBC.h")])

prop("P05", "Digests equal their published definition under any use of the instance",
 "For every message, the SHA-2, SHA-3, BLAKE2 and Skein digests return exactly the published hash of that message, however the message is cut into updates, through every form of update, at any output offset, and for every later message hashed with the same instance, after finalisation or reset. Keyed BLAKE2 likewise returns the published keyed hash for every key, salt and personalisation.",
 ["inputs", "histories", "configurations"], "all messages, all ways of cutting them into updates, any sequence of messages, resets and finalisations on one instance, all key lengths",
 "The tests use published vectors and single updates of random data against the same implementation; lengths around the block boundary crossed with chunking and reuse are not compared with an independent definition.",
 ["CEX/SHA2256.cpp", "CEX/SHA2512.cpp", "CEX/SHA3256.cpp", "CEX/SHA3512.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/Skein256.cpp", "CEX/Skein512.cpp", "CEX/Skein1024.cpp", "CEX/Keccak.cpp", "CEX/SHA2.cpp", "CEX/Blake.cpp", "CEX/Skein.h"],
 [("Update buffers partial blocks", "each digest's Update"), ("Finalize pads, extracts and resets", "each digest's Finalize/HashFinal")],
 ["IDigest::Update (all overloads), Finalize, Compute, Reset, Initialize"],
 T_DIFF, "Seeded exploration of lengths, chunkings and reuse; each code is compared with OpenSSL or an independent model.",
 [("message buffer, position and counter", "the unprocessed tail of the current message only", "each digest's state")])

prop("P06", "Tree hashing depends on the message and the tree shape alone",
 "For every message and parallel degree, a digest in tree mode returns the value its tree construction defines: every byte of the message contributes at its place, and the result does not depend on how the message was cut into updates, on the parallel block size, on scheduling, or on earlier messages. Reading and writing stay inside the buffers for every degree that can be set.",
 ["inputs", "configurations", "histories", "schedules"], "all messages, parallel degrees (2 to 64) and parallel block sizes, all chunkings, repeated use of one instance",
 "The tests compare the tree mode with itself on one size and one degree, which cannot show bytes that never reach the hash, and never cut the message at other places than the parallel block.",
 ["CEX/SHA2256.cpp", "CEX/SHA2512.cpp", "CEX/SHA3256.cpp", "CEX/SHA3512.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/Skein256.cpp", "CEX/Skein512.cpp", "CEX/Skein1024.cpp", "CEX/ParallelTools.cpp"],
 [("ProcessLeaf / parallel Update: lane i takes every n-th block", "each digest's Update and ProcessLeaf"), ("HashFinal combines the lanes under the root parameters", "each digest's HashFinal/Finalize")],
 ["IDigest::Update, Finalize, ParallelMaxDegree, ParallelProfile"],
 T_DIFF, "Seeded exploration of degree, block size, length and chunking; compared with an independent model of each tree construction.",
 [("lane states and tree buffer", "one state per lane, buffer of degree x block", "each digest's DgtState")])

prop("P07", "MACs equal their published definition and keep nothing from earlier messages",
 "For every key, salt, custom string and message, HMAC, CMAC, GMAC, KMAC, Poly1305 and the parallel Keccak MAC return exactly the code their definition gives, for every requested code length, however the message is cut into updates, in every output form and at every output offset. A code never depends on messages the instance processed, finished or abandoned before.",
 ["inputs", "histories", "configurations"], "all keys, nonces, customisations and messages, all cuttings into updates, any sequence of messages, resets and re-initialisations",
 "The tests compare published vectors and random messages against the same instance; custom strings at block boundaries, long codes, offsets, and instances reused after an abandoned message are not covered.",
 ["CEX/HMAC.cpp", "CEX/CMAC.cpp", "CEX/GMAC.cpp", "CEX/KMAC.cpp", "CEX/KPA.cpp", "CEX/Poly1305.cpp", "CEX/Keccak.cpp", "CEX/MacFromName.cpp"],
 [("Initialize absorbs key and customisation", "CEX/KMAC.cpp, CEX/KPA.cpp"), ("Update/Finalize buffer partial blocks", "each generator"), ("CMUL multiplies in GF(2^128)", "CEX/CMUL.cpp")],
 ["IMac::Initialize, Update, Finalize, Compute, Reset"],
 T_DIFF, "Seeded exploration; each code is compared with an independent model (OpenSSL for HMAC). Trusts that model.",
 [("MAC state and message buffer", "belong to the current message only", "each generator's state class")])

prop("P08", "Key derivation returns exactly the defined stream and never repeats it",
 "For every key, salt, info and cost, HKDF, KDF2, PBKDF2, SHAKE and the SHAKE-based cost function return exactly the bytes their definition gives, in every output form and at every offset, and successive requests continue the same stream block by block. Re-initialising an instance equals a fresh one, and the counter-based functions refuse requests past their limit instead of repeating earlier output.",
 ["inputs", "histories", "configurations"], "all keys, salts, infos, costs and request sizes; any sequence of requests and re-initialisations of one instance",
 "The tests check published vectors, one request per instance, into a plain vector at offset zero; salts combined with info, re-initialisation with fewer parameters and requests at the limit never occur in them.",
 ["CEX/HKDF.cpp", "CEX/KDF2.cpp", "CEX/PBKDF2.cpp", "CEX/SHAKE.cpp", "CEX/SCBKDF.cpp", "CEX/KdfFromName.cpp"],
 [("Expand produces blocks and advances the counter", "each function's Expand"), ("Initialize splits key, salt and info", "each function's Initialize")],
 ["IKdf::Generate (all overloads), Initialize, Reset, HKDF::Extract"],
 T_DIFF, "Seeded exploration; each request is compared with an independent model (OpenSSL's HMAC, SHA-2 and PBKDF2), and outputs up to the limit are checked for repeated blocks. Salts of 4 to 7 bytes for HKDF are rejected by HMAC and are not explored.",
 [("block counter", "number of the next block; never wraps", "each function's state class")])

prop("P03", "Authenticated ciphers match their definition and refuse every altered message",
 "For every key, nonce, associated data and message, GCM, HBA (with every authenticator) and the authenticated stream ciphers produce exactly the ciphertext and tag their construction defines, whatever the parallel settings and whatever the instance was used for before. If the key, nonce, associated data, ciphertext, tag or length differs from what was sealed, or a message of a sequence is replayed or reordered, decryption reports an authentication failure and releases nothing. A refused call changes nothing: the message still to be processed is processed as if it had not been made.",
 ["inputs", "histories", "configurations"], "all keys, nonces, associated data, messages, single and multiple alterations of each, all parallel settings, any sequence of messages, abandoned messages and refused calls",
 "The tests seal and open known vectors and a few random messages; they alter almost nothing, and never look at the output buffer after a refusal, reuse an instance after an abandoned message, or continue after a refused call.",
 ["CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/GHASH.cpp", "CEX/ChaChaP20.cpp", "CEX/CSX512.cpp", "CEX/TSX256.cpp", "CEX/TSX512.cpp", "CEX/TSX1024.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/AeadModeFromName.cpp", "CEX/StreamCipherFromName.cpp"],
 [("Transform verifies the code before it decrypts", "each class's Transform"), ("SetAssociatedData feeds the authenticator", "each class"), ("Finalize appends the processed length and ratchets the code key", "CEX/HBA.cpp")],
 ["IAeadMode / IStreamCipher: Initialize, SetAssociatedData, Transform, Tag; the exception type; the output vector after a refusal"],
 T_DIFF + "; a forgery monitor over altered messages", "Seeded exploration; ciphertext and tag are compared with an independent model of each construction, every forgery must raise CryptoAuthenticationFailure and leave the output untouched. Known finding: ChaChaP20's code does not cover the nonce.",
 [("associated data, counter and code key", "belong to the current message; the key ratchets per message in HBA", "each class's state")])

prop("P04", "Stream ciphers equal their definition whatever the chunking and parallelism",
 "For every key, nonce, info and message, ChaCha20, CSX512, the Threefish ciphers, RCS and RWS produce exactly the keystream their construction defines, in one call or several block-aligned ones, with parallel processing on or off, for any parallel degree and block size, any input and output offset, and when the counter carries across words inside or between segments. An instance restored from its serialised state continues as the original would.",
 ["inputs", "configurations", "histories"], "all messages, keys, nonces (counters about to wrap included), infos, legal parallel settings, chunkings and offsets; states saved at any point",
 "The tests compare a parallel with a sequential run of a few random messages from a random nonce at offset zero; wide, scalar and parallel code paths are not compared with an independent definition, and counters never carry.",
 ["CEX/ChaChaP20.cpp", "CEX/CSX512.cpp", "CEX/TSX256.cpp", "CEX/TSX512.cpp", "CEX/TSX1024.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/ChaCha.h", "CEX/Threefish.h", "CEX/Rijndael.h", "CEX/IntegerTools.h"],
 [("Generate: wide and scalar keystream blocks", "each class's Generate"), ("ProcessParallel gives each segment its counter", "each class"), ("Serialize / state constructor", "CEX/ChaChaP20.cpp, CEX/CSX512.cpp, CEX/RCS.cpp, CEX/RWS.cpp")],
 ["IStreamCipher: Initialize, Transform, Serialize and the constructors from a state; output vectors inside guard bytes"],
 T_DIFF, "Seeded exploration around the wide-block and parallel thresholds; every byte is compared with a scalar model of the cipher.",
 [("nonce / counter", "advances by one per block processed, in little-endian order", "each class's state")])

prop("P09", "Deterministic generators return exactly the stream their seed material defines",
 "For every key, nonce, customisation, sequence of updates and entropy provider, the block-cipher, HMAC and Keccak generators return exactly the bytes their definition gives, in every output form and at every offset, with parallel processing on or off, and re-initialisation leaves nothing of the earlier use. A generator with a provider takes fresh entropy at every threshold and update, never more reseeds than its limit, and a refused request writes nothing and takes nothing from the stream.",
 ["inputs", "histories", "configurations"], "all keys, nonces and customisations, any sequence of requests, updates, automatic reseeds and refused requests, all parallel settings",
 "The tests check single known vectors without a provider and compare one instance with an identical one; reseeding, updates, parallel generation, counters that carry and caller-supplied providers are not compared with anything.",
 ["CEX/BCG.cpp", "CEX/HCG.cpp", "CEX/CSG.cpp", "CEX/DrbgBase.cpp", "CEX/DrbgFromName.cpp"],
 [("Generate counts output and reseeds at the threshold", "CEX/BCG.cpp, CEX/HCG.cpp, CEX/CSG.cpp"), ("Process splits a request over threads", "CEX/BCG.cpp"), ("Expand keeps the rest of a block", "CEX/HCG.cpp, CEX/CSG.cpp")],
 ["IDrbg::Initialize, Generate (all overloads), Update, ReseedThreshold; a provider that records what is taken from it"],
 T_DIFF, "Seeded exploration; every request is compared with an independent model that shares a recorded entropy source with the generator.",
 [("block cache, counter and reseed count", "belong to the current keying", "each generator's state class")])

prop("P10", "Random sources fill what is asked, from fresh entropy, or fail loudly",
 "Every entropy provider and random generator writes exactly the bytes asked for at the place asked for, refuses a range outside the vector without writing, and never hands out the same bytes twice. Its output follows from the entropy it takes; when a source fails at any point, or repeats itself, the call throws the library's exception and returns no output, and works again once the source does. Bounded random integers stay in their bounds and are uniform over them.",
 ["inputs", "faults", "histories"], "all sizes, offsets, output forms and bounds; every point at which a source of entropy can fail; sources that return a constant",
 "The tests check that output is not zero, or compresses badly; they cannot make the operating system's generator or the hardware generator fail, and never ask for ranges or for bounds near a type's limits.",
 ["CEX/ACP.cpp", "CEX/CSP.cpp", "CEX/ECP.cpp", "CEX/RDP.cpp", "CEX/CJP.cpp", "CEX/ProviderBase.cpp", "CEX/BCR.cpp", "CEX/CSR.cpp", "CEX/HCR.cpp", "CEX/SecureRandom.cpp", "CEX/PrngFromName.cpp", "CEX/ProviderFromName.cpp"],
 [("Generate over a range", "each provider and generator"), ("Reset keys the generator from its provider", "CEX/BCR.cpp, CEX/CSR.cpp, CEX/HCR.cpp"), ("NextIntN with bounds", "CEX/SecureRandom.cpp")],
 ["IProvider, IPrng, SecureRandom: Generate (all overloads), Reset, NextInt*; the calls that reach the operating system and the hardware generator"],
 "runtime monitoring: output-range, repetition and uniformity monitors with entropy recorded, altered and made to fail at every request, under AddressSanitizer and UBSan",
 "Every entropy request of a session is failed in turn (a sample in the quick tier when there are many); each byte of seed material is inverted in turn. The jitter provider may refuse to work where the clock does not suit it.",
 [("sample of the last output", "differs from the next one or the call is refused", "CEX/ProviderBase.cpp")], level="fault_enumeration")

prop("P21", "Integer and vector-lane helpers compute their definition",
 "For every value, width, length and offset, the byte-order conversions, multi-byte counters, rotations, number and hexadecimal conversions and branch-free selections and comparisons return exactly what they are documented to return and write only the bytes asked for. The vector-lane types give, lane by lane, what the same operation on one unsigned integer gives, and a comparison of two vectors finds every single difference and nothing outside its range.",
 ["inputs", "configurations"], "all values (edges preferred), all widths, lengths, offsets, containers and operators",
 "The tests convert a few values back and forth and do one lane test; carries over many bytes, offsets, shifts by every amount, large values and single-bit differences at each place are not sampled.",
 ["CEX/IntegerTools.h", "CEX/UInt128.h", "CEX/UInt256.h", "CEX/ULong256.h", "CEX/MemoryTools.h"],
 [("LeIncrease8 / BeIncrease8 and their offset forms carry a counter", "CEX/IntegerTools.h"), ("Compare / Verify accumulate differences", "CEX/IntegerTools.h, CEX/MemoryTools.h"), ("operators on lanes", "CEX/UInt128.h, CEX/UInt256.h, CEX/ULong256.h")],
 ["return values and output vectors of the IntegerTools functions and of the UInt128, UInt256 and ULong256 members"],
 "runtime monitoring: byte-wise and scalar models as oracle, under AddressSanitizer and UBSan", "Seeded exploration with edge-biased values; every result is compared with a scalar computation.")

prop("P22", "Memory and array helpers touch exactly the bytes asked for",
 "For every length, offset and element width, the block copy, move, clear, set, and, or and xor helpers change exactly the bytes of the range and give each the defined value, at any alignment and with any remainder after the wide blocks. Appending, removing, splitting, searching and converting arrays return the documented content and count, and a shuffle is a uniformly drawn permutation.",
 ["inputs", "configurations"], "all lengths, offsets, element widths and containers, every remainder after the vectorised part",
 "The tests exercise single sizes of one element type; remainders, mixed element widths and offsets, where the vectorised loop hands over to the tail, are not covered.",
 ["CEX/MemoryTools.h", "CEX/ArrayTools.h", "CEX/ArrayTools.cpp"],
 [("vectorised loop and byte tail", "CEX/MemoryTools.h: each operation"), ("Append*, Remove, Split, RandomShuffle", "CEX/ArrayTools.h, CEX/ArrayTools.cpp")],
 ["output vectors, including the bytes around the range, and returned counts"],
 "runtime monitoring: byte-wise models as oracle, guard bytes around every range, under AddressSanitizer and UBSan", "Seeded exploration over lengths, offsets and element widths; the whole container is compared after each call.")

prop("P11", "Key encapsulation agrees, follows its definition and never agrees on a forgery",
 "For every key pair, domain key and stream of randomness, Kyber and McEliece give sender and receiver the same shared secret, the one their construction defines for that randomness; Kyber's keys and cipher-texts are exactly the specified bytes. A cipher-text or key that was altered, truncated, extended or crafted never yields the sender's secret: it is refused, or gives the pseudo-random secret the construction prescribes. Nothing outside the arguments is read or written.",
 ["inputs", "configurations"], "all parameter sets, keys, domain keys, randomness, alterations of cipher-text and key, and cipher-texts made from the public key alone",
 "The tests do a few round trips per parameter set with one alteration of the cipher-text; they cannot tell a secret both sides compute wrongly from the right one, and an over-read inside a vector load does not show.",
 ["CEX/Kyber.cpp", "CEX/KyberBase.h", "CEX/KyberBase.cpp", "CEX/McEliece.cpp", "CEX/MPKCN4608T96.cpp", "CEX/MPKCN6688T128.cpp", "CEX/MPKCN6960T119.cpp", "CEX/MPKCN8192T128.cpp"],
 [("Encapsulate / Decapsulate with re-encryption check", "CEX/KyberBase.h"), ("syndrome decoding and confirmation hash", "CEX/MPKC*.cpp"), ("domain-key derivation", "CEX/Kyber.cpp, CEX/McEliece.cpp: CXOF")],
 ["IAsymmetricCipher: Generate, Initialize, Encapsulate, Decapsulate; a generator whose stream is recorded"],
 T_DIFF + "; a forgery monitor over altered and crafted cipher-texts", "Seeded exploration with recorded randomness. Kyber is compared byte by byte with an independent model; McEliece's secret and confirmation are recomputed from the error vector, its key generation is judged by agreement only.")

prop("P12", "Signatures verify exactly when they should",
 "For every key pair and message, a signature by Dilithium, ECDSA, SPHINCS+ or XMSS verifies, returns the signed message, and is valid under an independent implementation of the scheme. Every altered, truncated, extended or specially crafted signature, message or key is refused with the message withheld, whatever its length; signatures that are not in the scheme's one canonical form are refused too. Keys of another scheme, class, size or unknown parameter set are refused when the signer is initialised.",
 ["inputs", "configurations"], "all parameter sets, keys, messages and lengths; alterations of every field, responses over the bound, non-canonical scalars and hints, keys of small order",
 "The tests sign and verify with the same code and change one thing at random; an error both sides share, a missing bound, a forgery that needs a crafted field, and truncation are not sampled.",
 ["CEX/Dilithium.cpp", "CEX/DLTMBase.h", "CEX/DLTMPolyMath.cpp", "CEX/ECDSA.cpp", "CEX/ECDSABase.cpp", "CEX/EC25519.cpp", "CEX/SphincsPlus.cpp", "CEX/SPXBase.h", "CEX/SPXBase.cpp", "CEX/XMSS.cpp", "CEX/XmssCore.cpp"],
 [("Verify: length, bound, hint and challenge checks", "CEX/DLTMBase.h"), ("Ed25519Verify: canonical scalar, small order, equation", "CEX/ECDSABase.cpp, CEX/EC25519.cpp"), ("hash-tree root recomputation", "CEX/SPXBase.h, CEX/XmssCore.cpp"), ("Initialize checks the key", "each scheme")],
 ["IAsymmetricSigner: Generate, Initialize, Sign, Verify; the message vector after a refusal"],
 T_DIFF + "; a forgery monitor over altered and crafted signatures", "Seeded exploration. Dilithium and Ed25519 signatures are compared byte by byte with a model and OpenSSL; SPHINCS+ and XMSS signatures are verified by a model written from their specifications. The largest XMSS sets are only run in the thorough tier.")

prop("P13", "Diffie-Hellman exchange equals X25519 and refuses degenerate keys",
 "For every pair of seeds, both parties of the elliptic-curve exchange compute the same secret, which is the X25519 function of one's private and the other's public value, or the customised hash of it under a domain key. A public value of small order makes the exchange report failure and leave the secret untouched, and keys of the wrong size are refused.",
 ["inputs", "configurations"], "all seeds, public values (canonical or not, on the curve or its twist, of small order), domain keys and secret sizes",
 "The tests check that two parties agree and one known vector; non-canonical and degenerate public values, domain keys and secret sizes are not sampled.",
 ["CEX/ECDH.cpp", "CEX/ECDHBase.cpp", "CEX/EC25519.cpp"],
 [("ScalarMultCurve25519", "CEX/EC25519.cpp"), ("Ed25519SmallOrder block list", "CEX/EC25519.cpp"), ("CXOF over the domain key", "CEX/ECDH.cpp")],
 ["IAsymmetricKeyExchange: Generate, KeyExchange; the secret vector after a refusal"],
 T_DIFF, "Seeded exploration; every secret is compared with OpenSSL's X25519.")

prop("P14", "A stateful signing key never uses a one-time key twice",
 "Over the whole history of an XMSS or XMSS-MT private key, however it is stored, reloaded, moved to another signer or interrupted by failing calls, every signature carries an index one past the last one. The stored key advances with each signature and changes in nothing else. When the last one-time key is spent, every further attempt to sign fails.",
 ["histories", "inputs"], "all histories of sign, save, reload, change of signer and failed calls; indices at subtree ends and at the end of the key",
 "The tests sign once with each key, so nothing that depends on the second signature can show; reaching the end of a key takes a crafted index.",
 ["CEX/XMSS.cpp", "CEX/XmssCore.cpp", "CEX/AsymmetricKey.cpp"],
 [("Sign reads, uses and advances the index", "CEX/XmssCore.cpp"), ("the signer stores the advanced key", "CEX/XMSS.cpp, CEX/AsymmetricKey.cpp: Update")],
 ["index field of each signature, the private key after each signature, the exception at the end of the key"],
 "runtime monitoring: an online monitor of the indices a private key spends, over seeded histories, under AddressSanitizer and UBSan",
 "Seeded histories for each parameter set whose trees are small; keys are moved forward to subtree ends and to the last index by editing the index field.",
 [("index", "number of one-time keys spent; strictly increasing, never wraps", "private key bytes")])

prop("P15", "A key comes back from its container exactly as it went in, or not at all",
 "For every key, nonce and info, and every security policy and salt, a symmetric or asymmetric key container returns the same bytes and sizes through every accessor, copy and constructor, and its serialised form is the documented stream, from which the same key is restored. A truncated stream, one whose lengths claim more than it holds, or a key the stream cannot represent is refused; after a reset nothing of the key is returned. A generated key is the named expansion of the named entropy source, in fields of the requested sizes, and a failing source yields no key.",
 ["inputs", "histories", "fault_sequences"], "all key, nonce, info and salt sizes including none, all policies, all truncations and length fields, provider failure",
 "The tests store and restore a few keys of usual sizes; absent fields, copies of encrypted containers, short or lying streams and output offsets never occur in them.",
 ["CEX/SymmetricKey.cpp", "CEX/SymmetricSecureKey.cpp", "CEX/AsymmetricKey.cpp", "CEX/AsymmetricSecureKey.cpp", "CEX/AsymmetricKeyPair.cpp", "CEX/SymmetricKeyGenerator.cpp", "CEX/SymmetricKeySize.cpp"],
 [("Serialize / DeSerialize", "CEX/SymmetricKey.cpp, CEX/SymmetricSecureKey.cpp, CEX/AsymmetricKey.cpp, CEX/AsymmetricSecureKey.cpp"), ("Encipher / Extract: the encrypted key state", "CEX/SymmetricSecureKey.cpp, CEX/AsymmetricSecureKey.cpp"), ("Generate", "CEX/SymmetricKeyGenerator.cpp")],
 ["key accessors, Serialize, DeSerialize, Clone, Reset, Generate outputs"],
 T_DIFF + "; injected entropy failure", "Seeded exploration; every accessor is compared with the bytes put in, every stream with a model of its format, every generated key with a model of the expansion over the recorded source. 65536-byte fields are beyond the stream's format and only their refusal is decided.",
 [("key state", "key, nonce and info, encrypted under a per-container key in the secure forms", "CEX/SymmetricSecureKey.cpp, CEX/AsymmetricSecureKey.cpp: SecureKeyState")])

prop("P16", "Secure memory has one owner, stays locked, and is erased when it is given back",
 "Under every sequence and interleaving of requests and releases, the locked memory pool and the allocator of secure vectors never give a byte to two owners, never touch memory they do not own, serve every request that fits, align it, and hand out and take back only zeroed memory. Small secure vectors lie in locked pages as long as there are any, and everything still works when none can be had. What a secure vector or a secure move, clear or lock operation discards holds nothing of its former content, and the helpers move exactly the bytes asked for.",
 ["histories", "schedules", "inputs", "fault_sequences"], "all sequences of sizes, alignments and releases, exhausted and fragmented pools, foreign pointers, concurrent owners, pages that cannot be allocated or locked",
 "No test touches the pool: an overlap needs a particular fragmentation or two threads, and what stays behind in released memory cannot be seen from a test at all.",
 ["CEX/MemoryPool.cpp", "CEX/LockingAllocator.cpp", "CEX/SecureMemory.cpp", "CEX/SecureVector.h"],
 [("Allocate finds a free interval, Deallocate merges it back", "CEX/MemoryPool.cpp"), ("Allocate falls back from the pool to the heap", "CEX/LockingAllocator.cpp"), ("page locking", "CEX/SecureMemory.cpp"), ("secure vector helpers", "CEX/SecureVector.h")],
 ["every pointer served and released; content of live and released blocks; calls that lock and unlock pages; blocks returned to the heap"],
 "runtime monitoring: ownership, content and page-lock monitors over seeded histories with injected faults; a dead-memory scan at every heap release; AddressSanitizer and, for concurrent owners, ThreadSanitizer",
 "Seeded histories against a shadow model of who owns what. Six threads for concurrent owners. Residue on the stack or in registers is not looked for.",
 [("free list", "disjoint sorted intervals covering what has no owner", "CEX/MemoryPool.h")], level="fault_enumeration")

prop("P18", "Padding added is exactly the padding removed, and nothing else is",
 "For every block, offset and amount of padding, each padding scheme writes exactly the bytes it defines into the given range and nowhere else, and reports the end of the content as the place where the padding began. Padding is recognised only when every byte of it that the scheme fixes is right and it lies within the block; otherwise the whole block is content. Ranges outside the array, empty ranges and amounts the scheme cannot express are refused.",
 ["inputs"], "all block contents and sizes up to 64, offsets within larger arrays, amounts of padding, single-bit alterations",
 "The tests pad a few random blocks; malformed padding, blocks inside larger arrays, and amounts a length byte cannot hold are not sampled.",
 ["CEX/ESP.cpp", "CEX/PKCS7.cpp", "CEX/X923.cpp", "CEX/ZeroOne.cpp", "CEX/PaddingFromName.cpp"],
 [("AddPadding / GetBlockLength", "CEX/ESP.cpp, CEX/PKCS7.cpp, CEX/X923.cpp, CEX/ZeroOne.cpp")],
 ["IPadding: AddPadding (whole array), GetBlockLength result"],
 T_DIFF, "Seeded exploration; amounts and contents are compared with a byte-wise model of each scheme. X923's filler bytes are its fixed zeros.")

prop("P19", "A byte stream is an array with a position, in memory or in a file",
 "For every sequence of reads, writes, seeks, length changes, copies and resets, the memory, encrypted-memory and file streams behave as one array of bytes with a position: they return the bytes last written there, report the true length and position, and touch nothing outside the ranges they are given. Reading past the end returns what there is, a byte beyond it is refused, and so are seeks before the start and transfers a buffer cannot hold. What a file stream wrote is in the file after a flush or close, and its access and open modes are honoured.",
 ["histories", "inputs"], "all sequences of operations on the three kinds of stream, all salts, access and open modes, and on the integer reader and writer over them",
 "The tests write, rewind and read a stream once; alternating reads and writes, gaps, truncation, ends of stream and open modes never occur in them.",
 ["CEX/MemoryStream.cpp", "CEX/SecureStream.cpp", "CEX/FileStream.cpp", "CEX/StreamReader.cpp", "CEX/StreamWriter.cpp", "CEX/StreamWriter.h", "CEX/StreamReader.h"],
 [("Read / Write / Seek / SetLength / CopyTo", "CEX/MemoryStream.cpp, CEX/SecureStream.cpp, CEX/FileStream.cpp"), ("Transform: the stream is kept encrypted between calls", "CEX/SecureStream.cpp"), ("ReadInt / Write", "CEX/StreamReader.h, CEX/StreamWriter.h")],
 ["IByteStream results, buffers, Length and Position after every call; the file's bytes"],
 "runtime monitoring: an online monitor holding an array and a position, checked after every operation of seeded histories, under AddressSanitizer and UBSan",
 "Seeded histories of up to 80 operations on streams of up to some 20000 bytes, files in a scratch directory. Failing disks are not simulated.",
 [("array and position", "what a stream holds and where it stands", "IByteStream"), ("read or write turn of a file", "a change needs the file positioned anew", "CEX/FileStream.cpp")])

prop("P20", "Stream processors equal the one-shot computation over the same bytes",
 "For every message, source and sink, the cipher, MAC and digest processors produce exactly what the underlying primitive gives for the bytes from the source's position to its end, or for the array range they were given; the output lands at the sink's position or the given offset, and nothing else changes. Enciphering pads so that deciphering gives the message back, whatever its length and content, in every mode, sequential or parallel. Processing without a key, beyond an array, or of cipher-text that is not whole blocks is refused.",
 ["inputs", "configurations", "histories"], "all cipher modes, paddings, MACs and digests; memory, encrypted and file streams at any position; all message lengths incl. none and whole blocks, repeated use of one processor",
 "The tests round-trip random sizes through the same code, so an error both directions share, a start position or output offset that is ignored, and messages of whole blocks whose tail looks like padding do not show.",
 ["CEX/CipherStream.cpp", "CEX/MacStream.cpp", "CEX/DigestStream.cpp"],
 [("Write (stream and array), BlockTransform, ParallelTransform", "CEX/CipherStream.cpp"), ("Compute / Process", "CEX/MacStream.cpp, CEX/DigestStream.cpp")],
 ["sink bytes, output arrays, stream positions, MAC codes and hashes"],
 T_DIFF, "Seeded exploration; cipher output is compared with a scalar model of mode and padding, codes and hashes with the primitives (decided by P05-P07). Progress events are not judged.")

prop("P23", "Parallel tasks run once and complete; the parallel profile always fits",
 "A parallel loop runs each of its tasks exactly once, returns only when all are done and what they wrote is visible, and passes an exception of any of them to the caller; this holds for nested loops and for several callers at once. Whatever block size, degree, reserve and mode a parallel profile is given, and in whatever order its settings are changed, its degree is at least one and no more than the processors unless asked for, and its parallel block is a positive whole multiple of the smallest size that gives every thread whole blocks. Settings outside that are refused and change nothing.",
 ["schedules", "inputs", "histories"], "all ranges, delays and throwing tasks; all sequences of settings of a profile",
 "The tests use parallel processing with default settings and tasks that do not fail; a task lost, returned from early, or failing in another thread, and sizes that round to nothing are not seen.",
 ["CEX/ParallelTools.cpp", "CEX/ParallelOptions.cpp", "CEX/ParallelOptions.h"],
 [("ParallelFor / ParallelTask", "CEX/ParallelTools.cpp"), ("Calculate, SetBlockSize, SetMaxDegree", "CEX/ParallelOptions.cpp")],
 ["task executions, exceptions at the caller, ParallelOptions accessors after every change"],
 "runtime monitoring: an exactly-once and completion monitor with injected delays and exceptions, invariants of the profile after every call; AddressSanitizer, UBSan and ThreadSanitizer",
 "Seeded exploration with random delays; schedules are those the eight cores give.")

prop("P24", "Independent instances and parallel processing are free of data races",
 "Any number of threads may each use instances of their own, of any primitive, key container, generator, stream or processor, at the same time: no memory is accessed without synchronisation, and each thread obtains exactly what it would have obtained alone. The same holds for the threads a single parallel cipher, authenticated cipher, tree digest or processor uses inside, for any degree and block size.",
 ["schedules", "configurations"], "all mixes of primitives over two to six threads, all parallel degrees and block sizes of one instance",
 "The tests are single-threaded apart from a few parallel transforms whose races rarely change the result; a shared static, a counter cached at the wrong level, or two threads writing one byte shows in no output on most runs.",
 ["CEX/ParallelTools.cpp", "CEX/CTR.cpp", "CEX/ICM.cpp", "CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/CSX512.cpp", "CEX/ChaChaP20.cpp", "CEX/SHA2256.cpp", "CEX/SHA3512.cpp", "CEX/Skein512.cpp", "CEX/CSP.cpp", "CEX/LockingAllocator.cpp"],
 [("parallel sections", "CEX/CTR.cpp, CEX/CBC.cpp, CEX/RCS.cpp, CEX/SHA2256.cpp, ..."), ("process-wide state: tables, detected features, the locked memory pool", "CEX/*.cpp")],
 ["ThreadSanitizer's happens-before reports; a digest of everything each thread obtained"],
 "runtime monitoring: ThreadSanitizer on every primitive used concurrently, and a monitor comparing each thread's results with the same work done alone",
 "Seeded mixes of work; a race is reported when its two accesses occur unordered in a run, whatever the actual timing. First uses race in each fresh worker process. SPHINCS+ and McEliece only in the thorough tier.")

prop("P25", "Identifiers, names and factories agree, and unknown ones are refused",
 "Every identifier the library declares has a name of its own that leads back to it and to nothing else, and any other text leads to none. A factory given an identifier makes an object that says it is exactly that (identifier, name, sizes, cipher, mode, digest, parameter set), accepts every key size it lists and computes the same however it was made; an identifier without an implementation, a value that is none, and parameters of another scheme are refused with the library's exception. An error keeps its origin, message, code and kind, whatever it is caught as.",
 ["inputs", "configurations"], "all identifiers of all enumerations, all 256 values, near misses of every name; all factories with all combinations of cipher, mode, digest and parameters",
 "The tests name a few common primitives directly; a name shared by two identifiers, a factory branch that builds a neighbour, or a parameter set accepted by the wrong scheme is in no test.",
 ["CEX/BlockCiphers.cpp", "CEX/Digests.cpp", "CEX/Kdfs.cpp", "CEX/StreamCiphers.cpp", "CEX/AsymmetricParameters.cpp", "CEX/BlockCipherFromName.cpp", "CEX/CipherModeFromName.cpp", "CEX/AeadModeFromName.cpp", "CEX/DigestFromName.cpp", "CEX/MacFromName.cpp", "CEX/KdfFromName.cpp", "CEX/StreamCipherFromName.cpp", "CEX/DrbgFromName.cpp", "CEX/PrngFromName.cpp", "CEX/AsymmetricCipherFromName.cpp", "CEX/AsymmetricSignerFromName.cpp", "CEX/CryptoException.cpp"],
 [("ToName / FromName", "CEX/*Convert in the enumerations' files"), ("GetInstance", "CEX/*FromName.cpp"), ("Enumeral / Name / LegalKeySizes", "CEX/*.cpp"), ("Location, Origin, Message, ErrorCode", "CEX/Crypto*Exception.cpp")],
 ["identifiers and names of made objects, their sizes and outputs; refusals; what an exception says"],
 "runtime monitoring: a consistency monitor over all identifiers and factories, with hostile values and names, under AddressSanitizer and UBSan",
 "All identifiers and factory combinations are enumerated; names are altered at random; contents of the objects are compared with their siblings, and with reference models by the other properties.")

prop("P17", "A refused call has no effect",
 "A call whose arguments or timing the library refuses - keys, nonces and associated data of the wrong size or kind, arrays that cannot hold the result, ranges outside an array, requests above a limit, use before initialisation, impossible settings, a primitive that does not exist - raises one of the library's own exceptions and changes nothing. The output arrays are as they were, the instance goes on exactly as if the call had never been made, and a constructor that refuses leaves the objects handed to it with the caller and loses no memory.",
 ["histories", "inputs"], "all primitives, containers, streams and processors; all positions of refused calls in a history; all refusable arguments",
 "The tests check that some bad arguments throw, on fresh objects; what the object is worth afterwards, in the middle of a message, is never looked at.",
 ["CEX/CTR.cpp", "CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/RCS.cpp", "CEX/HMAC.cpp", "CEX/CMAC.cpp", "CEX/GMAC.cpp", "CEX/KMAC.cpp", "CEX/HKDF.cpp", "CEX/BCG.cpp", "CEX/CSG.cpp", "CEX/HCG.cpp", "CEX/SHA2256.cpp", "CEX/Kyber.cpp", "CEX/Dilithium.cpp", "CEX/CipherStream.cpp", "CEX/MemoryStream.cpp"],
 [("checks before the first change of state", "every Initialize, Generate, Update, Finalize and Transform"), ("ownership of objects passed to constructors", "CEX/ECDH.h, CEX/GCM.cpp, CEX/HKDF.cpp, ...")],
 ["results of every call of a history with and without refused calls in it; output arrays; heap blocks left"],
 "runtime monitoring: every seeded history runs twice, with and without refused calls in between, and a monitor compares all that is observable; a heap monitor for refused constructors; AddressSanitizer and UBSan",
 "Seeded histories of up to a dozen calls. Only refusals that exist in the release build are provoked (the library's assertions are compiled out). A rejected forgery is P03's.")

prop("P28", "Nothing is leaked, and exhausted memory only ever ends in an exception",
 "Every primitive, key container, stream, processor and generator gives back all the memory it took when it is destroyed. Whichever single request for memory or for entropy fails during construction, use or destruction, the call ends in an exception: no memory is lost or given back twice, what the caller owns stays intact, and a call that returns all the same returns the right result.",
 ["fault_sequences", "inputs"], "all primitives; every n-th request for memory, or for entropy, failing in their construction, use and destruction",
 "No test looks at memory after use, and none can make the n-th allocation fail; a wrong result after a swallowed failure would have to be compared with a run that did not fail.",
 ["CEX/ECDH.cpp", "CEX/ECDSA.cpp", "CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/CMAC.cpp", "CEX/GMAC.cpp", "CEX/HMAC.cpp", "CEX/BCR.cpp", "CEX/SecureRandom.cpp", "CEX/SymmetricSecureKey.cpp", "CEX/SystemTools.cpp", "CEX/XmssUtils.cpp", "CEX/AsymmetricKeyPair.cpp"],
 [("constructors owning several members, ownership of objects passed in", "CEX/*.cpp"), ("handlers that swallow exceptions", "CEX/SystemTools.cpp"), ("failure of the entropy source", "CEX/BCR.cpp, CEX/CSR.cpp, CEX/HCR.cpp")],
 ["heap blocks alive after each piece of work; outcome and result with the n-th request failing"],
 "runtime monitoring: a live-block monitor on the allocator's hooks, injected allocation failures, and AddressSanitizer for double and early releases",
 "Seeded exploration of primitive, parameters and failing request; SPHINCS+ and McEliece only in the thorough tier. Memory made on first use and kept for the process is not a leak.", level="fault_enumeration")

prop("P27", "Work on secrets takes one path and touches one set of addresses",
 "For messages and ciphertexts of one length, neither the branches taken nor the memory addresses touched depend on keys, messages, private keys or what is encapsulated: block ciphers in every mode, stream and authenticated ciphers, digests, MACs, key derivation and deterministic generators, elliptic curve agreement and signing, lattice and code based decapsulation. Nor does the refusal of a forged authentication code, padding or ciphertext show where it is wrong, and the helpers for constant-time comparison, selection and moving keep that promise for all arguments. Exempt are the addresses inside the wide-block stream cipher and the block-cipher generator, which use tables by design, carries of block counters, and algorithms that draw again until a value fits.",
 ["inputs"], "all secrets of one length beside the same public data; all positions and numbers of wrong bytes in a forgery",
 "A test sees results only: a comparison that stops at the first difference, a branch on a key bit or a lookup indexed by a secret gives the right result in every test and leaks the secret through time.",
 ["CEX/IntegerTools.h", "CEX/MemoryTools.h", "CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/RCS.cpp", "CEX/TSX512.cpp", "CEX/Poly1305.cpp", "CEX/CMUL.cpp", "CEX/EC25519.cpp", "CEX/ECDSABase.cpp", "CEX/KyberBase.h", "CEX/KyberPolyMath.cpp", "CEX/MPKCN4608T96.cpp", "CEX/PKCS7.cpp", "CEX/ESP.cpp", "CEX/X923.cpp", "CEX/ZeroOne.cpp", "CEX/AHX.cpp", "CEX/SHX.cpp"],
 [("Compare, Verify, CMov, Select and the masks", "CEX/IntegerTools.h"), ("Verify of the authenticated ciphers", "CEX/GCM.cpp, CEX/HBA.cpp, CEX/RCS.cpp, CEX/TSX*.cpp, CEX/CSX512.cpp"), ("scalar multiplication", "CEX/EC25519.cpp"), ("re-encryption check, implicit rejection", "CEX/KyberBase.h"), ("GetBlockLength", "CEX/PKCS7.cpp, CEX/ESP.cpp, CEX/X923.cpp, CEX/ZeroOne.cpp")],
 ["every edge of the control flow, every address loaded from or stored to, how far a library comparison got"],
 "runtime monitoring: compiler-inserted callbacks record edges and addresses; an online monitor compares the trace of each run with that of a run from the same process state that differs in a secret alone",
 "Traces are those of the code clang generates at -O1 before its back end, without what processor instructions do inside; two to eight secrets are compared per case. McEliece key generation, Kyber matrix sampling on public seeds and the rejection loops of the signature schemes are left out.")

prop("P29", "Every build of the library computes the same",
 "Built for processors without AVX2 or without any vector instructions, with OpenMP in place of standard threads, or with its own assertions enabled, the library computes the same ciphertexts, digests, codes, keys, random streams and shared secrets as the standard build. It also opens, verifies and refuses the same, at every length and position and with every degree of parallelism, stays free of memory errors and undefined behaviour, and runs every task of a parallel loop exactly once and passes its exceptions on.",
 ["configurations", "inputs"], "all documented build settings; in each, all inputs the corresponding properties quantify over",
 "The repository builds and tests one configuration; what stands behind the other branch of every conditional is compiled by users alone.",
 ["CEX/CexConfig.h", "CEX/MemoryTools.h", "CEX/ParallelTools.cpp", "CEX/CTR.cpp", "CEX/ICM.cpp", "CEX/ECB.cpp", "CEX/CBC.cpp", "CEX/RHX.cpp", "CEX/SHX.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/CSX512.cpp", "CEX/TSX256.cpp", "CEX/TSX512.cpp", "CEX/TSX1024.cpp", "CEX/ChaChaP20.cpp", "CEX/BCG.cpp", "CEX/CSG.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/KPA.cpp", "CEX/GHASH.cpp", "CEX/SHA2256.cpp", "CEX/Skein512.cpp", "CEX/KyberBase.cpp", "CEX/DLTMBase.h"],
 [("which instructions are used", "CEX/CexConfig.h"), ("element-wise forms of the 128 to 512 bit helpers", "CEX/MemoryTools.h"), ("ParallelFor with OpenMP", "CEX/ParallelTools.cpp"), ("the narrow block loops", "CEX/CTR.cpp, CEX/RCS.cpp, CEX/CSX512.cpp, CEX/TSX512.cpp"), ("CEXASSERT", "CEX/CexDomain.h")],
 ["every result of these builds beside reference models; tasks run by each parallel loop"],
 "runtime monitoring: the library rebuilt in each configuration with AddressSanitizer and UBSan, its results compared online with reference models",
 "Quick: no vector instructions, OpenMP, assertions; thorough adds AVX without AVX2 and the slower schemes. The AVX-512 build does not compile and is left out. Instructions the compiler itself chooses are not restricted, so this judges the library's code, not its running on an old processor. Calls made against an assertion's stated precondition are left out of the build with assertions.")

prop("P30", "Hash tree parameters say what they hold, and the digest follows them",
 "Parameters of a tree hash written to bytes and read back are the same parameters; two sets are equal exactly when no field differs, a copy is independent of its original, and an array too short for what it describes is refused without being read past its end. A digest made from parameters computes the tree they describe - all fields, fan-out and distribution code included - whatever the number of processors, on every use and after every reset, and leaves the caller's parameters as they were. Parameters that do not fit the digest (another output size, no lane, more than 64) are refused.",
 ["inputs"], "all values of all parameter fields; all serialised arrays; all messages and call patterns of digests made from them",
 "No test reads parameters back or makes a digest from any but the defaults, so a field written to the wrong place, left out of the comparison or ignored by the digest is seen by nobody.",
 ["CEX/SkeinParams.cpp", "CEX/BlakeParams.cpp", "CEX/SHA2Params.cpp", "CEX/KeccakParams.cpp", "CEX/Skein256.cpp", "CEX/Skein512.cpp", "CEX/Skein1024.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/SHA2256.cpp", "CEX/SHA2512.cpp", "CEX/SHA3256.cpp", "CEX/SHA3512.cpp"],
 [("ToBytes, the constructors from bytes, Equals, Clone", "CEX/SkeinParams.cpp, CEX/BlakeParams.cpp, CEX/SHA2Params.cpp, CEX/KeccakParams.cpp"), ("constructors from parameters, Initialize and LoadState", "CEX/Skein512.cpp, CEX/Blake512.cpp, CEX/SHA2256.cpp, CEX/SHA3256.cpp")],
 ["serialised parameters, fields and refusals beside a table of fields; digests beside reference trees given the same parameters"],
 "runtime monitoring: differential monitor against a field table and reference tree hashes, under AddressSanitizer and UBSan",
 "Seeded exploration; even fan-outs only, as the documentation asks.")

prop("P31", "What an instance says of itself is what it does",
 "After every step of any history of keys accepted and refused, directions, resets, results and parallel settings, an instance names the algorithm, direction and sizes it then really uses: what it processes in the direction it names is undone by the opposite one, its codes, signatures, ciphertexts and keys have the size it announces, and its parallel settings are those it was last told. A new instance is not ready, a key accepted makes it ready, one that says it is ready serves the next valid call, and a message authentication code, key derivation function, random generator, authenticated mode or signer that says it is not ready refuses every call. Every key size it lists is accepted, a key below the smallest it names is refused and changes nothing it says, block and stream ciphers refuse key sizes they do not list, and a random generator serves requests exactly up to the largest it names.",
 ["inputs", "histories"], "all algorithms; all histories of keying, refusal, processing, reset and settings; all key and request sizes",
 "Tests ask an instance for its state and sizes at most once, right after the usual set-up; callers size their buffers and choose their calls by these answers at every other moment too.",
 ["CEX/ICipherMode.h", "CEX/IAeadMode.h", "CEX/IStreamCipher.h", "CEX/IBlockCipher.h", "CEX/MacBase.cpp", "CEX/KdfBase.cpp", "CEX/DrbgBase.cpp", "CEX/IAsymmetricSigner.h", "CEX/IAsymmetricCipher.h", "CEX/HKDF.cpp"],
 [("IsInitialized, IsEncryption, IsSigner, TagSize, LegalKeySizes, MinimumKeySize, MaxRequestSize, ParallelProfile", "CEX/CTR.cpp, CEX/GCM.cpp, CEX/RCS.cpp, CEX/HMAC.cpp, CEX/HKDF.cpp, CEX/HCG.cpp, CEX/Kyber.cpp, CEX/Dilithium.cpp")],
 ["the answers of every accessor after every step of a history, beside the outcome and output sizes of the call that follows"],
 "runtime monitoring: history monitor comparing announced state with observed behaviour, under AddressSanitizer and UBSan",
 "Seeded exploration; calls on an unkeyed block mode, stream cipher or asymmetric cipher are a precondition of the library and are not made.")

prop("P26", "Addresses read back as themselves, events reach handlers, sockets deliver",
 "Every internet address survives copying, moving, comparison and being written as text; its standard texts read as the same octets, and numeric hosts and services resolve to themselves. Raising an event calls exactly the handlers registered at that moment, once each, in the order they were added and with the values raised - from any thread, on copies, and while handlers come and go. A blocking connection reaches only the address bound, delivers exactly the bytes or datagrams sent, in order, names both ends truthfully, announces each connection, transfer and end exactly once, and leaves no descriptor behind when it is refused or shut down.",
 ["inputs", "histories", "schedules"], "all addresses and their spellings; all histories and interleavings of adding, removing, copying and raising; all sequences of sends and receives on connections over the loopback interface",
 "The repository has no test of these parts at all; a lost last byte, a handler called twice or an address group read at the wrong place is seen only by whoever uses them.",
 ["CEX/InternetAddress.h", "CEX/EventHandler.h", "CEX/Socket.cpp", "CEX/SocketBase.cpp", "CEX/SocketClient.cpp", "CEX/SocketServer.cpp", "CEX/NetworkTools.cpp"],
 [("FromString, ToString, assignment", "CEX/InternetAddress.h"), ("add, remove, call", "CEX/EventHandler.h"), ("Bind, Connect, Accept, Send, Receive, ShutDown", "CEX/SocketBase.cpp"), ("Connect, Send, Receive and their events", "CEX/SocketClient.cpp"), ("Listen", "CEX/SocketServer.cpp"), ("GetIPv4Info, GetIPv6Info, GetPeerName, PortNameToNumber", "CEX/NetworkTools.cpp")],
 ["octets and texts beside the system's own conversions; order and values of handler calls; bytes sent and received; names, events and open descriptors"],
 "runtime monitoring: model of event histories, conservation monitor over real loopback connections, a descriptor count, the system's address conversions as oracle, under AddressSanitizer, UBSan and ThreadSanitizer",
 "Runs natively, so Winsock is represented by POSIX sockets behind the shim. The asynchronous calls of client and server (detached threads, an accept loop without an end) are left out. Without a working loopback interface the socket part is skipped.")
