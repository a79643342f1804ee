# One entry per property; meta.py turns it into properties.jsonl and MANIFEST.json.
AEADF = ["CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/ChaChaP20.cpp", "CEX/CSX512.cpp", "CEX/TSX256.cpp", "CEX/TSX512.cpp",
         "CEX/TSX1024.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp"]
SA = "the verdict is over all paths of the unoptimised IR of the current tree; "

prop("C01", "Authenticated decryption releases nothing unverified",
     "Every authenticated cipher (the AEAD block modes and the authenticated stream ciphers), when decrypting, writes nothing to the caller's output array before the whole "
     "authentication code stored after the cipher-text has been compared, over its full length, with the code computed for this message. "
     "When the comparison fails it throws an authentication failure and leaves the output untouched, and no decryption returns normally without a successful comparison.",
     ["inputs", "histories"], "all keys, nonces, messages, tags, lengths and call histories of every authenticated cipher",
     "Tests flip a few tag bytes of a few messages; they cannot show that every path through every cipher compares every byte of the tag before writing.",
     AEADF, ["the decrypting branch of each Transform: finalize the MAC, IntegerTools::Compare over TagSize bytes at InOffset+Length, throw CryptoAuthenticationFailure, then decrypt"],
     "path-sensitive effect-order analysis over LLVM IR",
     SA + "assumes const references are not written through; the comparison helper itself is decided by C02.")

prop("C02", "Secret-dependent kernels are branch-free and compare in full",
     "The helpers that handle secrets - the constant-time comparers, masks and conditional moves, the cipher and hash permutations advertised as timing neutral, and the key "
     "generation, decapsulation and signing kernels of the lattice and code based schemes - never let a secret value decide a branch, a memory address or a division. "
     "The comparer used on authentication codes visits every byte of the compared range and reports equality only if all bytes are equal. "
     "A computed authentication code is never compared by a comparison that stops at the first difference.",
     ["inputs"], "all secret values and lengths, for every kernel named in the check",
     "Timing behaviour and early exits are invisible to known-answer tests: a comparison that stops early returns the same results on them.",
     ["CEX/IntegerTools.h", "CEX/MemoryTools.h", "CEX/Keccak.cpp", "CEX/ChaCha.h", "CEX/KyberBase.cpp", "CEX/MPKCN4608T96.cpp"],
     ["IntegerTools::Compare / Verify / ConstantTime helpers accumulate with OR of XOR", "Kyber and McEliece decapsulation select the session key by mask"],
     "secret-taint analysis over LLVM SSA",
     SA + "trusts the compiler to keep mask arithmetic branch-free and single instructions to be data independent; the list of permitted declassifications (rejection sampling, public seeds) is in the check.")

prop("C03", "Authentication covers nonce, data and cipher-text in full",
     "Every authenticated cipher feeds its authenticator the message nonce, the caller's associated data, exactly the cipher-text of the message (never the plain-text, never part of it) "
     "and the running byte count after it was advanced by this message's length, in the same order when encrypting and decrypting. "
     "Encryption then stores the complete code directly after the cipher-text.",
     ["inputs", "histories"], "all keys, nonces, associated data, offsets, lengths and message sequences of every authenticated cipher",
     "A cipher that authenticates the wrong bytes in both directions still round-trips; tests compare few vectors and few lengths.",
     AEADF, ["each Transform's calls of the MAC's Update/Compute and Finalize; SetAssociatedData"],
     "path-sensitive call-sequence analysis over LLVM IR",
     SA + "assumes the inner cipher writes all Length bytes; GCM/HBA/stream variants without a terminator are checked for the items their format defines.")

prop("C04", "Uninitialized or wrongly keyed objects refuse to work",
     "A MAC, key derivation function, random bit generator, authenticated block mode or signature scheme that has not been initialized (or was reset, or destroyed its key) throws a library exception from "
     "every function that would produce output or absorb data, before it writes anything to the caller's arrays. "
     "A signature scheme loaded with a public key refuses to sign and one loaded with a private key refuses to verify.",
     ["histories", "inputs"], "all call histories that leave the object uninitialized or initialized for the other direction, for every implementing class",
     "Tests exercise the guard of a few classes; the property ranges over every overload of every class.",
     ["CEX/IMac.h", "CEX/IKdf.h", "CEX/IDrbg.h", "CEX/IAeadMode.h", "CEX/IAsymmetricSigner.h", "CEX/HMAC.cpp", "CEX/GCM.cpp", "CEX/Dilithium.cpp"],
     ["if (!IsInitialized()) throw ... at the head of Generate, Finalize, Update, Sign, Verify, Transform"],
     "path-sensitive typestate analysis over LLVM IR",
     SA + "block and stream cipher Transform functions are outside it by design: they rely on debug asserts, see DESIGN.md.")

prop("C05", "Range-filling functions never write past the caller's range",
     "Every random generator, key derivation, digest and MAC function that fills a range of a caller's container checks that the container can hold the requested bytes from the given offset, "
     "and throws before writing anything if it can not. "
     "Inside the library, a temporary that is filled through such a function is filled over a range that lies within its allocated size.",
     ["inputs"], "all container sizes, offsets inside the container and lengths",
     "Tests pass correctly sized arrays; an off-by-one or missing check only shows on inputs nobody writes in a test.",
     ["CEX/BCG.cpp", "CEX/CSG.cpp", "CEX/HCG.cpp", "CEX/HKDF.cpp", "CEX/HMAC.cpp", "CEX/CSR.cpp", "CEX/SHA2512.cpp"],
     ["Output.size() - OutOffset < Length and Output.size() - OutOffset < DigestSize()/TagSize() checks"],
     "path-sensitive guard-dominance analysis over LLVM IR",
     SA + "assumes the offset itself lies inside the container.")

prop("C06", "Failures surface as library exceptions and are never swallowed",
     "Every exception raised by the library derives from its common exception base class, so that a caller who handles that type sees every failure. "
     "No handler inside the cryptographic code continues as if nothing had happened: it rethrows or raises another library exception, and an authentication failure stays an authentication failure.",
     ["inputs", "fault_sequences"], "all throw expressions and handlers compiled into the library, outside the socket layer and the system information collectors",
     "Tests provoke a handful of failures; whether each of some hundred handlers swallows its error can not be sampled.",
     ["CEX/CryptoException.h", "CEX/CryptoAuthenticationFailure.h", "CEX/SymmetricKey.cpp", "CEX/RCS.cpp", "CEX/Dilithium.cpp"],
     ["throw CryptoXxxException(...)", "catch (CryptoAuthenticationFailure) ... throw"],
     "exception-type and handler-reachability analysis over LLVM IR",
     SA + "exceptions of the standard library itself are outside the rule.")

prop("C07", "A failed entropy source never yields output",
     "Every Generate function of every entropy provider throws, and writes nothing to the caller's array, when the provider is unavailable or when the continuous self test fails; it never turns an exception into a "
     "normal return. The self test judges a sample that the provider's own source filled completely; it fails for a sample equal to the previous one and keeps the new one for the next comparison. "
     "The raw sources (CryptGenRandom, rdrand/rdseed, timing jitter) return only after the whole requested length was filled with bytes of calls that reported success: a failed system call or an instruction that "
     "did not report success contributes no byte, every group of jitter bytes follows a collection of at least 64 times the oversampling rate measurements whose first, second and third time differences "
     "are not zero, and a timer that returned zero or did not move while it was tested fails the timer test.",
     ["inputs", "fault_sequences", "histories"], "all lengths and outcomes of the system and hardware calls, for all five providers and every overload",
     "The sources do not fail on a healthy machine, so no test takes any of these branches.",
     ["CEX/CSP.cpp", "CEX/RDP.cpp", "CEX/CJP.cpp", "CEX/ECP.cpp", "CEX/ACP.cpp", "CEX/ProviderSelfTest.cpp"],
     ["IsAvailable() and FipsTest() gates of each Generate; RDP::Generate retry loop; CJP::TimerCheck, StuckCheck and Generate; CSP::Generate CryptGenRandom"],
     "path-sensitive typestate analysis and loop-inductive dataflow over LLVM IR",
     SA + "assumes system calls and instructions report their own failures; the code built for this platform (Windows API, x86-64) is what is analysed.")

prop("C08", "Random seeds, keys and nonces are completely filled before they are used",
     "Each key generation of the asymmetric ciphers and signature schemes, each key encapsulation except ECDH's (static) one, and each reset of a prng draws random bytes on every path it returns from normally. "
     "In every function that draws bytes from a prng or an entropy provider (key generation, encapsulation, signing, prng and provider resets, key generator, entropy pool), a byte array the function creates is read, "
     "hashed, encoded or handed on as key, nonce or seed only in the range that has been written by then; a part filled with random bytes reaches the end of its array or the start of the next written part; "
     "and the private and public key arrays handed to a key container are written up to their last byte.",
     ["inputs", "configurations"], "all parameter sets, security levels and provider types, every path of the functions that draw random bytes and of the functions they hand arrays to",
     "A seed that is left partly zero still gives keys that work: encryption, signing and every known-answer test pass, only the strength is gone.",
     ["CEX/KyberBase.h", "CEX/DLTMBase.h", "CEX/SPXBase.h", "CEX/XmssCore.cpp", "CEX/ECDSA.cpp", "CEX/ECDH.cpp", "CEX/MPKCN6688T128.cpp", "CEX/BCR.cpp", "CEX/CSR.cpp", "CEX/HCR.cpp", "CEX/ACP.cpp", "CEX/ECP.cpp",
      "CEX/SymmetricKeyGenerator.cpp"],
     ["Rng->Generate / Fill, m_rndGenerator->Generate and pvd->Generate call sites and the arrays they fill"],
     "path-sensitive array-region dataflow over LLVM IR",
     SA + "a callee given a non-const array and an offset is taken to fill it from there; loop bodies are judged for one arbitrary turn; arrays filled inside loops element by element count as written where the loop writes.")

prop("C09", "Secrets are erased before their memory is released",
     "The destructor of every cipher, digest, MAC, key derivation, random generator and key object clears, over its full size in bytes, each container and array member that can hold state derived "
     "from secrets, before that memory is released; members of secure container types are erased by their allocator instead, over the whole block, before it is returned to the heap. "
     "The clear and erase helpers set every byte of exactly the range they are given, through a form the compiler can not drop.",
     ["histories"], "all state-holding classes and all of their container members, for every history of the object",
     "What freed memory contains is not observable through the interface; a missing or short clear changes no result any test can see.",
     ["CEX/SecureVector.h", "CEX/SecureMemory.cpp", "CEX/MemoryTools.h", "CEX/ChaChaP20.cpp", "CEX/SHA2512.cpp", "CEX/RHX.cpp", "CEX/KPA.cpp"],
     ["SecureAllocator::deallocate erases, then frees", "State::~State / Reset calls MemoryTools::Clear(member, 0, size * sizeof(element))"],
     "destructor effect analysis over class layouts and LLVM IR",
     SA + "temporaries on the stack and copies in registers are outside it; members that hold only public parameters are listed in the check.")

prop("C20", "Failed decapsulation never yields the genuine session key",
     "Decapsulation of every key encapsulation scheme compares, over its full length, what it re-computed from the decrypted message with what it received, combines that with every other failure "
     "verdict, and, before the session key is derived, replaces the key material by the private rejection value under the combined verdict. "
     "The result is true exactly when no difference was found, and when the core reports failure the interface returns false and leaves the caller's shared secret untouched.",
     ["inputs"], "all cipher-texts, genuine or manipulated, and all key pairs, for every parameter set of Kyber and McEliece",
     "A test manipulates a few bytes; a comparison that skips some bytes or a verdict that is ignored only shows on cipher-texts crafted for it.",
     ["CEX/Kyber.cpp", "CEX/McEliece.cpp", "CEX/KyberBase.cpp", "CEX/MPKCN4608T96.cpp", "CEX/MPKCN8192T128.cpp"],
     ["fail = Verify(ct, cmp, size); Cmov(kr, z, fail); XOF(ss, kr)", "m = ret_decrypt | ret_confirm mask selection"],
     "path-sensitive verdict and dependence analysis over LLVM IR",
     SA + "the algebra of the schemes (what is re-computed) is not decided, and the selection primitives are decided by C02.")

prop("C21", "A signature is accepted only after a full successful comparison",
     "Verify of every signature scheme returns true only on a path on which a full-length comparison of the value recomputed from public key and message with the value carried in the signature (or the public key) "
     "succeeded; a path on which that comparison failed returns false or throws. "
     "Before sizes are derived from the signature's length by subtraction, a signature shorter than the scheme's signature size is refused.",
     ["inputs"], "all signatures, messages and public keys of every signature scheme",
     "Forgeries that satisfy a weakened comparison have to be constructed; random corruption in a test does not hit them.",
     ["CEX/Dilithium.cpp", "CEX/DLTMPolyMath.cpp", "CEX/SphincsPlus.cpp", "CEX/SPXBase.h", "CEX/ECDSABase.cpp", "CEX/XMSS.cpp", "CEX/XmssCore.cpp"],
     ["IntegerTools::Verify / Compare of the recomputed challenge, root or point", "if (Signature.size() < SIGNATURE_SIZE) ..."],
     "path-sensitive verdict analysis over LLVM IR",
     SA + "that the recomputed values are the right ones (the algebra of the schemes) is not decided.")

prop("C12", "Names, enumerals and factories identify one algorithm each",
     "For every enumeration with name converters, each member's name converts back to that member, and unknown names convert to None. Every factory, for every combination of enumerators, either throws or "
     "returns a new object that is configured for, and reports through Enumeral(), the algorithm that was asked for, never null and never another one. Block and digest size tables agree with the objects, "
     "a key container's security policy selects a cipher and a key derivation function of that policy's strength, and enumerations that are converted into each other give equally named members equal values.",
     ["inputs"], "all members of all enumerations and all combinations of factory arguments",
     "Tests instantiate a few members; a swapped pair or a fall-through case among seven hundred combinations stays unnoticed, because both algorithms work.",
     ["CEX/StreamCipherFromName.cpp", "CEX/PrngFromName.cpp", "CEX/KdfFromName.cpp", "CEX/SymmetricCiphers.cpp", "CEX/AsymmetricParameters.cpp", "CEX/AsymmetricSecureKey.cpp", "CEX/DigestFromName.cpp"],
     ["XxxFromName::GetInstance switch tables", "XxxConvert::ToName / FromName tables", "GetStreamCipher(SecurityPolicy)"],
     "exhaustive abstract interpretation of dispatch tables over LLVM IR",
     SA + "hardware providers may fall back to the entropy collector, and RCS/RWS choose their authenticator at initialization; the name strings of objects are not decided.")


prop("C14", "Serialized keys, states and parameters read back unchanged",
     "For the symmetric and asymmetric key containers, the serializable cipher states (RCS, RWS, CSX512, ChaChaP20), the tree parameter sets and SymmetricKeySize, the bytes written by "
     "Serialize/ToBytes hold every data member once, in full width, without gaps or overlap and inside the allocated array, and the matching reader takes each item from the same offset with the same length "
     "and byte order into the member or constructor argument it came from, for every combination of member lengths. "
     "A reader tests the length of its input before it reads from it and throws when it is too short.",
     ["inputs"], "all member values and lengths (below 64 KiB where a 16-bit prefix is used) of every serializable class, and all inputs of the readers",
     "A swapped pair of equally sized members, or a prefix of the wrong width, survives tests that serialize one object whose members have equal or default values.",
     ["CEX/SymmetricKey.cpp", "CEX/SymmetricSecureKey.cpp", "CEX/AsymmetricKey.cpp", "CEX/AsymmetricSecureKey.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/CSX512.cpp",
      "CEX/ChaChaP20.cpp", "CEX/BlakeParams.cpp", "CEX/KeccakParams.cpp", "CEX/SHA2Params.cpp", "CEX/SkeinParams.cpp", "CEX/SymmetricKeySize.cpp"],
     ["Serialize / DeSerialize and ToBytes / byte array constructor pairs"],
     "symbolic layout inference of writer and reader over LLVM IR, compared item by item",
     SA + "the state readers' missing length tests are listed as known findings.")

prop("C17", "The shared memory, byte-order and mask helpers do exactly what they are named",
     "Every cipher, digest, MAC and generator moves its data through MemoryTools and IntegerTools. For every data value, offset and length: Copy, Move, CopyRaw, the object and value copies, XOR, AND, OR (and the Partial, Raw and fixed-width variants), "
     "Clear, SetValue and XorPad give each byte of [OutOffset, OutOffset + Length) the value the name asks for and change no other byte, also when input and output are the same range and whatever the element width; "
     "the big and little endian conversions of words and blocks are exact in both directions and overwrite their destination; rotations turn by the count given; Compare and Verify report equality of the whole ranges and nothing else; "
     "the constant-time masks, selections, minima, maxima and conditional moves return what their plain definitions return; Increment adds one modulo the size of the counter.",
     ["inputs"], "all data values and offsets; every length up to 69 bytes and selected longer ones up to 200; every instantiation the library uses, and one of each header-only template",
     "A helper that drops a tail byte, keeps an old value or mixes byte and element counts is wrong only for the lengths and element widths the tests do not use, and damages every primitive above it.",
     ["CEX/MemoryTools.h", "CEX/IntegerTools.h"],
     ["MemoryTools::*", "IntegerTools::*ToBytes*/BytesTo*/Block*", "IntegerTools::Rot*", "IntegerTools::Compare/Verify/Is*/Select/CMov", "IntegerTools::*Increment*"],
     "exact bit-level dataflow over LLVM IR (every output bit a canonical boolean function of the input bits, positions symbolic), compared with the definition of each helper",
     SA + "sizes and positions are assumed not to wrap and ranges to lie in their arrays; lengths are enumerated.")

prop("C18", "Random values are uniform and no random byte is given out twice",
     "Each bounded random function (NextInt16/32/64 and NextUInt16/32/64 with a maximum, and with a minimum) returns its minimum plus a fresh sample reduced modulo the number of values in the range, "
     "and only of a sample that lies between zero and a multiple of that number, so that every value of the range is equally likely; a rejected sample is never returned. "
     "Each unbounded one, of SecureRandom, the generators and the providers, converts a newly and completely generated array exactly as wide as its result. "
     "The buffered generators (SecureRandom, BCR, CSR, HCR) deliver only bytes of their buffer that were not delivered before, refill the whole buffer before reusing it, leave their position behind "
     "the last byte delivered, and fill the caller's whole range.",
     ["inputs", "histories"], "all ranges whose size fits the type, all requested lengths, offsets and buffer positions",
     "A biased or repeating generator still passes statistical smoke tests: the bias of one rejected residue class, or one buffer reused at a boundary, is invisible in a sample.",
     ["CEX/SecureRandom.cpp", "CEX/PrngBase.cpp", "CEX/ProviderBase.cpp", "CEX/BCR.cpp", "CEX/CSR.cpp", "CEX/HCR.cpp"],
     ["SecureRandom::NextInt32(Maximum, Minimum) and siblings", "SecureRandom::Generate, BCR::Generate: Buffer and Position"],
     "symbolic path enumeration over LLVM IR with linear arithmetic",
     SA + "assumes the generator's own output is uniform; ranges of the type's full width are outside it (their size does not fit the type).")

prop("C15", "Parallel sections are race-free, complete and lose no failure",
     "Wherever the library divides work among ParallelFor workers (the ECB, CBC, CFB, CTR and ICM modes, the stream ciphers, BCG and the tree hashes), each worker writes only memory it allocated itself, "
     "its own element of a state array, or its own output segment, which starts at the worker's index times the length it processes; anything else is written by exactly one worker and used by no other. "
     "The segments are equal shares of the work for the number of workers started, each worker's counter starts as many blocks ahead as the segments before its own hold, the last worker's final counter becomes "
     "the object's counter, and the work left over is processed directly behind the last segment. "
     "ParallelFor runs the function once for every index, waits for all workers and passes a worker's exception on to the caller.",
     ["schedules", "inputs"], "all interleavings of the workers, all worker counts, block sizes, offsets and lengths",
     "A race or a misplaced remainder shows only under particular schedules, core counts and offsets; the tests run one machine's profile with offset zero.",
     ["CEX/ParallelTools.cpp", "CEX/CTR.cpp", "CEX/ICM.cpp", "CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/ECB.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/CSX512.cpp", "CEX/ChaChaP20.cpp", "CEX/TSX256.cpp",
      "CEX/BCG.cpp", "CEX/SHA2256.cpp", "CEX/Blake256.cpp", "CEX/Skein512.cpp"],
     ["ParallelTools::ParallelFor", "CTR::ProcessParallel", "SHA2256::Update"],
     "interprocedural effect analysis over LLVM IR with symbolic segment arithmetic",
     SA + "assumes input and output arrays do not overlap, the allocator is thread safe, and (C05) that a function given a range writes only that range.")

prop("C22", "No key-stream counter value is used for two blocks",
     "In the counter-mode generators (CTR, ICM, the key streams of CSX512, ChaChaP20, TSX256, TSX512, TSX1024, RCS and RWS, and the BCG generator) and in the output loops of KDF2 and PBKDF2, the counter values given to "
     "the block function are consecutive, one value for each block of output including a partial last block: each is incremented exactly once between two uses and again after the last one, a wide call's lanes "
     "hold consecutive values in ascending order with the words of a lane from the same value, and the loops advance the output by one block per value. "
     "The counter that is advanced is the one kept in the object's state, or a parallel worker's own copy that was moved ahead in the same byte order the generator increments in. "
     "IntegerTools' increment and increase functions (BeIncrement8, BeIncrease8, LeIncrement, LeIncrease8, LeIncrementW, LeIncreaseW) add with carry over the whole counter, also when input and output are the same array.",
     ["inputs", "histories"], "all lengths, call histories, counter values and addends (all byte values and carries of one digit step)",
     "A counter reused after a partial block, in one lane of a wide call or after a carry into a byte of 255 repeats key stream only for particular lengths, histories and nonces that tests do not combine.",
     ["CEX/CTR.cpp", "CEX/ICM.cpp", "CEX/CSX512.cpp", "CEX/ChaChaP20.cpp", "CEX/TSX256.cpp", "CEX/TSX512.cpp", "CEX/TSX1024.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/BCG.cpp", "CEX/KDF2.cpp", "CEX/PBKDF2.cpp", "CEX/IntegerTools.h"],
     ["Generate(…, Counter, …)", "IntegerTools::BeIncrease8", "IntegerTools::LeIncreaseW"],
     "typestate of the counter over all paths of the LLVM IR; exhaustive transfer function of one digit step",
     SA + "assumes one key and nonce do not run through the counter's whole range, and that wide and single block functions agree.")

prop("C13", "Every byte of a request is produced once, from its own input byte",
     "A request for Length bytes at an offset is served in full and in place, whatever the length and however the work is cut: in the block modes (ECB, CBC, CFB, OFB, CTR, ICM, GCM, HBA), the stream ciphers (RCS, RWS, CSX512, ChaChaP20, TSX), "
     "the DRBGs (BCG, CSG, HCG) and the KDFs (HKDF, KDF2, PBKDF2, SCBKDF, SHAKE), each byte of the output range is written exactly once, in order, nothing outside it is written, and a cipher takes the input byte at the same distance from the input offset. "
     "This includes the wide loops, the partial last block, the shares of the parallel workers and what is left behind them; ParallelOptions always makes the parallel block a whole number of blocks for each worker. "
     "One block of ECB, CBC, CFB (every register size), OFB, CTR and ICM is what the mode is defined to produce, the wide and segment functions agree with it, and the register left is the one the next block, or the next parallel section, continues from.",
     ["inputs", "histories"], "all lengths, offsets, numbers of workers and parallel block sizes; all register sizes of CFB",
     "A wrong offset, share or remainder shows only for lengths that meet a particular mix of wide loop, parallel section and remainder, and with a worker count tests do not vary.",
     ["CEX/CTR.cpp", "CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/ECB.cpp", "CEX/OFB.cpp", "CEX/ICM.cpp", "CEX/RCS.cpp", "CEX/RWS.cpp", "CEX/CSX512.cpp", "CEX/ChaChaP20.cpp", "CEX/TSX1024.cpp", "CEX/BCG.cpp", "CEX/CSG.cpp", "CEX/HCG.cpp", "CEX/HKDF.cpp", "CEX/KDF2.cpp", "CEX/PBKDF2.cpp", "CEX/SCBKDF.cpp", "CEX/SHAKE.cpp", "CEX/ParallelOptions.cpp"],
     ["Transform(Input, InOffset, Output, OutOffset, Length)", "Process/ProcessParallel", "Generate", "ParallelOptions::Calculate"],
     "path-by-path interval tiling of the caller's range over LLVM IR with linear arithmetic; byte-level dataflow of one block against the mode's definition",
     SA + "assumes a block function produces one block, a wide one as many as its name says, and that sizes do not overflow.")

prop("C16", "Starting an object again leaves nothing of its earlier use",
     "After an earlier message, key, error or abandoned message, a digest's Reset and Finalize, a MAC's or KDF's Initialize and Reset, and the Initialize of a DRBG, a block cipher mode or a stream cipher leave no state of that use: "
     "every member that a processing function (Update, Finalize, Compute, Generate, Transform, EncryptBlock, DecryptBlock, SetAssociatedData) may change is given a new value over its whole extent on every path that ends normally, "
     "the new value is not made from the old one, and every buffer whose length Initialize sets on some path gets its length set on all of them (so a salt, info or customization string of the earlier key does not take part in the next). "
     "A part that only exists for one fixed configuration of the object (such as its authenticator) is started again in that configuration. Kept on purpose are settings (the parallel profile), the BCG's count of reseeds and the "
     "GCM key when only a new nonce is given.",
     ["histories", "inputs"], "all call histories of one object, all parameter combinations of the initialising call",
     "A member that keeps its value shows only when an object is used again after a particular earlier use (a longer nonce, a key with info, an abandoned message); tests start with fresh objects or repeat the same use.",
     ["CEX/SHA2256.cpp", "CEX/Keccak.cpp", "CEX/CMAC.cpp", "CEX/GMAC.cpp", "CEX/Poly1305.cpp", "CEX/KDF2.cpp", "CEX/HKDF.cpp", "CEX/SHAKE.cpp", "CEX/BCG.cpp", "CEX/CTR.cpp", "CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/RCS.cpp", "CEX/ChaChaP20.cpp"],
     ["Reset()", "Initialize(ISymmetricKey)", "…State::Reset()"],
     "interprocedural may-write effects of the processing functions against a must-write dataflow of the initialising functions",
     SA + "assumes an object starts uninitialised with the values its constructor gives.")

prop("C10", "Every message byte is absorbed once, however the message is cut into calls",
     "The digests and MACs absorb every byte of a message exactly once and in order, however the message is cut into Update calls and however long each piece is: Update takes the bytes waiting in its buffer, then the given bytes in whole "
     "blocks, and keeps the rest behind what waits without leaving the buffer, in sequential and in tree (parallel) mode, where block i of each round belongs to leaf i; Finalize absorbs exactly the bytes that wait, behind them only its own "
     "padding and never leftovers of an earlier block, and takes every leaf's whole hash into the root; the counters of bytes grow by the bytes absorbed. Setting the parallel degree or building a tree hash from parameters sizes the states and "
     "the buffer for that degree. Compute and the overloads of Update that take one value hand on the whole input.",
     ["inputs", "histories"], "all message lengths, all divisions of a message into calls, all tree degrees",
     "A boundary error shows only for particular combinations of the waiting and the given length (in tree mode beyond several buffers); known answer tests use a few lengths, mostly in one call.",
     ["CEX/SHA2256.cpp", "CEX/SHA2512.cpp", "CEX/SHA3256.cpp", "CEX/SHA3512.cpp", "CEX/Blake256.cpp", "CEX/Blake512.cpp", "CEX/Skein256.cpp", "CEX/Skein512.cpp", "CEX/Skein1024.cpp", "CEX/GHASH.cpp", "CEX/CMAC.cpp", "CEX/GMAC.cpp", "CEX/KMAC.cpp",
      "CEX/KPA.cpp", "CEX/Poly1305.cpp"],
     ["Update(Input, InOffset, Length)", "Finalize(Output, OutOffset)", "ProcessLeaf", "ParallelMaxDegree(Degree)", "Compute(Input, Output)"],
     "path enumeration of Update with symbolic lengths, position and degree; the calls that copy and absorb become intervals that must tile the waiting and given bytes, decided by linear arithmetic; Finalize is replayed over a map of what each part of its buffers holds",
     SA + "loops over blocks are followed for up to two rounds, each checked against where the one before ended; Finalize is replayed for a tree of 4 leaves, every number of waiting whole blocks and an unknown rest; the block functions are taken to read one block; "
     "lengths do not overflow size_t; ParallelBlockSize is a multiple of the leaves' common block.")

prop("C11", "Key material is checked, read in bounds and used whole",
     "The initialising functions of the MACs, KDFs, DRBGs, block ciphers, block cipher modes and stream ciphers, and the reseeding functions of the DRBGs, check the size of a key before they use it (one of the legal sizes, or at "
     "least the minimum), never read past the end of the key, nonce (or salt) or info they are given nor copy them outside of the field that takes them, whatever sizes the caller passes, and use every byte of each part that plays a role in "
     "the construction: no part and no byte of it is silently dropped. Parts that are used up to a documented maximum are the info of CSX512 (48 bytes), the nonce of HCG (its counter) and the key of Poly1305 (32 bytes).",
     ["inputs"], "all key sets: every combination of key, nonce and info lengths",
     "Tests use the few documented sizes; a length that is accepted but not expected is read out of bounds, or its tail has no effect on the result.",
     ["CEX/CBC.cpp", "CEX/CFB.cpp", "CEX/OFB.cpp", "CEX/GCM.cpp", "CEX/HBA.cpp", "CEX/KMAC.cpp", "CEX/KPA.cpp", "CEX/Poly1305.cpp", "CEX/KDF2.cpp", "CEX/HKDF.cpp", "CEX/CSG.cpp", "CEX/BCG.cpp", "CEX/RHX.cpp", "CEX/SHX.cpp", "CEX/TSX512.cpp"],
     ["Initialize(ISymmetricKey)", "Initialize(Key, Customization, Information)", "DRBG Update(Key)"],
     "path enumeration of the initialising functions with the sizes of the parts as unknowns; every read of a part becomes an interval, decided by linear arithmetic over the path's conditions",
     SA + "element-wise loops over a part are unrolled twice and taken to be uniform; a component that is handed the whole key set is analysed on its own.")

# ---- stated, but not decidable by static analysis here
prop("N01", "Decryption recovers exactly what was encrypted",
     "For every cipher, mode, padding and authenticated scheme, decrypting what was encrypted under the same key, nonce and associated data returns the original message, for every message length and every division of the message into calls.",
     ["inputs", "histories"], "all keys, nonces, messages and call divisions",
     "The space of keys and messages can not be sampled.", ["CEX/RHX.cpp", "CEX/RCS.cpp", "CEX/GCM.cpp", "CEX/CBC.cpp", "CEX/PKCS7.cpp"], ["Transform"],
     na="functional correctness of the permutations: needs symbolic execution or proof of the arithmetic over all values, which no dataflow argument bounds")
prop("N02", "Primitives compute their published functions",
     "Each digest, MAC, cipher, key derivation function, KEM and signature scheme computes the function of its specification for every input.",
     ["inputs"], "all inputs", "Known answers sample a few points of the domain.", ["CEX/SHA2.h", "CEX/Keccak.h", "CEX/Skein.h", "CEX/Rijndael.h", "CEX/KyberBase.cpp"], ["Permute", "Transform"],
     na="equality with a mathematical specification over all values is a theorem-proving or solver task; static analysis has no oracle for the function")
prop("N03", "Wide, parallel and plain code paths give the same output",
     "For every input the SIMD (AVX, AVX2, AVX512, AES-NI), the multi-threaded and the plain code path of an algorithm give the same bytes.",
     ["inputs", "configurations"], "all inputs, CPU features and thread counts", "A build exercises one configuration; the inputs can not be enumerated.", ["CEX/ULong256.h", "CEX/ChaCha.h", "CEX/Threefish.h", "CEX/CTR.cpp"], ["Generate", "PermuteP4x512H"],
     na="value equivalence of different instruction sequences needs translation validation with a solver; what can be decided statically (segments, counters, lanes) is in C15 and C22")
prop("N04", "Key agreement and signatures are complete",
     "Decapsulation of an honestly made cipher-text returns the encapsulated key, and a signature made by Sign is accepted by Verify, for all key pairs and messages (up to the scheme's stated failure rate).",
     ["inputs"], "all key pairs, random choices and messages", "The key space can not be sampled, and failures of low probability never show.", ["CEX/KyberBase.cpp", "CEX/DilithiumBase.cpp", "CEX/SPXBase.cpp", "CEX/XmssCore.cpp"], ["Decapsulate", "Verify"],
     na="algebra of lattices, codes and hash trees over all values; no static argument in reach")
prop("N05", "Collected entropy is unpredictable",
     "The collected entropy (jitter, system state, hardware) has the min-entropy its consumers assume.",
     ["inputs", "schedules"], "all machines and loads", "Randomness of a physical source is not a property of runs.", ["CEX/CJP.cpp", "CEX/ACP.cpp", "CEX/RDP.cpp"], ["Generate"],
     na="a statement about the physical source and the operating system, not about the source code; the handling of its failures is C07")
prop("N06", "Secret-dependent timing is absent on the hardware",
     "The machine code run on a given processor takes time independent of secrets, including caches, speculation and variable-latency instructions.",
     ["inputs", "configurations"], "all secrets, all supported processors", "Timing depends on processor and optimiser.", ["CEX/Rijndael.h", "CEX/IntegerTools.h"], ["Compare"],
     na="depends on optimiser output and micro-architecture; what the source decides (branches, addresses, divisions) is C02")
prop("N07", "Socket classes survive every network fault",
     "The socket classes report each connection failure, time-out and partial transfer to their caller and never block or crash.",
     ["fault_sequences", "schedules"], "all sequences of network events", "Network faults are not produced by the tests.", ["CEX/SocketBase.cpp", "CEX/SocketServer.cpp", "CEX/NetworkTools.cpp"], ["Receive", "Send"],
     na="the behaviour is that of the Windows socket stack and its event order; half of the classes are not compiled in this build (SocketReceiver, SocketSender)")
