import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
A="crypto_aead/isapa128av20/"; AH="crypto_aead_hash/isapa128av20/"
p("C01","ISAP-A-128a encryption equals the specification (portable C)",
"For every key, nonce, associated data and message, each portable C implementation of ISAP-A-128a returns 0, sets the ciphertext length to the message length plus 16, and writes exactly the ciphertext and tag that the ISAP v2.0 specification defines for the Ascon-p instance with 12/1/6/12 rounds.",
["inputs","configurations"],"every key, nonce, AD and message content; every length up to the stated block bounds; every portable implementation directory of crypto_aead and crypto_aead_hash",
"The KAT files hold one fixed key and nonce, one fixed byte pattern, and lengths 0..32 of AD and message; every other value, and every longer input, is unseen.",
[A+"*/isap.c",A+"*/asconp.h",A+"*/crypto_aead.c",A+"ref/Ascon-reference.c",AH+"*/isap.c"],
[("re-keying, encryption and MAC of the sponge",A+"opt_64/isap.c: isap_rk, isap_mac, isap_enc"),("bit-interleaved / byte-sliced permutations",A+"bi_32/asconp.h, opt_8/asconp.h")],
["crypto_aead_encrypt: c, clen, return value"])
p("C02","ISAP-A-128, ISAP-K-128a and ISAP-K-128 encryption equals the spec",
"For every key, nonce, associated data and message, each C implementation of ISAP-A-128, ISAP-K-128a and ISAP-K-128, and the generic implementation in each of its four configurations, returns 0, sets the ciphertext length to the message length plus 16, and writes exactly the ciphertext and tag that the ISAP v2.0 specification defines for that instance.",
["inputs","configurations"],"every key, nonce, AD and message content; every length up to the stated block bounds; all portable C directories of the three instances and the four builds of isapxv20",
"The KATs fix one key and nonce and stop at 32 bytes: at most one full block plus a partial one for the 18-byte Keccak rate.",
["crypto_aead/isapa128v20/*/","crypto_aead/isapk128av20/*/","crypto_aead/isapk128v20/*/","crypto_aead/isapxv20/ref/"],
[("sponge modes with 144-bit rate","crypto_aead/isapk128av20/opt_64/isap.c"),("Ascon-p opt_32 bit interleaving","crypto_aead/isapa128v20/opt_32/isap.c"),("generic mode over a permutation library","crypto_aead/isapxv20/ref/isap.c")],
["crypto_aead_encrypt: c, clen, return value"])
p("C03","ARM assembly implementations encrypt exactly per the specification",
"For every key, nonce, associated data and message, each ARM implementation (inline assembly or assembly files, as compiled for ARM) returns 0, sets the ciphertext length to the message length plus 16, and writes exactly the ciphertext and tag that the ISAP v2.0 specification defines for its instance.",
["inputs","configurations"],"every input value; lengths up to the stated block bounds; every *_armv6, *_armv6m*, *_armv7m and *_armv67m directory, executed as ARM/Thumb-2 machine code",
"The KATs sample one key/nonce and short lengths; register allocation and assembly corner cases depend on data and on code around the asm that a KAT never varies, and the armv7m Ascon variants have no passing KAT at all.",
[A+"bi_32_armv6/asconp.h",A+"bi_32_armv6m/asconp.h",A+"bi_32_armv7m/asconp.h","crypto_aead/isapa128v20/opt_32_armv67m/","crypto_aead/isapk128av20/opt_32_armv7m/","crypto_aead/isapk128v20/opt_32_armv6m/"],
[("inline assembly Ascon-p rounds",A+"bi_32_armv7m/asconp.h"),("KeccakP-400 assembly","crypto_aead/isapk128av20/opt_32_armv7m/*.s")],
["crypto_aead_encrypt: c, clen, return value"])
p("C04","AVX-512 implementations encrypt exactly per the specification",
"For every key, nonce, associated data and message, the AVX-512 implementations of ISAP-A-128a and ISAP-K-128a return 0, set the ciphertext length to the message length plus 16, and write exactly the ciphertext and tag that the ISAP v2.0 specification defines.",
["inputs","configurations"],"every input value; lengths up to the stated block bounds; both AVX-512 directories",
"The test suite builds these implementations but never runs them (KAT_AVX512 is off), so nothing at all is tested about their output.",
[A+"avx_512/isap.c","crypto_aead/isapk128av20/avx512/isap.c"],
[("interleaved two-lane encryption and MAC",A+"avx_512/isap.c: isap_mac_enc"),("Keccak-p[400] in one 512-bit register","crypto_aead/isapk128av20/avx512")],
["crypto_aead_encrypt: c, clen, return value"])
p("C05","Decryption accepts exactly the authentic ciphertexts and recovers them",
"For every key, nonce, associated data and ciphertext of at least 16 bytes, decryption returns 0 if the last 16 bytes equal the ISAP tag of the rest under that key, nonce and associated data, and then writes exactly the plaintext of the specification and the length minus 16; if the last 16 bytes differ from that tag in any bit it returns a nonzero value. Variants with leakage-resilient tag comparison compare the images of both tags under their fixed one-way permutation of the tag and the MAC state instead of the tags.",
["inputs","configurations"],"every key, nonce, AD, ciphertext body and received tag (all 2^128 tags per body); lengths up to the stated bounds; every implementation",
"The tests only decrypt valid ciphertexts of 32 bytes or less under one key; no forged tag is ever submitted, so a comparison that ignores bytes or accepts everything passes.",
["crypto_aead/*/*/crypto_aead.c",A+"opt_32_stp/isap.c"],
[("tag recomputation and comparison","crypto_aead/*/*/crypto_aead.c: crypto_aead_decrypt"),("pvp",A+"opt_32_stp/isap.c")],
["crypto_aead_decrypt: return value, m, mlen"])
p("C06","Rejected ciphertexts release no plaintext",
"When decryption rejects a ciphertext, no byte of the caller's plaintext buffer depends on the key or on the decryption of the unauthenticated ciphertext after the call: the buffer is unchanged or holds constants.",
["inputs","configurations"],"every key, nonce, AD, ciphertext and wrong tag; lengths up to the stated bounds; every implementation",
"No test submits a forgery, so the rejecting path is never executed by the test suite.",
["crypto_aead/*/*/crypto_aead.c"],
[("verify-then-decrypt order","crypto_aead/*/*/crypto_aead.c: crypto_aead_decrypt")],
["crypto_aead_decrypt: final contents of m when the return value is nonzero"])
p("C07","Ciphertexts shorter than a tag are rejected without touching memory",
"Decryption of a ciphertext of fewer than 16 bytes returns a nonzero value for every key, nonce, associated data and content, reads nothing outside the given ciphertext bytes, writes nothing to the plaintext buffer, and terminates.",
["inputs","configurations"],"ciphertext lengths 0..15, every content, key, nonce and AD up to the stated bound; every implementation",
"The tests only pass ciphertexts that encryption produced, which are always 16 bytes or longer.",
["crypto_aead/*/*/crypto_aead.c"],
[("length check before the subtraction of the tag size","crypto_aead/*/*/crypto_aead.c: crypto_aead_decrypt")],
["crypto_aead_decrypt: return value, memory accesses"])
p("C08","Calls stay inside their buffers and leave inputs unchanged",
"For all argument contents and lengths, encryption, decryption and hashing read only the bytes of their inputs (16-byte key, 16-byte nonce, AD, message or ciphertext) and write only their outputs (ciphertext of message length plus 16 and its length, plaintext of ciphertext length minus 16 and its length, 32-byte digest); key, nonce, associated data and input text are not modified, and the secret-message-number pointer is never dereferenced.",
["inputs","configurations"],"every content; lengths up to the stated bounds; every implementation (C at source semantics, ARM at machine code)",
"KAT drivers use oversized static buffers, so reads or writes a few bytes past an argument go unnoticed, and they never check that inputs survive.",
["crypto_aead/*/*/isap.c","crypto_aead/*/*/crypto_aead.c","crypto_aead/isapk128av20/opt_64/isap.c"],
[("block loops and partial-block handling","crypto_aead/*/*/isap.c"),("whole-word access to 18-byte blocks","crypto_aead/isapk128av20/opt_64/isap.c: ABSORB_MAC")],
["all loads and stores during a call"])
p("C09","Control flow and memory addresses do not depend on secrets",
"During encryption, decryption and hashing, no branch taken and no memory address accessed depends on the key, on the plaintext, or on the hashed data; the only permitted exception is that the outcome accept/reject of decryption is public. In particular the position of the first differing tag byte does not influence control flow or addresses.",
["inputs","configurations"],"all pairs of secrets for all public data; lengths up to the stated bounds; every implementation",
"Functional tests compare outputs only; two runs with different secrets and equal outputs lengths look identical to them.",
["crypto_aead/*/*/isap.c","crypto_aead/*/*/crypto_aead.c"],
[("bit-wise absorption by shifts and masks instead of branches",A+"opt_64/isap.c: isap_rk"),("count-of-equal-bytes tag comparison",A+"opt_64/crypto_aead.c")],
["branch conditions and load/store addresses during a call"])
p("C10","Results depend only on the arguments, not on earlier calls",
"The results of encryption, decryption and hashing are a function of the call's arguments alone: after any sequence of earlier calls (successful, rejected or with other keys, AEAD or hash) in the same process, and whatever uninitialised stack memory or output buffers contained before, a call returns the same result as when it is the first one.",
["histories","inputs","configurations"],"all two-call histories over {encrypt, decrypt-accept, decrypt-reject, hash} with arbitrary arguments, arbitrary initial stack and output contents; every implementation",
"The KAT generator always runs the same ascending sequence with one key, so state that leaks from a call with another key, or after a rejection, is never exercised.",
["crypto_aead/*/*/isap.c",A+"*_stp/isap.c","crypto_aead_hash/isapa128av20/*/isap.c"],
[("all working state on the stack and initialised per call","crypto_aead/*/*/isap.c")],
["outputs of the second call"],
[("file-scope variables","must carry nothing between calls",A+"opt_32_stp/isap.c")])
p("C11","Concurrent calls on separate buffers do not interfere",
"Calls of encryption, decryption and hashing that run concurrently or preempt one another, on separate argument buffers, each return the result they return when run alone: no call writes memory that is shared between calls.",
["schedules","inputs","configurations"],"all interleavings of two calls with arbitrary arguments, via absence of writes to shared memory on every path (and one preemption at every shared access where there are any); every implementation",
"The test programs are single-threaded and never re-enter the library.",
["crypto_aead/*/*/isap.c",A+"opt_32_stp/isap.c",A+"bi_32_armv6m_stp/isap.c"],
[("no writable static state","crypto_aead/*/*/isap.c"),("tag comparison state handed over within the call",A+"opt_32_stp/isap.c: pvp")],
["writes to static memory; results under preemption"],
[("file-scope variables","shared between threads",A+"opt_32_stp/isap.c")])
p("C12","Hashing equals the Ascon-Hash specification",
"For every input, each implementation with hashing returns 0 and writes exactly the 32-byte Ascon-Hash digest of the input.",
["inputs","configurations"],"every input content; lengths up to the stated bound; all crypto_aead_hash directories, C and ARM",
"The hash KATs use one fixed byte pattern per length.",
[AH+"*/isap.c",AH+"*/asconp.h",AH+"*/config.h"],
[("crypto_hash",AH+"opt_64/isap.c"),("absorption shared with the MAC",AH+"opt_64/isap.c: ABSORB_LANES")],
["crypto_hash: out, return value"])
p("C13","Permutation libraries implement their documented state operations",
"For every state, every data and every admissible offset, length and round count, the bundled permutation libraries (Ascon-p reference, Keccak-p[400] reference, Keccak-p[400] ARM assembly) implement their interface exactly: initialise sets all-zero, add-bytes XORs and overwrite replaces exactly the addressed bytes, overwrite-with-zeroes clears exactly the leading bytes, extract returns exactly the addressed bytes, extract-and-add XORs them to the input, and permute applies exactly the last n rounds of the permutation; all other state bytes keep their value.",
["inputs","configurations"],"every state and data value; all offset/length pairs in the state; all round counts 0..maximum",
"ISAP uses only a few of these functions with a few constant arguments, so the KATs never reach the others or other arguments.",
["crypto_aead/isapxv20/ref/lib/","crypto_aead/isapk128av20/ref/","crypto_aead/isapk128av20/opt_32_armv7m/","crypto_aead/isapk128v20/opt_32_armv6m/","crypto_aead/isapa128v20/ref/"],
[("KeccakP400_* functions","KeccakP-400-reference.c, KeccakP-400 assembly"),("Ascon_* functions","Ascon-reference.c")],
["state and output bytes after each library function"])
p("C14","64-bit lengths are honoured: different lengths are never conflated",
"The message, associated-data, ciphertext and hash-input lengths are honoured as full 64-bit values: the number of blocks processed and the positions accessed are those of the given length, and no two different lengths are processed alike, whatever their magnitude (256 and more, 65536 and more, 2^32 and more).",
["inputs","configurations"],"lengths as symbolic 64-bit values; every path up to the stated number of blocks must determine its length uniquely; every 64-bit implementation",
"KATs stop at 32 bytes (1024 for hashing) and a length that is truncated to 8, 16 or 32 bits agrees with the full one on all of them.",
["crypto_aead/*/*/isap.c","crypto_aead/*/*/crypto_aead.c",A+"avx_512/isap.c"],
[("uint64_t length arithmetic","crypto_aead/*/*/isap.c"),("u32/u64 index types",A+"avx_512/isap.c: ABSORB_LANES")],
["number of blocks processed, output positions"])
p("C15","Decrypting what was encrypted returns the message",
"For every key, nonce, associated data and message, decrypting the output of encryption with the same implementation returns 0, the original message length and the original message; decrypting the output of any other implementation of the same instance does so too.",
["inputs","configurations"],"every key, nonce, AD, message content; lengths up to the stated bounds; every implementation and, through the common specification, every pair of the same instance",
"Tests round-trip only the KAT inputs (one key, 32 bytes or less), within one implementation.",
["crypto_aead/*/*/crypto_aead.c","crypto_aead/*/*/isap.c"],
[("same keystream and MAC on both sides","crypto_aead/*/*/crypto_aead.c")],
["crypto_aead_encrypt then crypto_aead_decrypt"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
