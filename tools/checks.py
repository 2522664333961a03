SEARCH = 'explicit-state search of the real implementation (every operation sequence within bounds, states hashed), each step compared with an independent reference model'
CHECKS = {
 'P01': dict(src=['p01.c'], shards=48, technique=SEARCH,
   note='Every update size in every reachable context state inside windows at the message start and around each key-meshing, section and counter-carry boundary agrees with a reference written from the standards; message and key bytes are fixed patterns plus edge keys and IVs. Trusts the reference model (checked against published vectors on every run), OpenSSL EVP and gcc.',
   bounds='all update sizes 0..W inside windows of W>=26 bytes at offset 0 and around every meshing, section and counter-carry boundary, plus 64/1024/1029/2048-byte updates from every state; 6 S-boxes; ACPKM sections 1,2,3,4,8,16,512,16384 blocks; 4 RNG behaviours; edge keys and IVs'),

 'P04': dict(src=['p04.c'], lib=['mdx.c'], shards=48, technique=SEARCH, variants=[
     {'name': 'default'},
     {'name': 'plain', 'san': ['-O2', '-g1'], 'hflags': ['-DLONGONLY']},
     {'name': 'ref', 'hflags': ['-DSECONDARY'], 'per_file': lambda f: ['-U__SSE2__'] if f == 'gosthash2012.c' else []},
     {'name': 'noadc', 'cflags': ['-UHAVE_ADDCARRY_U64'], 'hflags': ['-DSECONDARY']},
   ],
   note='Every update size in every reachable context state for lengths up to two blocks plus windows at larger offsets, every word-carry class of the checksum addition, all lengths to 2100 bytes, messages beyond 2^29 bytes; SSE2, portable and no-addcarry builds. Trusts the reference model and gcc.',
   bounds='update sizes 0..2 blocks+9 at offsets 0 and a 100-byte window at 256 blocks/8, 4 byte patterns; 4096 word-class combinations x 6 positions x 3 backgrounds for carries; lengths 0..2100 (quick), 0..9000 (thorough); long messages 2^24+13, 2^29+77 (quick), 2^31+5, 2^32+5 (thorough)'),
 'P05': dict(src=['p05.c'], lib=['mdx.c'], shards=64, technique=SEARCH,
   note='Every cut of every message length inside windows at the start and around meshing and section boundaries, every MAC size, every interface (digest ctrl, XOF final, DigestSign with ctrl and string options), all S-boxes, ACPKM section and T* combinations, against a reference written from the standards.',
   bounds='all cuts into <=4 pieces of lengths 0..3 blocks+2, <=3 pieces around 1024/2048/3072/4096 and k*section, full state search of the GOST 28147-89 MAC context; sizes 0..max and 15 bad sizes; sections 16,32,48,64,128,4096 x T* 16,48,64,96,112,192,768,4096; all lengths to 2100 (quick) or 4200 (thorough)'),
 'P02': dict(src=['p02.c'], lib=['aead.c'], shards=128, technique=SEARCH,
   note='Every sequence of up to three messages with every initialisation kind (cipher+key+IV, key+IV, IV only, split, reset, copy) in both directions, finished or abandoned at block, partial-block and meshing positions, for all 14 plain ciphers, MGM, CTR-ACPKM-OMAC and the five MACs; outputs compared with the reference.',
   bounds='histories of 1 and 2 messages (5-9 lengths, 2 directions, 2-3 parameter settings, finished or not) x 8 initialisation kinds x 2 directions, then a probing message past the first meshing boundary'),
 'P03': dict(src=['p03.c'], lib=['aead.c'], shards=64, technique=SEARCH,
   note='Every copy of every cipher, AEAD, digest and MAC context at block, partial-block and meshing positions (and before a key is set) into every kind of target, followed by every sequence of up to two operations on either side (update, re-key, other direction, final, free, reset, copy back), all outputs compared with the reference under the address sanitizer.',
   bounds='5 kinds of target x 4-7 positions x 1-3 parameter settings x all sequences of <=2 (quick) or <=3 (thorough) of 16 operations, both completion orders'),
 'P06': dict(src=['p06.c'], lib=['aead.c'], shards=96, technique=SEARCH,
   note='All associated-data and text lengths to 2 and 3 blocks, all cuts into up to four pieces, every single altered bit of tag, text, associated data, nonce, seed and key, every length change and moved border, all carries of both MGM counters and the MGM multiplication on every pair of basis elements, CTR-ACPKM-OMAC around its section boundaries; against a reference written from RFC 9058 / R 1323565.1.017.',
   bounds='aad 0..2 blocks+2 x text 0..3 blocks+2; cuts into <=4 pieces (5 thorough); single-bit alterations on about 300 (all in thorough) length pairs; OMAC text lengths 0..2100 and windows of 4 blocks around 1-3 sections',
   assumptions=['an MGM message with neither associated data nor text is outside the standard and not judged']),
 'P07': dict(src=['p07.c'], shards=48, technique=SEARCH,
   note='KExp15 for every key length and buffer size, every altered bit of wrapped key, IV and both keys, every truncation and extension, every cut into up to three pieces and every history of two earlier unwraps on a wrap-cipher context, CryptoPro diversification and wrap with 6 S-boxes x every value of every UKM byte x every single-bit key; compared with a reference written from R 1323565.1.017 and RFC 4357.',
   bounds='40 (400 thorough) key sets; 64 lengths; all single-bit alterations; 6 S-boxes x 4 keys x 2048 UKMs'),
 'P10': dict(src=['p10.c'], lib=['ecref.c'], shards=96, technique=SEARCH,
   optional=lambda repo: [('fld-' + n, 'p10_field.c', ['-DCURVE=' + n, '-DFILE_=' + repo + '/ecp_' + n + '.c', '-O2', '-D_GNU_SOURCE'] + (['-DMONT'] if n in
     ('id_GostR3410_2001_CryptoPro_B_ParamSet', 'id_GostR3410_2001_CryptoPro_C_ParamSet', 'id_GostR3410_2001_TestParamSet', 'id_tc26_gost_3410_2012_512_paramSetB') else []))
     for n in ('id_GostR3410_2001_CryptoPro_A_ParamSet', 'id_GostR3410_2001_CryptoPro_B_ParamSet', 'id_GostR3410_2001_CryptoPro_C_ParamSet', 'id_GostR3410_2001_TestParamSet',
               'id_tc26_gost_3410_2012_256_paramSetA', 'id_tc26_gost_3410_2012_512_paramSetA', 'id_tc26_gost_3410_2012_512_paramSetB', 'id_tc26_gost_3410_2012_512_paramSetC')],
   variants=[{'name': 'w64', 'san': ['-O2', '-g1']}, {'name': 'w32', 'san': ['-O2', '-g1'], 'cflags': ['-DPEDANTIC']}],
   note='Every value of every recoding digit at every position in several backgrounds for the generator, for a point and for the two-scalar product; all small multiples of small points and all scalars around multiples of the order (including results at infinity); points with extreme coordinates; field arithmetic on all pairs of elements built from empty, full and edge limbs; 64-bit and 32-bit arithmetic; against textbook affine formulas and OpenSSL generic curves with the published parameters pinned in /verif.',
   bounds='14 parameter sets x 2 word sizes; windows of 6 bits at every 5th (every, thorough) bit position in 3 (8) backgrounds; scalars kq+-300 (2000), k<=4; 32 small points x scalars kq+-8; pairs (n,m) in (kq+-5)^2'),
 'P11': dict(src=['p11.c'], lib=['ecref.c', 'pk.c'], shards=96, technique=SEARCH,
   note='Signing for every pair of private-key, digest and nonce edge values with the nonce scripted through the random generator, nonces giving r = 0 or s = 0 and draws out of range; verification of crafted valid signatures with edge s, of every pair of edge r and s, of every single-bit alteration of r, s and digest and of neighbouring keys; every signature, digest and buffer length; digest-and-sign with cuts and copies; every short history of one key context. Oracle: the GOST R 34.10 equation over the reference curve arithmetic, in both directions (verification, and recovery of the nonce from a signature).',
   bounds='20 key type x parameter set pairs; 9 private keys x 11 digests x 9 nonces; 12 x 12 edge r,s pairs on 1-4 (18, thorough) signatures per key; all signature lengths 0..2n+140, digest lengths 0..130; histories of 3 (4) operations'),
 'P12': dict(src=['p12.c'], lib=['ecref.c', 'pk.c', 'aead.c'], shards=96,
   technique='exhaustive fault injection on the real implementation: every failing call of the random generator and every short sequence of edge draws, outcomes compared with the reference arithmetic',
   note='Key generation in five ways for every type and parameter set under every sequence of edge draws (0, 1, q-1, q, q+1, all ones, ...); every failure of every RNG call (transient and permanent, both error codes) in key generation, signing, digest-signing, both key transports and the seeded AEAD ciphers: success is accepted only with a correct result every random component of which depends on what the generator delivered.',
   bounds='11 edge draws at up to 3 (4) positions; failing call 1..n+1 of each of 11 operations x 20 key sets x 2 codes x transient/permanent'),
 'P09': dict(src=['p09.c'], lib=['ecref.c', 'pk.c'], shards=96, technique=SEARCH,
   note='Both directions of every agreement for every pair of private-key edge values, every derivation variant (VKO with either digest, VKO with the default digest, KEG), every UKM class at every size class, set as bytes or as text, against the reference group arithmetic and digest; the internal entry for every UKM length; every missing, public-only, foreign-curve or foreign-type input, every UKM size, every buffer size; every short history of one context (peer, UKM, mode, duplicate, re-init) with a derivation after each step.',
   bounds='20 key type x parameter set pairs; 7 x 7 (subset in quick) keys; 15 UKM classes x up to 9 sizes; UKM sizes -1..40; buffers 0..69; histories of 4 (5) operations'),
 'P08': dict(src=['p08.c'], lib=['ecref.c', 'pk.c'], shards=96, technique=SEARCH,
   note='Encryption for every UKM, session key and cipher name: the blob is taken apart by a reference parser, the agreement recomputed from the recipient side and the wrapped key compared; then decrypted. Reference-made blobs (every S-box, with and without UKM, digest parameter, sender key) must decrypt and be refused under other keys. Every single-bit flip, truncation, removal, doubling and splice of a blob must fail or give the same key. Every length of every part, buffer and session key, foreign ephemeral keys, and every short history of one encryption or decryption context.',
   bounds='20 key type x parameter set pairs x 4 transports; all bits of the blob on 6-8 sets (one bit per byte on the others), all cuts; part lengths 0..70; histories of 4 (5) decryptions or 3 (4) encryptions'),
 'P13': dict(src=['p13.c'], lib=['ecref.c', 'pk.c'], shards=96, technique=SEARCH,
   note='Private keys built by an independent encoder in nine forms (raw, OCTET STRING, INTEGER, one to three masks, SEQUENCE with up to two masks; with and without a digest parameter) and public keys for 16 value classes decode to exactly the key; what the engine writes in each format (default, wrapped, SubjectPublicKeyInfo, text, PEM) is taken apart by an independent parser. Every byte position takes four values, points with zero bytes at either end are searched for, comparison is judged on every pair of a key collection, and every short sequence of loads over parameter sets that share a curve must keep each key under its own name.', bounds='24 key type x parameter set pairs; 16 value classes x 9 forms; all byte positions; load sequences of 3 (4)'),
 'P14': dict(src=['p14.c'], lib=['ecref.c', 'pk.c', 'cpar.c'], shards=96, technique=SEARCH,
   note='Valid encodings in every form are damaged systematically: every element of the encoding tree dropped, emptied, retagged, cut, padded, given edge values, renamed to every curve and algorithm, parts repeated and exchanged; every byte set to each of an alphabet, every bit flipped, every cut, removal and doubling; private numbers and points at every edge; parameters of every cipher likewise. Whatever is accepted must be a key of the named type on a curve of its size, with a point on the curve, 0 < d < q and matching halves, and it must survive signing, verifying, agreement, printing and encoding under AddressSanitizer and UBSan.', bounds='20 key type x parameter set pairs x 11 encodings, single damage (all bytes on 2 (20) sets); cipher parameters: single (double) changes'),
 'P15': dict(src=['p15.c'], lib=['cpar.c'], shards=64, technique=SEARCH,
   note='For every cipher with parameters, every S-box, eight IV classes and five ways to prepare the writer: the written parameters equal an independent encoding, the message is what an independent cipher makes of them (past the second re-keying section), and six ways to read them into another context give the message back. Damaged parameters (every byte value at every position, cuts, removals, doublings, every length, every tag, every registered object as the parameter set) are refused, or the next message is decrypted as an independent reading of the same bytes says; modes whose state the parameters cannot carry refuse them.', bounds='11 ciphers x 7 S-boxes x 8 IVs x 5 writers x 6 readers, messages to 16400 (267144) bytes; single (double) byte changes'),
 'P19': dict(src=['p19.c'], shards=96, technique=SEARCH,
   note='The KDF tree for every output length class, counter size and length of key, label and seed against an independent HMAC construction, refused where the counter cannot express the length; the TLS tree for every record number of at most two set bits, its complement, its neighbours and every run of ones, in place and apart; records keyed through the tree on every cipher and MAC that takes it, for every short history of record, record before, data, new message and copy, against the independent tree and cipher; refused on everything else.',
   bounds='output 0..2^17 in classes x counter 0..5; all 1- and 2-bit (3-bit, thorough) record numbers, +-1; histories of 3 (4) operations on 4 ciphers and 2 MACs'),
 'P16': dict(src=['p16.c'], lib=['ecref.c', 'pk.c', 'aead.c', 'alloc.c'], shards=96,
   technique='exhaustive fault injection on the real implementation: every allocation of an operation fails once, each in a forked copy of the same state, the outcome compared with the reference result',
   note='98 operations (decoding, encoding, printing and comparing keys, key and parameter generation, signing, verification, requests, agreement, key transport, digests, MACs, ciphers, copies, cipher parameters, records, key wrap, engine parameters), each as the first in the process and again after itself. One run records the allocations; then each one fails in its own forked copy under AddressSanitizer: the operation reports failure, or its result is the right one (compared byte for byte, or judged by the reference arithmetic where it is random), and the same operation with memory then succeeds with the right result.',
   bounds='quick: every allocation whose site (place of the request and two innermost callers outside libcrypto) is new; thorough: every allocation, and every allocation with all later ones'),
 'P17': dict(src=['p17.c'], shards=96, technique=SEARCH, variants=[{'name': 'static'}, {'name': 'so', 'kind': 'engine-so'}],
   note='Every sequence of load, get, init, finish, free, set default, unregister and remove, full use, opening, using and closing contexts, each in a fresh forked process, statically linked and as a loadable module: whenever the engine is initialised every announced cipher, digest and key type works with the results of a fresh process (and of the reference), contexts opened before survive, names never lead to freed methods, and after every history the engine can be unloaded and loaded again. Every sequence of parameter settings (by name, by number, cleared, unknown) under every kind of environment, judged by what the engine then does.',
   bounds='histories of 5 (7) operations, <=2 handles, <=2 initialisations; parameter histories of 2 (3) operations from 27, 4 (48) environments'),
 'P20': dict(src=['p20.c'], lib=['p20tool.c'], shards=64, technique=SEARCH, variants=[{'name': 'gost94'}, {'name': 'gost12'}],
   note='The real main() of gostsum and gost12sum, built with ASan from their sources, run in a forked copy on every list of up to three lines drawn from 28 kinds of line (right, wrong, malformed, over-long, blank, zero bytes), on every one-character change of a good list, every cut, every name length around the buffer limits, five ways of naming the list, every pair of file operands, every length of file, every split of the reads and every failing read; verdicts from an independent reading of the list format and independent GOST R 34.11 implementations.',
   bounds='lists: all pairs of 28 kinds x 5 ways of passing the list, triples for 5 first lines (thorough: all triples x 3 ways); one-character changes from 24 values (thorough 256) at every position of a 3-line list; file lengths 0..200 (thorough 600) and around the 256 KiB buffer; two-piece splits to 70 bytes'),
 'P18': dict(src=['p18.c'], lib=['ecref.c', 'pk.c', 'aead.c', 'alloc.c', 'csched.c'], shards=64, technique='stateless model checking of the implementation: a controlled scheduler runs every schedule of the threads up to a preemption bound',
   note='The real engine, compiled with -fsanitize=thread instrumentation but our own runtime behind it, and each of its library calls routed through a trampoline. Threads pass a baton, so exactly one runs; a schedule says at which accesses the running thread is preempted and for whom. Preemption points are found, not guessed: an access is one if it is to memory older than the threads that two of them touch and one changes, or by an instruction that in some run reached newer memory that two threads touch (lazily made objects), or takes or gives back a lock; objects passed to library calls count as read or changed as the prototype says; both sets grow until no schedule finds a new member, so leaving the other accesses out loses no behaviour. Each thread has its own random stream, so each result must be byte for byte that of the operation alone (or verify, where it is random), also when the operations are repeated after the threads ended; the arena never reuses memory and reports use after free, double free, and blocks left over compared with running one after the other; deadlocks are reported.',
   bounds='2 threads: every pair of the 20 parameter sets and of 4 operations with parameters from the environment, 3 preemptions; each of 98 operations with itself (thorough 3), and with engine lookups, 2 preemptions; each with 8 operations that set things up, 1 (thorough 2); thorough: every pair of operations, 2. 3 threads: 4 triples (thorough 20) of parameter sets, 2 preemptions (thorough 3). At most 16 (thorough 64) points per thread and place in the code. Library functions run whole; sequentially consistent memory; schedules in which a preempted thread holds a lock inside OpenSSL that another needs do not exist and are dropped',
   variants=[{'name': 'sched', 'san': ['-g1', '-O1', '-fno-omit-frame-pointer'], 'cflags': ['-fsanitize=thread'], 'trampolines': True}]),
 'P22': dict(src=['p22.c'], lib=['ecref.c', 'pk.c', 'aead.c', 'alloc.c'], shards=96, technique=SEARCH,
   note='The real engine with an allocator of ours under the library: every block is searched, at the moment it is handed back, for every secret of the operation - keys given, keys the independent reference derives from them (ACPKM sections, meshed keys, KDFTREE, TLSTREE, VKO, KEG, wrapped keys, signature nonces, one-time private keys traced from the random source), in both byte orders, from every word of the secret, and for key/mask pairs that add up to a key. Explored: every operation of the P16 table undisturbed and with each allocation and each random draw failing; every one-byte change and every cut of private keys in 9 encodings; one-byte changes of transported and wrapped keys; every sequence of context operations (init, re-key, IV, update, copy and free, reset, section, record key, other cipher, parameters, final) for every cipher, MAC, MAC key and private key context. A block counts only when an engine function is on the stack or the call is in the engine source: blocks the library itself gives up (its decoders, its half-read ASN.1 values) are not the engine\'s.',
   bounds='98 operations x first failing allocation at every site (thorough: every allocation) x every random draw; histories to depth 3 of 11 cipher operations (thorough 4), 4 of 9 and 10 MAC operations (thorough 5), 2 of 9 private-key operations (thorough 3); stack and never-freed memory are outside the property'),
 'P21': dict(src=['p21.c'], lib=['aead.c', 'cpar.c', 'alloc.c'], shards=64, technique=SEARCH,
   note="the provider's own sources compiled with the engine's into one program (its support library's two error functions stubbed), loaded as a built-in provider, and every history of operations through EVP_CIPHER_fetch, EVP_MD_fetch and EVP_MAC_fetch compared with the reference; copies are repeated with every allocation of the copy failing in turn",
   bounds='14 ciphers, 2 MGM modes, 3 digests, 5 MACs; histories of 1 + 3 (ciphers, MACs) or 4 (digests) operations, one deeper when thorough; padding: every length to 4 blocks in every 2 parts; MAC sizes 0..70 and key lengths 0..70; parameters for 3 IVs and every message length from 1 to 3 blocks; 6 load/unload rounds; every failing allocation in a copy',
   variants=[{'name': 'provider', 'kind': 'provider'}]),
 'P23': dict(src=['p23.c'], lib=['ecref.c', 'pk.c', 'aead.c', 'cpar.c'], shards=64, technique=SEARCH,
   note="the library's own certificate, CMS, PKCS#7 and PKCS#12 code over the engine linked in from /repo's sources, under the address sanitizer and a scripted random source: each message is made once, opened with the matching key, with another key under the same name, and after every single change of a byte and of an ASN.1 element (left out, NULL, emptied, doubled, shortened, lengthened, another type, swapped with the next; lengths put in order), also inside octet and bit strings. Key agreement messages, which the engine only reads, are made by the independent reference",
   bounds='20 key type x parameter set pairs (two keys each); certificates, requests, CRLs, SPKACs: every byte (thorough: every bit) and every element; CMS signed 7 ways x 10 lengths, PKCS#7 4 ways x 6 lengths, PKCS#12 with 2 MACs x 3 encryptions; envelopes to every key with every content cipher that has an identifier and every key wrap, 10 lengths of 0..1000; key agreement with 2 wraps, with and without a MAC; one message for all recipients; encrypted and digested data; in the quick tier the byte and element changes are made for one parameter set per key type'),
 'P24': dict(src=['p24.c'], lib=['ecref.c', 'pk.c'], shards=64, technique=SEARCH, ldflags=['-lssl'],
   note="both ends are the library's own TLS code over the engine linked in from /repo's sources, under the address sanitizer and a scripted random source; a passive reference follows every byte on the wire: it unwraps the premaster secret with the server's key, derives the master secret and record keys, checks the client's signature, both Finished messages, and decrypts every record and recomputes its MAC. Alterations are made on the wire, each in a forked copy of an established connection or in a handshake of its own",
   bounds='7 suites, every key type and parameter set as server and (thorough: all pairs) client key, TLS 1.0, 1.1, 1.2, with and without extended master secret; 29 record lengths of 1..16384 each way, 4400 / 600 / 260 records of one connection; 3 resumptions by ticket and by session id; 3 renegotiations by either side, full and abbreviated; every byte (thorough: every bit) of a record altered, all cuts, repetition, loss, reflection, joining; one bit of every byte of every handshake message; every random call failing; two connections in all orders of their 5 (thorough: 7) steps each, for every pair of suites; certificates nobody knows, keys of other certificates'),
}
NOT_APPLICABLE = {}
