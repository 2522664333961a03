#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list stays easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],
        observe_at=list(observe),hook_needed=hook)))

p("P01","Cipher modes produce the standard's output however the message is chunked",
 "For every symmetric cipher offered (GOST 28147-89 CFB/CNT/CBC with both S-box families, Magma and Kuznyechik in ECB, CBC, CFB, OFB, CTR and CTR-ACPKM), encrypting a message gives exactly the bytes the standard defines for that key, IV, parameter set and key-meshing interval, and decrypting gives the message back. This holds for every message length, every way of cutting the message into update calls, in-place or out-of-place, across block, counter-carry, key-meshing and ACPKM-section boundaries, and whatever the random number generator returns.",
 ["inputs","histories"],"every cipher x key/IV edge class x message length x sequence of update sizes x RNG answer",
 "The tests run a few fixed vectors with a few fixed splits; they never reach most (offset, chunk) pairs, counter carries, additions mod 2^32-1 at the edge, or a meshing boundary crossed inside a chunk.",
 ["gost_crypt.c","gost89.c","gost_grasshopper_cipher.c","gost_grasshopper_core.c","gost_gost2015.c"],
 [("partial-block offset kept between calls","gost_crypt.c, gost_grasshopper_cipher.c"),("key meshing / ACPKM on byte counters","gost_crypt.c gost_cnt_next/gost_crypt_mesh, gost_grasshopper_cipher.c"),("counter increment with carry","gost_crypt.c inc_counter")],
 [("stream offset","bytes of the current gamma block already used","cipher context num"),("mesh counter","bytes since last key change","cipher context count / section")],
 ["EVP_CipherUpdate/EVP_CipherFinal output"])

p("P02","A re-initialised cipher or MAC context behaves exactly like a fresh one",
 "After any history of operations on a context, initialising it with a key and an IV makes it produce exactly what a newly created context initialised the same way produces; initialising with only a new IV is the same as a fresh context with the previous key and parameters and that IV. Parameters set on the context stay in force until it is reset. No offset, counter, buffered data, changed (meshed) key, partial tag or additional data of an earlier message influences a later message.",
 ["histories"],"every sequence, up to a depth, of init(key,iv) / init(iv only) / update / final / abandon on one context, for every cipher, digest and MAC",
 "The tests mostly use one context per message or restart it after an aligned, finished message; leaking state shows only after particular unfinished histories.",
 ["gost_crypt.c","gost_grasshopper_cipher.c","gost_md.c","gost_md2012.c","gost_omac.c","gost_omac_acpkm.c","gost_gost2015.c"],
 [("init callbacks reset per-message state","gost_crypt.c, gost_grasshopper_cipher.c, gost_omac.c, gost_omac_acpkm.c")],
 [("per-message state","offset, counter, IV, tag, meshed key","cipher/digest contexts")],
 ["EVP_CipherUpdate output after EVP_CipherInit_ex","EVP_DigestFinal after EVP_DigestInit_ex"])

p("P03","Copied contexts continue independently of their source",
 "Copying a cipher, digest or MAC context at any point of its life gives a context that produces exactly what the source would have produced from that point on. Further use, re-keying or freeing of either one, in any order, never changes the output of the other and never touches freed memory.",
 ["histories"],"every interleaving, up to a depth, of operations on source and copy and of their release, copying at every point, for every algorithm",
 "The tests copy at one or two fixed points of a message and free in one order; aliasing shows only when the two diverge after the copy.",
 ["gost_crypt.c","gost_grasshopper_cipher.c","gost_md.c","gost_md2012.c","gost_omac.c","gost_omac_acpkm.c","gost_gost2015.c"],
 [("copy callbacks","EVP_CTRL_COPY and digest copy handlers")],
 [("nested contexts","inner MAC/CMAC context pointers, tables, key schedule pointers","cipher/digest contexts")],
 ["outputs of EVP_CIPHER_CTX_copy / EVP_MD_CTX_copy_ex results","address sanitizer"])

p("P04","Digests equal the standard for every message and chunking",
 "GOST R 34.11-94 and both GOST R 34.11-2012 digests give exactly the value the standard defines for every message, including messages whose length and checksum additions carry across word boundaries, the empty message and every length around a block boundary. The value does not depend on how the message is cut into updates, and taking a digest of a copy does not disturb the original.",
 ["inputs","histories"],"message length x block contents forcing carries x sequence of update sizes",
 "Tests sample a fixed list of messages; carries in the 256/512-bit accumulators and odd splits across the block buffer are reached by few of them.",
 ["gosthash.c","gosthash2012.c","gosthash2012_ref.h","gosthash2012_sse2.h","gosthash2012_precalc.h","gosthash2012_const.h","gost_md.c","gost_md2012.c"],
 [("block buffering","gosthash.c hash_block, gosthash2012.c gost2012_hash_block"),("checksum with carry","gosthash.c add_blocks, gosthash2012.c add512")],
 [("buffered bytes / total length / checksum","running state","digest context")],
 ["EVP_DigestFinal_ex","gostsum and gost12sum output"])

p("P05","MACs equal the standard for every message, chunking, size and key-mesh interval",
 "The GOST 28147-89 MAC (both parameter families), the Magma and Kuznyechik MACs and the ACPKM MACs give exactly the value their standards define for every message length, cut into updates in every way, across block and re-keying boundaries. A requested shorter MAC is the leading part of the full one, a request outside the documented range is refused, and the reported length is the number of bytes written.",
 ["inputs","histories","configurations"],"MAC algorithm x message length x update sizes x MAC size x re-keying interval x way of supplying the key",
 "Tests use a few vectors with one or two splits and two sizes; re-keying exactly at an update boundary, last-block padding at section ends, and most sizes are not reached.",
 ["gost_crypt.c","gost_omac.c","gost_omac_acpkm.c","gost_pmeth.c","gost89.c"],
 [("delayed last block","gost_omac_acpkm.c CMAC_ACPKM_Update, gost_crypt.c gost_imit_update"),("size option","gost_pmeth.c MAC size controls")],
 [("pending block and byte count","MAC context","gost_crypt.c, gost_omac_acpkm.c")],
 ["EVP_DigestSignFinal","EVP_DigestFinalXOF/ctrl XOF_LEN"])

p("P06","Authenticated ciphers accept exactly the untampered message",
 "For Magma and Kuznyechik MGM and for the CTR-ACPKM-OMAC ciphers, encryption gives the ciphertext and tag the standard defines for every combination of nonce, associated-data length and plaintext length (including empty ones) however they are chunked, and decryption with that tag succeeds and returns the plaintext. If any bit of ciphertext, tag, associated data, nonce or key material differs, or the tag is missing, finalisation reports failure.",
 ["inputs","histories"],"associated-data length x plaintext length x chunking x tag length x every single-bit modification of each field",
 "Tests check a handful of vectors and at most one tampering; accept-on-mismatch bugs live in particular length combinations.",
 ["gost_grasshopper_cipher.c","gost_crypt.c","gost_gost2015.c"],
 [("tag comparison at final","gost_gost2015.c gost_mgm128_finish, gost_grasshopper_cipher.c, gost2015_final_call"),("nonce/counter derivation","gost_gost2015.c")],
 [("hash accumulator, counters, lengths","MGM state","gost_gost2015.h mgm128_context")],
 ["EVP_DecryptFinal_ex result","EVP_CTRL_AEAD_GET_TAG"])

p("P07","Symmetric key wrapping round-trips and rejects any altered wrapped key",
 "Unwrapping a key with the same wrapping key, UKM/IV and algorithm it was wrapped with (KExp15/KImp15 with Magma and Kuznyechik, the kexp15 wrap ciphers, and GOST 28147-89 key wrap with and without CryptoPro diversification) returns the original key, and the wrapped bytes are those the standard defines. Unwrapping a value with any bit changed, truncated or extended fails and does not report success, and never reads or writes outside the caller's buffers.",
 ["inputs"],"wrap algorithm x UKM/IV x key x every single-bit change and every truncation/extension length",
 "Tests wrap one fixed key with one vector; no truncation or bit change is tried.",
 ["gost_keyexpimp.c","gost_keywrap.c","gost_gost2015.c","gost_crypt.c"],
 [("MAC check before release","gost_keyexpimp.c gost_kimp15, gost_keywrap.c keyUnwrapCryptoPro")],
 (),["return values and output buffers of wrap/unwrap calls"])

p("P08","Public-key key transport delivers the session key or reports failure",
 "For every public-key type and parameter set, a session key encrypted to a recipient (CryptoPro key transport and the 2018 PSKeyTransport with Magma or Kuznyechik) is recovered exactly by decryption with the recipient's private key, and output size queries and too-small output buffers are handled without writing past the buffer. A transport blob with any byte altered, removed or truncated, or encrypted to another key, never yields a different key as a success and never crashes the process.",
 ["inputs","configurations"],"key type x parameter set x transport x every single-byte change and every truncation of the blob",
 "Tests exercise whole CMS/S-MIME round trips with fresh random keys and unaltered blobs only.",
 ["gost_ec_keyx.c","gost_pmeth.c","gost_keywrap.c","gost_keyexpimp.c","gost_asn1.c"],
 [("key-encryption key by VKO/KEG then authenticated wrap","gost_ec_keyx.c")],
 (),["EVP_PKEY_encrypt / EVP_PKEY_decrypt results"])

p("P09","Key agreement is symmetric and equals the standard's VKO/KEG value",
 "Two parties deriving with each other's public key and the same UKM get the same secret, equal to the value defined by RFC 4357/7836 (digest of the UKM- and cofactor-multiplied shared point) or by KEG, for every curve, digest choice, UKM length and UKM value including zero and leading zeros. Derivation fails rather than returning a value when UKM, peer key, private key or parameters are missing or unusable, a size query reports the length that is then produced, and a buffer too small for the secret is refused.",
 ["inputs","configurations"],"curve x derivation variant x UKM class x private-key edge values x both directions",
 "Tests have fixed vectors for a few curves with one UKM each; edge UKM values and key values are not reached.",
 ["gost_ec_keyx.c","gost_ec_sign.c","gost_keyexpimp.c","gost_pmeth.c"],
 [("VKO","gost_ec_keyx.c VKO_compute_key"),("KEG","gost_ec_keyx.c")],
 (),["EVP_PKEY_derive output"])

p("P10","Curve arithmetic equals the group law for every scalar and point",
 "On every supported curve, multiplying the generator, multiplying an arbitrary point, and the two-scalar combination used in verification give exactly the point the elliptic-curve group law defines, for all scalars in the accepted range including 0, 1, small values, values near multiples of the group order, values that exercise every digit pattern of the recoding, and all points including negatives, small multiples of the generator and results at infinity. The single-point product, which key agreement uses, includes the cofactor. The published domain parameters describe a valid curve and generator of the stated prime order.",
 ["inputs"],"curve x entry point x scalar edge classes x point edge classes",
 "Tests use random or fixed scalars; exceptional cases (point doubling inside an addition, infinity results, extreme digit patterns, carry corner cases) have negligible probability there.",
 ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c","ecp_id_GostR3410_2001_CryptoPro_B_ParamSet.c","ecp_id_GostR3410_2001_CryptoPro_C_ParamSet.c","ecp_id_GostR3410_2001_TestParamSet.c","ecp_id_tc26_gost_3410_2012_256_paramSetA.c","ecp_id_tc26_gost_3410_2012_512_paramSetA.c","ecp_id_tc26_gost_3410_2012_512_paramSetB.c","ecp_id_tc26_gost_3410_2012_512_paramSetC.c","gost_ec_sign.c","gost_params.c"],
 [("constant-time combs and wNAF","ecp_*.c"),("dispatch by curve","gost_ec_sign.c gost_ec_point_mul")],
 (),["points returned by scalar multiplication, public keys, signatures"])

p("P11","A signature verifies exactly when it is the key holder's on that digest",
 "Every signature produced verifies under the matching public key, and verification accepts a pair (r,s) exactly when both lie strictly between 0 and the group order and satisfy the GOST R 34.10 equation for that digest and key. Any other signature length, any changed bit in signature, digest or key, and any digest whose length is not that of a GOST digest (32 or 64 bytes) is rejected without crashing; a buffer smaller than the signature is refused.",
 ["inputs","configurations"],"curve x digest edge values x nonce values scripted through the RNG x r,s edge values x signature lengths x single-bit changes",
 "Tests sign and verify random messages; boundary r,s, digests congruent to 0 modulo the order, odd signature lengths and scripted nonces are not reached.",
 ["gost_ec_sign.c","gost_pmeth.c"],
 [("range checks and verification equation","gost_ec_sign.c gost_ec_verify"),("packing","gost_pmeth.c pack_sign_cp / unpack_cp_signature")],
 (),["EVP_PKEY_sign / EVP_PKEY_verify / EVP_DigestVerify results"])

p("P12","Randomness failure never yields a key, signature or encryption",
 "Generated private keys lie strictly between 0 and the group order and the public key is the matching multiple of the generator, whatever bytes the random generator returns; out-of-range draws are never reduced into the range or used as they are. If the random generator reports failure at any of its calls, key generation, signing, key transport and any other operation that needed it report failure and leave no usable result.",
 ["fault_sequences","inputs"],"operation x parameter set x position of the failing RNG call x RNG answers at and around the group order",
 "Tests always run with a working generator.",
 ["gost_ec_sign.c","gost_pmeth.c","gost_ec_keyx.c","gost89.c","gost_crypt.c","gost_omac_acpkm.c","gost_ameth.c"],
 [("RNG result checks and rejection sampling","gost_ec_sign.c gost_ec_keygen/gost_ec_sign, gost_ec_keyx.c")],
 (),["EVP_PKEY_keygen / EVP_PKEY_sign / EVP_PKEY_encrypt results"])

p("P13","Keys and parameters survive every supported encoding unchanged",
 "Encoding a private key, public key or key parameters and decoding the result gives an equal key with the same algorithm, curve and values, for every key type, parameter set, private-key format (raw, wrapped OCTET STRING, INTEGER, masked) and value including ones with leading or trailing zero bytes. The encoded parameters name the curve the key was created with, decoding never yields a key whose public part does not match its private part, and comparison says equal exactly for equal keys.",
 ["inputs","configurations","histories"],"key type x parameter set x encoding x key-value edge class x order of previously used parameter sets",
 "Tests encode freshly generated or fixed keys of each type; keys with zero bytes at either end, masked keys and alternating alias parameter sets are not covered.",
 ["gost_ameth.c","gost_asn1.c","gost_params.c","gost_ec_sign.c","gost_pmeth.c"],
 [("PKCS#8 and SPKI codecs","gost_ameth.c"),("parameter-set lookup and cached groups","gost_ec_sign.c fill_GOST_EC_params")],
 [("cached curve groups","shared per-parameter-set objects","gost_params.c")],
 ["i2d_/d2i_ results, EVP_PKEY_eq"])

p("P14","Malformed encodings are rejected without crashing or corrupting memory",
 "Decoding any byte string as a private key, public key, key parameters or cipher parameters either fails cleanly or yields a usable, consistent key: a public point on the named curve and a private part matching it. No truncation, extension, byte change or length change of a valid encoding causes a crash, out-of-bounds access, abort, or use of uninitialised data.",
 ["inputs"],"every truncation, every single-byte change over a value alphabet, and every tag/length edit of valid encodings of each kind",
 "The tests decode only well-formed data, apart from a few negative cases.",
 ["gost_ameth.c","gost_asn1.c","gost_ec_keyx.c","gost_crypt.c","gost_gost2015.c"],
 [("length and structure checks","gost_ameth.c priv_decode_gost, pub_decode_gost_ec, decode_gost_algor_params")],
 (),["d2i_* results under address sanitizer"])

p("P15","Cipher algorithm parameters round-trip and bad ones are refused",
 "Writing a cipher context's algorithm parameters to ASN.1 and reading them into a new context with the same key makes both process messages identically, carrying IV, S-box set and re-keying seed for every cipher that supports parameters. Reading parameters of the wrong type, with a wrong IV/UKM length, an unknown parameter set, or damaged encoding fails and is never silently treated as some other IV.",
 ["inputs","configurations"],"cipher x IV value x parameter set x every truncation and single-byte change of the encoded parameters",
 "Only complete CMS/PKCS flows with valid parameters are tested.",
 ["gost_crypt.c","gost_gost2015.c","gost_grasshopper_cipher.c","gost_asn1.c"],
 [("set/get ASN.1 parameter callbacks","gost_crypt.c, gost_gost2015.c, gost_grasshopper_cipher.c")],
 (),["EVP_CIPHER_param_to_asn1 / EVP_CIPHER_asn1_to_param and subsequent output"])

p("P16","Memory exhaustion at any point makes an operation fail cleanly",
 "If any single memory allocation fails during an operation (key generation, signing, verification, derivation, key transport, encoding, decoding, digest, MAC or cipher set-up), the operation either reports failure or completes with the correct result. It never crashes, corrupts memory, double-frees, or reports success with a wrong result, and the same operation succeeds again afterwards.",
 ["fault_sequences"],"operation x index of the failing allocation",
 "No test injects an allocation failure.",
 ["gost_ameth.c","gost_pmeth.c","gost_ec_sign.c","gost_ec_keyx.c","gost_crypt.c","gost_omac.c","gost_omac_acpkm.c","gost_keyexpimp.c","gost_md.c"],
 [("error-path clean-up","all files")],
 (),["return values with an allocator that fails the n-th request"])

p("P17","Engine loading, parameters and unloading work in every order",
 "The engine can be loaded, initialised, made default, finished, freed and loaded again any number of times in any order, and whenever it is initialised and made default every algorithm it announces is usable and works correctly; contexts opened before go on working, and no name leads to a method of an unloaded engine. The configured parameters (default cipher parameter set, PBE digest, private-key format) take the value of the environment if it has one, otherwise the last value set since loading, otherwise the built-in default; unknown commands are refused.",
 ["histories","configurations"],"every sequence, up to a depth, of load / init / set default / ctrl / finish / free / reload operations",
 "Each test process loads the engine once and exits.",
 ["gost_eng.c","gost_ctl.c","gost_md.c","gost_crypt.c","gost_params.c"],
 [("bind/destroy and lazily built method tables","gost_eng.c"),("parameter store","gost_ctl.c")],
 [("global method tables, NID tables, parameters","process-wide","gost_eng.c, gost_ctl.c")],
 ["ENGINE_* calls, results of algorithms fetched through the engine"])

p("P18","Threads using separate objects never disturb one another",
 "When several threads work at the same time, each on its own keys and contexts, every operation gives the same result as when run alone, including when the operations are the first ones in the process and when they use different names of the same curve or cipher. No interleaving crashes, leaks, or lets one thread's parameters appear in another thread's key.",
 ["schedules"],"all interleavings, up to a preemption bound, of accesses to process-wide data by two or three threads performing key loading, parameter lookup, cipher and digest set-up",
 "No test starts a second thread.",
 ["gost_ec_sign.c","gost_params.c","gost_md.c","gost_crypt.c","gost_eng.c","gost_ctl.c"],
 [("lazily initialised shared objects","gost_ec_sign.c cached groups, GOST_init_cipher, GOST_init_digest, gost_ctl.c")],
 [("process-wide caches","cached groups, method objects, parameter strings","gost_params.c, gost_crypt.c, gost_md.c, gost_ctl.c")],
 ["results of each thread's operations","race reports of a separate thread-sanitizer run"])

p("P19","Key-derivation trees give the standard's keys for every sequence number",
 "The KDF tree and the TLS key tree give exactly the keys their specification (R 50.1.113-2016 / RFC 9189) defines for every label, seed, output length, counter representation and record sequence number, in whatever order sequence numbers are requested. Record protection keyed through the tree therefore matches on both sides for every sequence number, and unusable lengths are refused.",
 ["inputs","histories"],"tree variant x sequence numbers around every mask boundary x output lengths x request order",
 "Tests check one or two sequence numbers and one KDF vector.",
 ["gost_keyexpimp.c","gost_crypt.c","gost_grasshopper_cipher.c","gost_omac.c","gost_omac_acpkm.c"],
 [("KDF tree and TLS tree","gost_keyexpimp.c gost_kdftree2012_256, gost_tlstree")],
 (),["derived key bytes; EVP_CTRL_TLSTREE followed by encryption or MAC"])

p("P20","Checksum tools report success only when every listed file matches",
 "In check mode the checksum tools exit with success exactly when every line of the list is a digest, a space and the name of a readable file whose digest is the listed one, and they report every mismatch, unreadable file, unreadable list and line they cannot use by a failing exit status (whether blank lines count as unusable is left open). In generate mode they print for each file the digest defined by the standard or fail, and their output is accepted by their own check mode; no list file makes them crash or read outside their buffers.",
 ["inputs","histories"],"tool x list content built from valid, mismatching, missing, malformed, empty, over-long and truncated lines in every order up to a depth",
 "Tests generate digests of a few files and check unmodified lists.",
 ["gostsum.c","gost12sum.c","gosthash.c","gosthash2012.c"],
 [("list parser and verdict","gostsum.c get_line/main, gost12sum.c get_line/main")],
 (),["exit status and output"])

p("P21","The provider gives the same results as the engine",
 "Each cipher, digest and MAC offered through the OpenSSL 3 provider interface gives the standard's result for every chunking, and its contexts can be copied, re-initialised and sized with the same outcome as a fresh one. Its reported block, key, IV and output sizes match what it produces and its algorithm parameters round-trip.",
 ["inputs","histories"],"provider algorithm x operation sequences up to a depth",
 "The provider is not even linked in the test build (its support library is an absent submodule).",
 ["gost_prov.c","gost_prov_cipher.c","gost_prov_digest.c","gost_prov_mac.c"],
 [("dispatch tables wrapping the engine code","gost_prov_*.c")],
 (),["EVP_CIPHER_fetch/EVP_MD_fetch/EVP_MAC_fetch results"])

p("P22","Released memory holds no key material",
 "When a cipher, MAC or key object is freed or an operation ends, no memory block handed back to the allocator contains the secret key, a derived secret key, or a private key in clear. This holds on success and on error paths.",
 ["histories","fault_sequences"],"operation x context life history x failing call",
 "Tests cannot see released memory.",
 ["gost_crypt.c","gost_grasshopper_cipher.c","gost_omac.c","gost_omac_acpkm.c","gost_pmeth.c","gost_ameth.c","gost_ec_keyx.c","gost_keyexpimp.c"],
 [("cleanup callbacks with cleansing","*_cleanup functions")],
 (),["contents of heap blocks at free time"])

p("P23","Signed and enveloped messages round-trip for every key type and cipher",
 "A CMS or PKCS#7 message signed or encrypted with any offered key type, parameter set and content cipher is verified or decrypted to the original content by the matching key, and X.509 certificates and requests signed with GOST keys verify. PKCS#12 files made with GOST keys open with their password only. A certificate, request or signed message whose signed part or signature is altered never verifies as something else than what was signed, an envelope whose encrypted key or recipient parameters are altered, or that is opened with another key, does not decrypt to other content, and an envelope protected by a MAC whose content or MAC is altered does not decrypt; no damaged message crashes the reader.",
 ["inputs","configurations"],"message kind x key type x parameter set x content cipher x content length x altered byte position x altered ASN.1 element",
 "Tests run whole round trips for several combinations, unaltered, with one content.",
 ["gost_ameth.c","gost_pmeth.c","gost_ec_keyx.c","gost_crypt.c","gost_grasshopper_cipher.c","gost_gost2015.c"],
 [("CMS/PKCS7 control callbacks","gost_ameth.c pkey_ctrl_gost"),("unprotected attributes with CMS MAC","gost_gost2015.c")],
 (),["CMS_*/PKCS7_*/X509_* results"])

p("P24","TLS with GOST suites follows the standards and accepts nothing altered",
 "Two TLS peers using a GOST cipher suite (GOST2001 and GOST2012 with GOST 28147-89 or no encryption, Magma and Kuznyechik with CTR-ACPKM and OMAC), any fitting key type and parameter set, any protocol version the suite allows, with or without a client certificate, complete the handshake, agree on the master secret, and carry data of any length and number of records both ways, also after resumption and renegotiation and with several connections at once. Key transport, client signature, master secret, Finished values, record keys (with TLSTREE rekeying), encryption and MACs on the wire are those of the standards. A handshake altered in any byte never completes on both sides; a record altered, repeated, dropped, reordered, reflected or cut is never delivered as data, and nothing after it; peers with unknown certificates or keys of another type are refused.",
 ["inputs","schedules","histories"],"suite x server key x client key x protocol version x record lengths and counts x altered byte of a record or handshake message x failing random call x order of the steps of two connections",
 "The TLS tests let the two sides talk to each other with a few short messages: an error made alike on both sides, or one that needs many records, another parameter set or an altered byte, does not show.",
 ["gost_pmeth.c","gost_ec_keyx.c","gost_ec_sign.c","gost_crypt.c","gost_grasshopper_cipher.c","gost_omac.c","gost_keyexpimp.c","gost_ameth.c","gost_md.c","gost_md2012.c"],
 [("TLSTREE controls","gost_crypt.c magma_cipher_ctl, gost_grasshopper_cipher.c gost_grasshopper_cipher_ctl, gost_omac.c omac_imit_ctrl"),("key transport","gost_ec_keyx.c pkey_gost_encrypt/pkey_gost_decrypt"),("MAC keys","gost_pmeth.c pkey_gost_mac_*")],
 (),["SSL_* results","bytes on the wire"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
