import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Group arithmetic is exact modulo p and q",
 "For all operands, every modular operation the library offers (addition, subtraction, negation, multiplication of two or of many values, multiply-add, reduction, exponentiation with short and with full-length exponents) returns the mathematically exact result modulo the 4096-bit prime p or the 256-bit prime q, fully reduced (negating zero may return q). This holds at every boundary value (0, 1, q-1, p-1, values with zero or all-ones limbs, and unreduced values between the modulus and the width of the representation). The result of an exponentiation does not depend on whether the base is accelerated with a precomputed fixed-base table, nor on which bases and exponents were used before.",
 ["inputs","histories"],"all operand tuples in the representable range, and all sequences of previously used bases",
 "Tests sample a few constants and random values; carries, borrows and limb patterns that matter occur with probability far below what random testing of fixed cases reaches.",
 ["src/electionguard/group.cpp","src/electionguard/lookup_table.hpp","src/electionguard/facades/Hacl_Bignum256.cpp","src/electionguard/facades/Hacl_Bignum4096.cpp","include/electionguard/constants.h"],
 [("modular add/sub/mul/pow","src/electionguard/group.cpp"),("fixed base tables","src/electionguard/lookup_table.hpp"),("bignum contexts","src/electionguard/facades/Hacl_Bignum4096.cpp")],
 ["return values of the group functions, compared with big-integer arithmetic"])

p("C02","Group elements encode and decode exactly, and out-of-range values are refused",
 "Every element value converts to hexadecimal and to fixed-width big-endian bytes and back to the same value (zero included), and element comparison agrees with numeric order. Constructing an element in checked mode from hexadecimal, bytes or integers succeeds for every value up to the modulus and fails for every value above it or that is too long or not hexadecimal, while in-bounds and subgroup-membership tests accept exactly the values 0<x<modulus and, respectively, those whose q-th power is one. The published constants satisfy their defining relations (p and q prime, p-1 = q*r, g = 2^r mod p generating the order-q subgroup).",
 ["inputs"],"all values, string spellings and byte lengths",
 "Tests use a handful of literals; range and leading-zero behaviour is only wrong on thin slices of the input space.",
 ["src/electionguard/group.cpp","src/electionguard/convert.hpp","include/electionguard/constants.h"],
 [("checked constructors","src/electionguard/group.cpp"),("hex and byte conversion","src/electionguard/convert.hpp")],
 ["element constructors, toHex/toBytes, isInBounds, isValidResidue, comparison operators"])

p("C03","Hashing, nonce derivation and MACs follow the published canonical form",
 "The hash of any sequence of values (elements, integers, strings, byte strings, missing values, nested lists and nested hashable objects) is SHA-256 over the values' canonical texts separated and enclosed by '|', reduced modulo q, exactly as an independent implementation computes it. Nonce sequences derived from a seed and optional header are the corresponding hashes of seed, header and index, the same for every access order, and the keyed MAC equals HMAC-SHA-256 over the counter, message and bit length. An independent verifier must therefore reproduce every hash in the election record bit for bit.",
 ["inputs","histories"],"all value sequences, nestings and lengths, and all access orders of a nonce sequence",
 "Tests compare a few hashes with each other, hardly any with an independent implementation, and no test covers most value kinds, block-boundary lengths or nesting.",
 ["src/electionguard/hash.cpp","src/electionguard/nonces.cpp","src/electionguard/hmac.cpp"],
 [("canonical hash","src/electionguard/hash.cpp"),("nonce sequence","src/electionguard/nonces.cpp"),("keyed mac","src/electionguard/hmac.cpp")],
 ["hash_elems, Nonces, get_hmac results, compared with hashlib/hmac"])

p("C04","ElGamal encryption decrypts to what was encrypted and adds homomorphically",
 "For every key pair, nonce and bit m, encryption yields exactly (g^r, g^m*K^r) mod p, decryption with the matching secret returns m, and decryption never returns 0 or 1 for a ciphertext that encrypts something else under that key. Combining any list of ciphertexts yields the component-wise product, so it encrypts the sum of the plaintexts under the sum of the nonces, independent of order. Unusable inputs (zero nonce, secret below two, empty list) are refused.",
 ["inputs"],"all keys, nonces, messages, and lists of ciphertexts of any length and order",
 "Tests decrypt a few ciphertexts with small fixed keys.",
 ["src/electionguard/elgamal.cpp","src/electionguard/group.cpp"],
 [("elgamal encrypt, add, decrypt","src/electionguard/elgamal.cpp")],
 ["ElGamalKeyPair, elgamalEncrypt, elgamalAdd, decrypt"])

p("C05","Hashed ElGamal round-trips any message and rejects any modification",
 "For every byte message up to the chosen padded length (or any multiple of the block length when unpadded), encrypting and then decrypting with the matching secret and encryption seed returns exactly the message (cut at the maximum when truncation is allowed and refused otherwise), with a ciphertext whose length depends only on the padding choice. The pad, data and tag are exactly those of the specified construction (session key, counter-mode HMAC keystream, tag over pad and data). Decryption fails for every ciphertext whose pad, data, tag or seed was changed in any bit, or whose length or padding is wrong, and never returns altered plaintext.",
 ["inputs"],"all messages and lengths, paddings, keys, seeds, and all single or multiple modifications of a ciphertext",
 "Tests cover a few lengths and one tampered byte.",
 ["src/electionguard/elgamal.cpp","src/electionguard/hmac.cpp"],
 [("hashed elgamal encrypt/decrypt","src/electionguard/elgamal.cpp"),("keyed mac","src/electionguard/hmac.cpp")],
 ["hashedElgamalEncrypt, HashedElGamalCiphertext::decrypt"])

p("C06","Selection proofs: honest proofs verify, invalid proofs never do",
 "For every key, nonce, election hash and selection value 0 or 1, each way of making a selection proof (random, seeded, from precomputed values) yields a proof that satisfies all published verification equations and that the library accepts; a value other than 0 or 1 is refused, and the secret exponent behind a proof's commitments never follows from published values. The library's verifier accepts a proof only if an independent verifier does: all values in range and in the order-q subgroup, challenge equal to the hash of exactly the election hash, ciphertext and commitments, challenges summing to it, and all four exponentiation equations holding. In particular no proof is accepted for another ciphertext, key or election hash, nor after any component is changed, exchanged, or moved outside its range or subgroup.",
 ["inputs"],"all honest statements and all forged, altered, or partially consistent proofs",
 "Tests make a few honest proofs and one or two invalid ones; each verification equation can only be shown necessary by a forgery that satisfies all the others.",
 ["src/electionguard/chaum_pedersen.cpp","src/electionguard/hash.cpp","src/electionguard/group.cpp"],
 [("disjunctive proof make and verify","src/electionguard/chaum_pedersen.cpp")],
 ["DisjunctiveChaumPedersenProof::make*, isValid"])

p("C07","Contest-limit proofs: honest proofs verify, invalid proofs never do",
 "For every key, aggregate nonce, election hash and constant, the contest proof made for a ciphertext that encrypts that constant satisfies all published verification equations and is accepted, and its secret commitment exponent does not follow from published values. The verifier accepts a proof only if an independent verifier does: all values in range and in the order-q subgroup, challenge equal to the hash of exactly the election hash, ciphertext and commitments, and both exponentiation equations holding for the stated constant. In particular a proof is never accepted for another constant, ciphertext, key or election hash, nor after any component is changed.",
 ["inputs"],"all honest statements and all forged, altered, or partially consistent proofs, and all constants",
 "Tests make a few honest proofs with small constants.",
 ["src/electionguard/chaum_pedersen.cpp","src/electionguard/hash.cpp","src/electionguard/group.cpp"],
 [("constant proof make and verify","src/electionguard/chaum_pedersen.cpp")],
 ["ConstantChaumPedersenProof::make, isValid"])

p("C08","Ballot encryption records exactly the voter's choices",
 "For every valid election description and plaintext ballot, the encrypted ballot contains exactly the contests of the ballot's style and, for each, exactly its listed selections plus as many placeholders as seats; each selection decrypts to the vote the voter gave it (0 when not mentioned) and the contest total decrypts to the number of seats, placeholders filling undervotes. An overvoted contest encrypts no real votes and only filled placeholders, while the contest's extra data decrypts to the overvote record and the write-in texts of chosen write-in candidates (cut to the fixed size). The same inputs through the one-shot functions, the mediator and the per-contest functions give the same votes.",
 ["inputs","configurations"],"all manifests (numbers of contests, selections, seats, styles, write-ins, sequence orders) and all plaintext ballots",
 "Tests encrypt a few fixed ballots and check that proofs verify, which a proof of a wrong vote also does; they rarely decrypt.",
 ["src/electionguard/encrypt.cpp","src/electionguard/ballot.cpp","src/electionguard/manifest.cpp","src/electionguard/elgamal.cpp"],
 [("ballot, contest and selection encryption","src/electionguard/encrypt.cpp"),("placeholder generation","src/electionguard/manifest.cpp")],
 ["encryptBallot/encryptContest/encryptSelection/EncryptionMediator output, decrypted by an independent implementation"])

p("C09","Ballots and elections that do not fit together are refused",
 "A ballot with an unknown style, a selection vote above one that is not an overvote, a contest or selection given with the wrong identifier, or a contest with more selections than the description, is refused with an error and no ciphertext. A mediator is refused for a manifest whose hash differs from the context's, and a failing self-check of the produced proofs (for example a public key outside the subgroup) is reported as an error whenever verification was requested. After a refusal the library and the mediator stay usable: the next valid ballot is encrypted as if the refused one had never been presented, continuing the same chain of ballot codes.",
 ["inputs","histories"],"all mismatched inputs and all histories mixing refused and accepted ballots",
 "Tests contain one or two malformed ballots and never continue after one.",
 ["src/electionguard/encrypt.cpp","src/electionguard/ballot.cpp"],
 [("input validation and self check","src/electionguard/encrypt.cpp"),("plaintext validity","src/electionguard/ballot.cpp")],
 ["errors and results of the encryption functions and the mediator"])

p("C10","Verification accepts every honest ballot and rejects every tampered one",
 "An encrypted ballot produced by the library verifies against its manifest hash, public key and election hash, and its selection, contest and ballot hashes equal those an independent implementation computes from the identifiers, description hashes and ciphertexts. Verification rejects the ballot when any ciphertext, proof component, stored hash, accumulated total, description hash, identifier or the order, number or assignment of selections or contests is changed anywhere in it, including when the change is hidden behind repeated identifiers or equal sequence numbers, unless every proof and hash above the change was honestly recomputed, and when it is checked against another manifest hash, key or election hash. A verdict never depends on other parts of the ballot masking a bad one (the ballot code, its seed, the timestamp, the style, the extra data and the placeholder flags are not inputs of the library's ballot verification).",
 ["inputs"],"all ballots, every position in a ballot, and all modifications (swap, duplicate, drop, replace, re-encrypt, re-hash)",
 "Tests tamper with one or two fields of one ballot.",
 ["src/electionguard/ballot.cpp","src/electionguard/chaum_pedersen.cpp"],
 [("selection, contest and ballot verification","src/electionguard/ballot.cpp"),("hash computation","src/electionguard/ballot.cpp")],
 ["isValidEncryption of ballot, contest and selection, on ballots rebuilt from tampered serialisations"])

p("C11","Ballot codes form an unbroken, reproducible chain",
 "The device hash is the hash of the device, session, launch and location values, the first ballot code of a mediator is computed from it, and each ballot code is the hash of the previous code, the ballot's timestamp and its ballot hash. In every history of a mediator the stored seed of each ballot equals the previous ballot's code, so removing, reordering or altering any ballot breaks the chain; without a seed, the manifest hash is used. A given timestamp is kept as given, and without one the current time is used.",
 ["histories","inputs"],"all sequences of ordinary and compact encryptions, failures in between, and all device values and timestamps",
 "Tests encrypt one or two ballots per device.",
 ["src/electionguard/ballot_code.cpp","src/electionguard/encrypt.cpp","src/electionguard/ballot.cpp"],
 [("ballot code hash","src/electionguard/ballot_code.cpp"),("chaining","src/electionguard/encrypt.cpp")],
 ["ballot codes, seeds and timestamps of the encrypted ballots"],
 [dict(name="ballot code seed",meaning="code of the last ballot encrypted by the mediator",where="src/electionguard/encrypt.cpp")])

p("C12","Encryption is reproducible from its nonce and never reuses randomness",
 "Without precomputed values, encrypting the same ballot with the same nonce and inputs always yields the same ciphertexts, ballot hash and code, and every selection, contest and contest-proof nonce equals the value derived by the published rule from manifest hash, ballot identifier, description hash and sequence order, so the recorded nonces open the recorded ciphertexts. Across selections, contests, ballots and proofs, no two ciphertexts or proof commitments ever share a nonce, and different ballot identifiers, nonces or contests give different nonces. When no nonce is given a fresh random one is drawn each time.",
 ["inputs","histories"],"all ballots, nonces, and all sequences of encryptions in a process",
 "Tests compare two encryptions once; reuse shows only across a population of ciphertexts.",
 ["src/electionguard/encrypt.cpp","src/electionguard/nonces.cpp","src/electionguard/ballot.cpp","src/electionguard/chaum_pedersen.cpp"],
 [("nonce derivation","src/electionguard/encrypt.cpp")],
 ["nonces, pads and proof commitments of encrypted ballots"])

p("C13","Precomputed values are correct, used at most once, and change nothing observable",
 "Every precomputed value handed out satisfies its defining equations for the public key it was generated for, and each is handed out at most once, under any interleaving of filling, stopping, resizing, emptying and consuming. Ballots encrypted to the key the buffers were filled for, while they are full, partly filled or running empty, decrypt to the same votes, record nonces that open their ciphertexts, and verify exactly like ballots encrypted without them. Filling stops at the configured size and after a stop request, and emptied buffers hand out nothing.",
 ["schedules","histories","inputs"],"all interleavings of producers, consumers and control calls, and all buffer levels during an encryption",
 "Tests fill the buffer once and consume from one thread.",
 ["src/electionguard/precompute_buffers.cpp","include/electionguard/precompute_buffers.hpp","src/electionguard/encrypt.cpp","src/electionguard/chaum_pedersen.cpp","src/electionguard/elgamal.cpp"],
 [("buffer context","src/electionguard/precompute_buffers.cpp"),("use in encryption","src/electionguard/encrypt.cpp")],
 ["values popped from the buffers, ballots encrypted while they are in use"],
 [dict(name="queues",meaning="unused precomputed values",where="src/electionguard/precompute_buffers.cpp")])

p("C14","Serialisation loses nothing: every object survives every format",
 "For every election object that can be serialised (manifest, internal manifest, context, device, plaintext, encrypted, submitted and compact ballots) and every format it offers (JSON, BSON, MessagePack), reading back what was written gives an object with the same content, the same hashes, the same verification verdict and the same serialisation, for all contents including empty and absent optional fields, leading-zero values, Unicode text and unusual sequence orders (integers below 2^63; keys of extra data without NUL characters). All formats of one object describe the same content. Writing an encrypted ballot with nonces preserves every nonce.",
 ["inputs","configurations"],"all object contents and all formats and format combinations",
 "Tests round-trip a few simple objects; loss occurs on particular values (leading zero bytes, absent optionals).",
 ["src/electionguard/serialize.hpp","src/electionguard/ballot.cpp","src/electionguard/manifest.cpp","src/electionguard/ballot_compact.cpp","src/electionguard/election.cpp"],
 [("serialisers","src/electionguard/serialize.hpp"),("hex conversion","src/electionguard/convert.hpp")],
 ["toJson/fromJson, toBson/fromBson, toMsgPack/fromMsgPack of every object"])

p("C15","Published ballots and logs reveal no secrets",
 "An encrypted ballot serialised without the explicit request for nonces, and every serialised submitted ballot, contains no nonce of the ballot, its contests or selections, no plaintext vote, and no write-in text, in any format and encoding; the data that is published is independent of the votes except through the ciphertexts and proofs. At the log levels an operator uses (info and above), log output and error texts during key generation, encryption, verification and decryption contain no secret key, nonce, or plaintext write-in.",
 ["inputs","configurations"],"all ballots, formats and log levels from info upwards, including failing encryptions",
 "Tests never search serialised or logged output for secrets.",
 ["src/electionguard/serialize.hpp","src/electionguard/encrypt.cpp","src/electionguard/log.cpp","src/electionguard/ballot.cpp"],
 [("nonce suppression","src/electionguard/serialize.hpp"),("log calls","src/electionguard/log.cpp")],
 ["serialised bytes and captured log output, searched for every secret of the run in hexadecimal, raw and base64 form"])

p("C16","The manifest hash binds the election, and derived descriptions agree with it",
 "The hash of a manifest and of each of its parts equals what an independent implementation computes, stays the same when the manifest is copied, serialised or reloaded, and changes when any hashed attribute changes (election scope, type, dates, names, units, parties, contests, selections, styles, their identifiers, order or limits). The internal description used for encryption has the same hash, contests, selections and styles, adds per contest exactly as many placeholders as seats with unused distinct identifiers and sequence numbers, and returns for each style exactly the contests of its districts. A manifest is judged valid exactly when its identifiers are present and unique, its references resolve, and its contests' limits are consistent.",
 ["inputs"],"all manifests (sequence orders below 2^63) and all single-attribute changes of them",
 "Tests hash a few manifests and check a few validity rules.",
 ["src/electionguard/manifest.cpp","src/electionguard/serialize.hpp"],
 [("description hashes","src/electionguard/manifest.cpp"),("internal manifest","src/electionguard/manifest.cpp"),("validity","src/electionguard/manifest.cpp")],
 ["crypto_hash, InternalManifest, isValid"])

p("C17","A compact ballot expands to exactly the ballot that was encrypted",
 "For every ballot, compacting and then expanding it with the same manifest and context yields an encrypted ballot with the same ciphertexts, nonces, description and contest hashes, ballot hash, code, seed and timestamp as the full encryption, and it verifies. The compact plaintext keeps every vote and write-in in manifest order and expands back to the same plaintext ballot, and a compact ballot is neither cast nor spoiled until it is marked so and keeps its mark. A compact ballot whose number of selections does not fit its style, or whose votes, identifier, nonce, seed, timestamp or code were altered, is refused.",
 ["inputs","histories"],"all ballots, styles and manifests, with and without serialisation in between",
 "Tests expand one fixed ballot.",
 ["src/electionguard/ballot_compact.cpp","src/electionguard/encrypt.cpp","src/electionguard/serialize.hpp"],
 [("compress and expand","src/electionguard/ballot_compact.cpp")],
 ["CompactPlaintextBallot, CompactCiphertextBallot, expand functions"])

p("C18","No input corrupts memory or kills the process",
 "Whatever bytes, text, numbers or documents are given to the library's public entry points (element constructors and conversions, arithmetic, hashing, decryption, all deserialisers, validation and encryption of whatever was deserialised), the call returns a result or reports an error (enumerations among the declared values, numbers of seats below 60, memory not exhausted). It never reads or writes outside its objects, uses freed or uninitialised memory, executes undefined behaviour, leaks the memory it allocated, or ends the process.",
 ["inputs","histories"],"all byte strings and documents, and all call sequences on the objects made from them",
 "Tests feed well-formed inputs to a build without sanitizers, where an out-of-bounds read is invisible.",
 ["src/electionguard/group.cpp","src/electionguard/serialize.hpp","src/electionguard/convert.hpp","src/electionguard/ballot.cpp","src/electionguard/manifest.cpp","src/electionguard/random.hpp"],
 [("bounds checks and exceptions","src/electionguard/group.cpp"),("deserialisers","src/electionguard/serialize.hpp")],
 ["sanitizer reports and process status of a fuzzed, instrumented build"])

p("C19","The C interface gives the same results as the C++ one and respects ownership",
 "Every C entry point returns the same values as the C++ operation it stands for, for all inputs (NUL-terminated text, handles of the declared type, dates in milliseconds). Every failure is reported as a non-success status, no exception crosses the boundary, and the output handle is not usable-looking garbage. Objects created through the interface stay valid until they are freed exactly once by their own free function, inputs are never freed, changed or emptied (except the parts handed to a constructor that takes them over, which are only freed afterwards), and create-use-free of any handle neither leaks nor touches freed memory.",
 ["inputs","histories"],"all call sequences of the C interface with valid and invalid arguments",
 "The C tests cover a few functions, never compare with C++ results and run without leak or use-after-free detection.",
 ["src/electionguard/facades","include/electionguard"],
 [("facades","src/electionguard/facades")],
 ["values, status codes and sanitizer/leak reports of C call sequences"])

p("C20","Concurrent use is race-free and gives sequential results",
 "Threads that encrypt, verify, hash, serialise, exponentiate and fill or use the precompute buffers at the same time on separate objects, or read the same immutable objects (manifest, context, keys, constants, ballots; a mediator is not shared), cause no data race, deadlock or crash, including at first use of every lazily created shared structure. Each result equals what the same call returns sequentially. Tasks given to the internal scheduler run exactly once, each delivers its own result or exception, and queued items are popped exactly once in order per producer.",
 ["schedules"],"all interleavings of threads in the library, including first-use races",
 "Tests are single threaded.",
 ["src/electionguard/lookup_table.hpp","src/electionguard/async.hpp","src/electionguard/log.cpp","src/electionguard/group.cpp","src/electionguard/precompute_buffers.cpp"],
 [("table registry","src/electionguard/lookup_table.hpp"),("task queue and pool","src/electionguard/async.hpp"),("logger instance","src/electionguard/log.cpp")],
 ["ThreadSanitizer reports and results of multi-threaded workloads with injected delays"],
 [dict(name="fixed base table registry",meaning="tables per base, created on first use",where="src/electionguard/lookup_table.hpp")])

p("C21","Copies are equal and independent",
 "For every copyable object (elements, key pairs, ciphertexts, proofs, plaintext, encrypted and submitted ballots, descriptions), copying, cloning, assigning or moving it, where its interface offers that, gives an object with exactly the same content, hashes and verdicts. The source of a copy is left unchanged, the copy stays usable when the source is destroyed or overwritten, and no later operation on one affects the other.",
 ["inputs","histories"],"all objects and all sequences of copy, clone, assign, move and destroy",
 "Tests hardly copy objects, and never look at the source afterwards.",
 ["src/electionguard/elgamal.cpp","src/electionguard/chaum_pedersen.cpp","src/electionguard/ballot.cpp","src/electionguard/group.cpp","src/electionguard/manifest.cpp","src/electionguard/precompute_buffers.cpp"],
 [("clone and copy functions","src/electionguard/ballot.cpp")],
 ["complete observable content of source and copy before and after each operation"])

p("C22","Secret elements are wiped from memory when destroyed",
 "When a group element is destroyed, the storage that held its value no longer contains any of it, so no secret key, nonce or exponent remains in freed heap memory in its binary form. The temporaries of conversions, random draws, derived nonces and fixed-base powers, and after a hashed encryption or decryption the session, keystream and tag keys, are likewise gone from freed memory. This holds for every element value and every path that destroys it, including exceptions.",
 ["inputs","histories"],"all values and all ways an element is destroyed",
 "Unit tests cannot look at memory after it was freed.",
 ["src/electionguard/group.cpp","src/electionguard/elgamal.cpp","src/electionguard/hmac.cpp"],
 [("wiping destructor","src/electionguard/group.cpp"),("wiping of temporaries","src/electionguard/elgamal.cpp")],
 ["heap blocks at the moment they are freed, seen by an interposed allocator"])

p("C23","Random values are fresh, in range and unbiased",
 "Every random element drawn is in range, no two draws in any set of processes or threads repeat, and every bit position of the value takes both values with equal frequency up to statistical error. Randomness comes from the operating system's generator on every draw, and a failing or short entropy source is reported as an error instead of yielding a predictable value.",
 ["histories","fault_sequences","schedules"],"all draws in all processes and threads, and all failures of the entropy source",
 "Tests draw a value or two and check the range.",
 ["src/electionguard/random.hpp","src/electionguard/group.cpp","src/karamel/Lib_RandomBuffer_System.c"],
 [("random bytes","src/electionguard/random.hpp"),("rand_q, rand_p","src/electionguard/group.cpp")],
 ["populations of drawn values; drawn values and errors under injected entropy failures"])

p("C24","The election context commits to the whole election",
 "The base hash of a context is the hash of p, q, g, the number of guardians, the quorum and the manifest hash, and the extended base hash is the hash of that and the guardians' commitment hash, as an independent implementation computes them, by every way of making a context (elements or hexadecimal, with or without configuration and extra data). All inputs are kept exactly as given, extra data and configuration do not influence the hashes, and any change of a hashed input changes the extended base hash. The context survives serialisation unchanged.",
 ["inputs","configurations"],"all contexts and all ways of constructing them",
 "Tests make one context with one set of values.",
 ["src/electionguard/election.cpp","src/electionguard/serialize.hpp","src/electionguard/facades/election.cpp"],
 [("context construction","src/electionguard/election.cpp")],
 ["getters and hashes of contexts made in every way, C and C++"])

p("C25","Results do not depend on history, and reading changes nothing",
 "Every call whose result is not random by definition (arithmetic, hashing, encryption under a given nonce, proof making from a seed, verification, decryption, serialising, parsing, manifest queries, validity verdicts, compact expansion) gives for equal arguments the same answer in a fresh process, after any history of other calls, whether these succeeded, were refused or failed, and however often it is repeated. In particular objects of the same identifier but different content, other keys, elections and accelerated bases used before have no influence on it. Verifying, hashing, serialising, querying, encrypting from and decrypting objects leave their complete content unchanged.",
 ["inputs","histories"],"all histories of calls in one process",
 "Tests run each operation once or twice in one short process, so state that leaks from one operation into another is not seen.",
 ["src/electionguard/lookup_table.hpp","src/electionguard/group.cpp","src/electionguard/ballot.cpp","src/electionguard/encrypt.cpp","src/electionguard/manifest.cpp","src/electionguard/nonces.cpp"],
 [("fixed-base tables","src/electionguard/lookup_table.hpp"),("cached text of elements","src/electionguard/group.cpp"),("verification of ballots","src/electionguard/ballot.cpp")],
 ["answers of repeated calls in long histories and in fresh processes; complete dumps of the objects read"])
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len([s for s in re.split(r'(?<=[a-z0-9\)])\.\s+(?=[A-Z])|\.$',x['statement']) if s.strip()])
    assert n<=3,(x['id'],n)
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
