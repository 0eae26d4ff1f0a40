import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
KAT="The tests compare a handful of known-answer vectors and random round trips; "
def cipher(id,name,std,keys,file,mech,extra=""):
    p(id,f"{name}: conforms to {std}; decryption inverts",
      f"For every key of every supported size ({keys}) and every block, encrypting the block yields exactly the ciphertext defined by {std}, and decrypting any ciphertext block under the same key yields the plaintext block it came from. {extra}".strip(),
      ["inputs","configurations"],f"all keys of each supported size ({keys}), all blocks, each implementation path that is compiled in",
      KAT+"a wrong table entry, key-schedule word or round key that those few keys and blocks do not touch passes, and a consistent error in both directions survives every round-trip test.",
      [file] if isinstance(file,str) else file,mech)
cipher("C01","AES","FIPS-197","128, 192, 256 bits",["src/cipher/aes.c","src/cipher/aes_x86.c"],
  [("key schedule","RaAesInit"),("table rounds","RaAesEncryptBlock/RaAesDecryptBlock in aes.c"),("AES-NI rounds","RaAesEncryptBlock_x86/RaAesDecryptBlock_x86")],
  "This holds for the portable implementation and for the hardware-accelerated one that is selected on processors that support it.")
cipher("C02","DES and Triple-DES","FIPS 46-3","single, two-key and three-key","src/cipher/des.c",[("key schedule","RaDesInit"),("block functions","des.c Encrypt/Decrypt block functions")],
  "The parity bits of the key do not influence the result.")
cipher("C03","SEED","RFC 4269","128 bits","src/cipher/seed.c",[("key schedule","RaSeedInit"),("rounds","seed.c block functions")])
cipher("C04","ARIA","RFC 5794","128, 192, 256 bits","src/cipher/aria.c",[("key schedule","RaAriaInit"),("rounds","aria.c block functions")])
cipher("C05","Blowfish","the published Blowfish cipher","every key length the API accepts","src/cipher/blowfish.c",[("key schedule","RaBlowfishInit"),("rounds","blowfish.c block functions")])
p("C06","RC4 produces the standard keystream at every position, in any chunks",
 "For every key of 1 to 256 bytes, the n-th output byte is the n-th input byte XORed with the n-th byte of the standard RC4 keystream, however the data is divided over successive calls. Decryption is the same operation, and each call reports exactly the number of bytes it produced.",
 ["inputs","histories"],"all keys, all data, all divisions of the data into calls",
 KAT+"they never reach keystream positions beyond a few hundred bytes nor arbitrary chunk sequences.",["src/cipher/rc4.c"],[("key set-up","RaRc4Init"),("keystream","RaRc4Encrypt/RaRc4Decrypt")])
p("C07","ECB, CBC, CFB and OFB compute the defined chaining for messages of any length",
 "For every block cipher, key, initial vector and message of any number of whole blocks, the ECB, CBC, CFB (full-block) and OFB results equal the mode definitions of SP 800-38A, in both directions, and after each call the vector that can be read back is the chaining value that continues the message. Setting the vector restarts the mode: nothing of an earlier message influences what follows.",
 ["inputs","histories","configurations"],"all messages and vectors, all modes, both directions, both block sizes, any number of blocks",
 "The mode tests use one short message per mode; a chaining error that shows only from a later block on, or only for one mode and direction, is outside them.",
 ["src/cipher/block_cipher.c","src/cipher/block_cipher.h"],[("chaining","RaBlockCipherEncryptBlock/RaBlockCipherDecryptBlock"),("IV","RaBlockCipherSetIV/GetIV")])
p("C08","Splitting a message over calls never changes the bytes nor the counts",
 "However a message is divided over successive encryption (or decryption) calls, the concatenated output is the same as for one call, each call reports exactly the number of bytes it wrote, and that number is the largest multiple of the block size available from what was supplied and not yet returned. No call writes outside the reported bytes of the output buffer.",
 ["inputs","histories"],"all call sequences with all chunk lengths, including zero and lengths far above one block",
 "Tests call with one or two chunkings; the carry-over between calls depends on the whole history of chunk lengths.",
 ["src/cipher/block_cipher.c"],[("carry-over buffer","RaBlockCipherEncrypt/RaBlockCipherDecrypt")])
p("C09","Padding is exact: round trip restores the message, bad padding removes nothing",
 "Finishing an encryption with PKCS#7 padding appends between one and block-size bytes each holding that count, zero padding appends zeros only up to the next block boundary, and no padding discards an incomplete block. Finishing a decryption with PKCS#7 removes exactly a well-formed padding found at the end of what that call returns and removes nothing when it is malformed, so a padded message comes back unchanged, and a finished object starts the next message with an empty buffer.",
 ["inputs","histories"],"all message lengths and contents, all final-block contents including every malformed padding",
 "Tests pad a few lengths and never feed malformed padding; the interaction of the last chunk length with buffered bytes is a history property.",
 ["src/cipher/block_cipher.c"],[("padding","RaBlockCipherEncryptFinal"),("unpadding","RaBlockCipherDecryptFinal")])
def digest(id,name,std,files,mech,extra=""):
    p(id,f"{name} equals {std} for every message and every chunking",
     f"For every message of any length, and however it is divided over successive update calls (including empty ones), the result equals the {name} digest defined by {std}. {extra}".strip(),
     ["inputs","histories"]+(["configurations"] if extra else []),"all messages of all lengths, all divisions into calls, each compiled implementation path",
     KAT+"padding boundaries, long-message length encoding and odd chunk sequences are sampled at a few points only.",files,mech)
digest("C10","MD2","RFC 1319",["src/digest/md2.c"],[("compression and checksum","RaMd2Process"),("buffering","RaMd2Update"),("padding","RaMd2Final")])
digest("C11","MD4","RFC 1320",["src/digest/md4.c"],[("compression","RaMd4Process"),("buffering","RaMd4Update"),("padding","RaMd4Final")])
digest("C12","MD5","RFC 1321",["src/digest/md5.c"],[("compression","RaMd5Process"),("buffering","RaMd5Update"),("padding","RaMd5Final")])
digest("C13","SHA-1","FIPS 180-4",["src/digest/sha1.c","src/digest/sha1_x86.c"],[("compression","RaSha1Process"),("SHA-NI compression","sha1_x86.c"),("buffering","RaSha1Update"),("padding","RaSha1Final")],
  "This holds for the portable compression and for the hardware-accelerated one.")
digest("C14","SHA-2 (256, 512)","FIPS 180-4",["src/digest/sha2.c","src/digest/sha2_x86.c"],[("compression","RaSha256Process/RaSha512Process"),("SHA-NI compression","sha2_x86.c"),("buffering","RaSha2Update"),("padding","RaSha2Final")],
  "This holds for both digest sizes and for the portable and the hardware-accelerated compression.")
digest("C15","HAS-160","TTAS.KO-12.0011/R1",["src/digest/has160.c"],[("compression","RaHas160Process"),("buffering","RaHas160Update"),("padding","RaHas160Final")])
p("C16","Big-number addition, subtraction, comparison and copying are exact",
 "For all integers of any size and sign, addition, subtraction and doubling yield the exact sum or difference, comparison yields the exact order (zero has one value whatever its sign), and copying preserves the value. The result is the same when the destination is one of the operands, and operands that are not destinations keep their value.",
 ["inputs","configurations"],"all operand values, lengths and signs, all aliasings of destination and operands",
 "Tests add a few random numbers; carries that run across several words, cancelled leading words and sign changes have negligible probability there.",
 ["src/com/bignumber.c"],[("addition","BnAdd/_BnAdd"),("subtraction","BnSub/_BnSub"),("comparison","BnCmp")])
p("C17","Big-number multiplication and squaring are exact",
 "For all integers of any size and sign, the product equals the mathematical product with the right sign, and squaring equals multiplication of the number by itself. The operands keep their value.",
 ["inputs"],"all operand values, lengths and signs",
 "Random operands practically never exercise rare carry propagation between partial products.",
 ["src/com/bignumber.c"],[("multiplication","BnMul"),("squaring","BnSqr")])
p("C18","Big-number division and remainder satisfy a = q*b + r with |r| < |b|",
 "For every dividend and every non-zero divisor, division yields the quotient rounded down and the remainder that go together: dividend = quotient * divisor + remainder, and the remainder is smaller in magnitude than the divisor and never has the opposite sign. The remainder operation alone yields the same remainder.",
 ["inputs","configurations"],"all dividends and non-zero divisors, any lengths and signs",
 "Quotient-digit correction in long division happens for a vanishing fraction of random operands.",
 ["src/com/bignumber.c"],[("long division","BnDiv"),("remainder","BnMod")])
p("C19","Shifts and bit lengths are exact powers-of-two arithmetic",
 "Shifting left by n bits multiplies the magnitude by 2^n and shifting right divides it by 2^n dropping the fraction, for every number and every n, keeping the sign. The reported bit length is the number of significant bits.",
 ["inputs"],"all numbers, all shift distances including multiples of the word size and distances beyond the length",
 "Tests shift by few distances; word-multiple shifts and shifting everything out are corner cases.",
 ["src/com/bignumber.c"],[("shift","BnShiftL/BnShiftR"),("bit length","BnGetBitLength")])
p("C20","Arithmetic with machine-word operands equals the general arithmetic",
 "Adding, subtracting, multiplying, dividing or comparing a big number with a machine integer, and setting it from one, gives exactly the value (and remainder) that integer arithmetic defines, for every number and every machine integer including negative ones and the extreme values, across zero in both directions.",
 ["inputs"],"all big numbers and all machine-word values, signed and unsigned",
 "Tests use small positive words away from zero crossings and extreme values.",
 ["src/com/bignumber.c"],[("add/sub word","BnAddInt, BnSubInt, BnAddUInt, BnSubUInt"),("mul/div word","BnMulInt, BnDivInt, BnMulUInt, BnDivUInt, BnModUInt")])
p("C21","Byte-array conversion of big numbers is lossless",
 "Reading a byte array as an unsigned or two's-complement big-endian integer gives exactly that integer, whatever its leading bytes; writing a number to bytes gives its shortest (or its fixed-length, zero- or sign-extended) encoding, and reading that back gives the number. A buffer that is too small is reported and not overrun.",
 ["inputs"],"all byte strings of all lengths, all numbers, all buffer lengths",
 "Tests convert a few keys; sign-boundary values and buffer-size edges are not covered.",
 ["src/com/bignumber.c"],[("read","BnSetByteArray/BnSetUByteArray"),("write","BnToByteArray/BnToFixedByteArray")])
p("C22","Big-number operations never write outside their operands' storage",
 "Whatever the values, signs and capacities of the numbers passed, every big-number operation reads and writes only within the storage of its operands; when a result does not fit in the destination the operation reports an error instead of writing past it.",
 ["inputs","configurations"],"all values and all combinations of operand lengths and destination capacities",
 "Tests always pass generously sized destinations and run without memory checking.",
 ["src/com/bignumber.c"],[("capacity checks","max_length tests in every operation")])
p("C23","GCD and extended GCD return the divisor and valid Bezout coefficients",
 "For all non-negative integers not both zero, the greatest-common-divisor operation yields their greatest common divisor, and the extended form yields in addition coefficients a and b with a*m + b*n = gcd(m, n) (reduced to the non-negative range when the unsigned form is requested). In particular, for coprime operands it yields the modular inverse used for private keys.",
 ["inputs"],"all pairs of non-negative operands of any length",
 "Tests check a few random pairs.",["src/com/gcd.c"],[("gcd","GetGCD"),("extended gcd","GetGCDEx")])
p("C24","Modular exponentiation equals a^b mod N for every odd modulus",
 "For every odd modulus N > 1, every non-negative base and exponent, the modular exponentiation yields a^b mod N, fully reduced into 0..N-1. One exponentiation leaves no trace that could change the result of the next with the same modulus object.",
 ["inputs","histories"],"all odd moduli, all bases (also above N) and exponents (also zero), any sequence of exponentiations",
 "Tests use a few random moduli; the conditional final subtraction and window handling of exponents with long zero runs are rare.",
 ["src/com/montexpmod.c"],[("reduction","MontREDC"),("exponentiation","RaMontExpMod")])
p("C25","RSA encryption and decryption, signing and verifying are inverse",
 "For every valid key pair and every message below the modulus, decrypting the encryption gives back the message, signing followed by verification accepts, and verification rejects any other (message, signature) pair whose signature does not decode to that message. Messages that are out of range are refused.",
 ["inputs"],"all valid keys, all messages",
 "Tests use a few generated keys and one message each.",["src/pk/rsa.c"],[("encrypt/decrypt","RaRsaEncrypt/RaRsaDecrypt"),("sign/verify","RaRsaSign/RaRsaVerify")])
p("C26","Key parsing is memory-safe on arbitrary bytes",
 "For every byte string of every length, reading it as a public or private key either yields a key or reports an error; it never reads outside the given bytes, never writes outside its own storage, never recurses or loops without bound and never crashes.",
 ["inputs"],"all byte strings of all lengths",
 "Tests parse a few well-formed keys only.",["src/pk/asn1.c","src/pk/rsa.c"],[("DER walk","asn1.c"),("key building","RaRsaCreateKeyFromByteArray")])
p("C27","Serialised keys read back as the same key, in valid DER",
 "Writing any key as public or private DER and reading it back yields a key with the same numbers; the written bytes are the definite-length DER structure of the standard with minimal lengths, and the reported size is exact. A buffer that is too small is reported and not overrun.",
 ["inputs"],"all keys of all sizes, all buffer lengths",
 "Tests serialise one key size; length-encoding boundaries (127/128, 255/256 bytes) and leading-bit padding depend on the values.",
 ["src/pk/rsa.c","src/pk/asn1.c"],[("writer","RaRsaPrivKeyToByteArray/RaRsaPubKeyToByteArray")])
p("C28","The seeded generator is deterministic and independent of request sizes",
 "Two generators created with the same algorithm and seed return the same byte stream, and the bytes returned for a total request do not depend on how it is divided over calls. Integers drawn from a range always lie inside the range, whatever its bounds, and drawn fractions lie in the documented interval.",
 ["inputs","histories"],"all seeds, all sequences of request sizes, all ranges",
 "Tests draw a few values.",["src/com/random.c"],[("byte stream","RaRandomBytes"),("ranges","RaRandomInt, RaRandom")])
p("C29","Random big numbers have exactly the requested size",
 "A random number of n bits is non-negative and below 2^n and can take every such value; the odd variant is odd and below 2^n, and the RSA variant has exactly n bits with its top bits set and is odd; prime generation returns a number of exactly the requested bit length.",
 ["inputs","configurations"],"all bit lengths, all generator states",
 "Tests request a few round sizes; a wrong mask for particular sizes only lowers entropy or length silently.",
 ["src/com/bignumber.c","src/com/prime.c"],[("masking","BnGenRandom, BnGetRandomOdd, BnGetRandomRSA")])
p("C30","Prime numbers are never rejected and small composites never accepted",
 "The primality test accepts every prime number, terminates for every input, and rejects every even number above two and every number with a small prime factor other than itself.",
 ["inputs"],"all non-negative integers",
 "Tests check a handful of primes.",["src/com/prime.c"],[("trial division","prime.c"),("Miller-Rabin","CheckMillerRabin")])
p("C31","Destroying or finishing an object leaves no key material behind",
 "When a cipher, digest, random-generator or key object is destroyed, all bytes of key schedule, chaining value and buffered data in its storage have been overwritten before the storage is released.",
 ["inputs","histories"],"all objects and all histories before destruction",
 "Tests never inspect released storage.",["src/cipher","src/digest","src/com/random.c","src/com/bignumber.c"],[("wiping","the Destroy functions, BnClearFree")])
p("C32","Failed allocations are reported, without crash or leak",
 "Whichever memory allocation fails during any operation, the operation reports the failure to its caller, does not crash, and releases everything it had allocated.",
 ["fault_sequences"],"every operation, every subset of failing allocations",
 "Tests never fail an allocation.",["src/com","src/pk","src/cipher","src/digest"],[("error paths","_EXIT labels")])
p("C33","Independent objects do not influence each other",
 "Operations on one cipher, digest or generator object never change the behaviour of another object: interleaving the calls of several objects in any order gives each the result it would give alone.",
 ["histories","schedules"],"all interleavings of calls on any number of objects",
 "Tests use one object at a time.",["src/cipher","src/digest","src/com/random.c"],[("no shared mutable state","file-scope variables"),("frame","every function's write set")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
