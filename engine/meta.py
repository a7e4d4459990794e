#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the LLVM IR (custom analyser)'
P = []


def p(id, title, statement, over, qtext, why, files, mech, tech=AI, note='', state=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], observe_at=observe or ['public API'], hook_needed=None)),
              tech, note))


LIB = ['lib/block', 'lib/hash', 'lib/mac', 'lib/stream', 'lib/ae', 'lib/pbkdf2.c', 'lib/scrypt.c', 'lib/pkcs7.c', 'lib/random.c', 'lib/memory.c']
RET = 'Values of all bytes are abstract; lengths are the enumerated ones in engine/jobs.py (boundaries of every block, key and output size). '

p('M01', 'Every memory access stays inside the object it belongs to',
  'For every supported algorithm, key length, salt, iv, header, message and output length and every content of them, the library reads and writes only inside the buffers the caller passed (with the lengths passed) and inside its own allocations and tables, and never through a null or invalid pointer.',
  ['inputs', 'configurations'], 'all byte contents; every key length boundary; message and output lengths around every block boundary; create, use, recreate, destroy',
  'Tests run a handful of vectors without sanitizers; several algorithms and modes (blake, skein, keccak800, rc4, cbc, cfb, ofb, ecb, eax2, pkcs7, random) are not run at all, and a stray byte past a table or buffer does not change a vector.',
  LIB + ['include/kripto/loadstore.h'], [('length bookkeeping and index masks', 'every lib/*/*.c'), ('LOADxx_ARRAY', 'include/kripto/loadstore.h'), ('argument assertions', 'lib/*.c')],
  note=RET + 'Every load and store of the interpreted functions is an obligation against the exact object size.')
p('M02', 'Objects are released once, never used after release, and never leak',
  'After creating, using, recreating and destroying any object, everything the library allocated has been released exactly once and nothing was accessed after its release; one-call functions leave no allocation behind.',
  ['inputs', 'configurations', 'histories'], 'every algorithm and mode, every create/use/recreate/finish/destroy sequence of the drivers',
  'No test checks the heap; a use-after-free or leak leaves the published vectors intact.',
  LIB, [('destroy functions', 'lib/*/*.c *_destroy'), ('recreate that reallocates', 'lib/*/*.c *_recreate')], note=RET)
p('M03', 'A failed allocation or read is reported, and leaves nothing behind',
  'If any single memory allocation (or the system random source) fails, the creating, recreating or one-call function reports failure by its return value, and never crashes, uses or releases memory wrongly, leaks, or claims success.',
  ['fault_sequences'], 'each allocation reached by each driver fails in turn (recreate functions included), all contents abstract',
  'No test injects a failure; malloc never fails in the test runs.',
  LIB, [('null checks after malloc', 'lib/*/*.c *_create'), ('error unwinding labels', 'lib/ae/eax.c, lib/ae/eax2.c, lib/mac/hmac.c, lib/pbkdf2.c, lib/scrypt.c')],
  note=RET + 'Faults are enumerated per allocation, one at a time.')
p('M04', 'No result depends on uninitialised memory',
  'No output, branch, address or stored state of the library ever depends on memory that was never written: results are a function of the arguments only.',
  ['inputs', 'configurations'], 'all contents and enumerated lengths, including shortest keys and empty messages',
  'Fresh heap pages are zero in test runs, so reading uninitialised state often gives the expected value.',
  LIB, [('zeroing before partial loads', 'lib/*/*.c *_setup'), ('state initialisation', 'lib/*/*.c *_create, *_recreate')], note=RET)
p('M05', 'Every byte of every requested output is written',
  'Whenever a call that produces data (ciphertext, plaintext, keystream, digest, tag, derived key, padding) returns success, every byte of the requested length has been written by that call.',
  ['inputs', 'configurations'], 'all contents, lengths around block boundaries, truncated and multi-block outputs',
  'Tests compare whole-vector outputs of a few lengths; lengths that straddle internal buffers are not sampled.',
  LIB, [('output loops', 'lib/hash/*.c *_output, lib/stream/*.c, lib/mac/*.c *_tag, lib/pbkdf2.c')], note=RET)
p('M06', 'Inputs, descriptors and tables are never modified',
  'The library never writes to memory the caller passed as input (key, iv, salt, header, message, tag to verify), to an algorithm descriptor, to a constant table, or to a cipher object during a pure encrypt/decrypt of one block.',
  ['inputs', 'configurations'], 'all contents and enumerated lengths',
  'Tests do not compare inputs after the call, and a descriptor write only shows when two users share it.',
  LIB, [('const parameters and casts', 'include/kripto/cast.h, lib/*/*.c'), ('static const tables', 'lib/*/*.c')], note=RET)
p('M07', 'Encryption in place gives the same result as into another buffer',
  'Passing the same buffer as input and output of block, stream and authenticated encryption or decryption is allowed: no input byte is read after the output byte at the same position has been written, so in-place operation gives the result of the two-buffer call.',
  ['inputs', 'configurations'], 'all contents; lengths of zero to several blocks plus a partial one',
  'The suite never runs the stream and authenticated modes in place with partial blocks.',
  ['lib/block', 'lib/stream', 'lib/ae'], [('load everything before storing', 'lib/block/*.c'), ('buffering of the previous block', 'lib/stream/cbc.c, lib/stream/cfb.c'), ('MAC before decrypt', 'lib/ae/eax.c, lib/ae/eax2.c')],
  note=RET + 'Rule: at every read of an input byte, the output byte of the same index has not been written yet.')
p('M08', 'Arithmetic is defined: no bad shift, signed overflow, division by zero or absurd allocation',
  'For every input the library never shifts by the operand width or more, never overflows a signed type, never divides by zero, and never asks for an allocation whose size has wrapped around.',
  ['inputs', 'configurations'], 'all contents, key lengths including the shortest, default and custom round counts',
  'Undefined shifts and divisions give plausible values on the build machine; extreme parameters are not sampled.',
  LIB, [('ROL/ROR macros', 'include/kripto/rotate.h'), ('word counts derived from key length', 'lib/block/*.c *_setup'), ('size computation', 'lib/scrypt.c, lib/*/*.c *_create')], note=RET)
p('M09', 'Caller buffers need no alignment',
  'Keys, ivs, messages and outputs may start at any address: the library accesses caller memory only in ways that are valid for byte-aligned pointers.',
  ['inputs', 'configurations'], 'all lengths and byte-aligned buffers',
  'Tests use aligned arrays on a machine that tolerates unaligned access.',
  ['include/kripto/loadstore.h', 'lib'], [('byte-wise or memcpy loads and stores', 'include/kripto/loadstore.h')], note=RET + 'Caller buffers have alignment 1; each access states the alignment the compiler may assume.')
p('S01', 'No secret survives in released heap memory',
  'Memory the library releases (on destroy, on recreate, after one-call functions, and on every failure path) holds no byte derived from a key, secret message state or generated keystream: it has been overwritten first.',
  ['inputs', 'configurations', 'fault_sequences'], 'all objects, all parameters, with and without a failing allocation',
  'Tests cannot see freed memory.',
  LIB, [('kripto_memory_wipe before free', 'lib/*/*.c *_destroy, lib/pbkdf2.c, lib/scrypt.c')], note=RET)
p('S02', 'No secret survives in a local array after return',
  'When a library function returns, none of its local arrays still holds bytes derived from a key or secret state.',
  ['inputs', 'configurations'], 'all functions reached by the drivers, all contents',
  'Tests cannot see dead stack memory.',
  LIB, [('kripto_memory_wipe of working arrays', 'lib/*/*.c')], note=RET + 'Arrays only; scalars the compiler may keep in registers are out of scope.')
p('S03', 'Wiping cannot be optimised away',
  'Every overwrite that removes a secret uses stores the compiler must keep, even though the memory is not read again.',
  ['configurations', 'programs'], 'every overwrite of secret data before release or return, any optimisation level',
  'Whether a dead store survives depends on compiler, flags and inlining; no test inspects it.',
  ['lib/memory.c'], [('volatile stores', 'lib/memory.c kripto_memory_wipe')], note=RET + 'A wipe by non-volatile stores or plain memset is reported.')
p('S04', 'Control flow does not depend on secrets',
  'No branch, loop bound, call target or comparison call in the library depends on the value of a key, secret state, message or tag byte (removal of padding excepted), so running time does not reveal them through the sequence of executed instructions.',
  ['inputs'], 'all contents of key, message and tag',
  'Functional tests do not observe timing.',
  LIB, [('branch-free arithmetic', 'lib/block/*.c, lib/mac/omac.c'), ('constant-time compare', 'lib/memory.c')],
  note=RET + 'Data-dependent table lookups are not covered (cache timing is listed as not applicable).')
p('S05', 'The library never prints or logs',
  'No library call writes to a stream, terminal or file, whatever its arguments and whatever fails.',
  ['inputs', 'fault_sequences'], 'all drivers, with and without failing allocations',
  'Output on a rare path is not noticed by tests.', LIB, [('no stdio output', 'lib')], note=RET)
p('S06', 'Nothing of an old key or message survives recreation',
  'After an object has been recreated with a new key, iv, salt or parameters, no later output depends on the previous key, previous messages or previous keystream.',
  ['histories', 'inputs', 'configurations'], 'recreate after partial use, after finishing, with longer, shorter and equal keys and other output sizes',
  'The tests recreate few objects and compare only a few vectors; dependence on stale bytes needs particular length changes.',
  LIB, [('full reinitialisation', 'lib/*/*.c *_recreate')], note=RET)
p('S07', 'Independent objects share no mutable state',
  'Two objects (or threads using different objects) never influence each other: the library keeps no writable static or global data.',
  ['schedules', 'histories'], 'all objects with static storage of all units; all accesses of the drivers',
  'Interference needs concurrent use or particular interleavings of objects.', LIB, [('static const only', 'lib')],
  tech='IR rule over all static objects + abstract interpretation', note='Complete for objects with static storage of the compiled units.')
p('C01', 'Tag and memory comparison looks at every byte',
  'Verification accepts exactly when all bytes of the given tag equal the computed one: its result depends on every byte of the presented tag and of the computed tag, for every tag length, and its control flow does not depend on them.',
  ['inputs', 'configurations'], 'all contents; every MAC and mode; full and truncated tags',
  'Tests flip few bytes, if any; a comparison that ignores a byte still rejects random forgeries.',
  ['lib/memory.c', 'lib/mac.c', 'lib/ae.c'], [('kripto_memory_equals', 'lib/memory.c'), ('verify', 'lib/mac.c')], note=RET)
p('C02', 'A recreated object behaves like a freshly created one',
  'Recreating an object with some parameters gives an object that behaves exactly as one newly created with those parameters, whatever the old parameters and however the old object was used.',
  ['histories', 'configurations', 'inputs'], 'old and new key lengths, ivs, salts, output lengths, after partial or finished use',
  'Tests recreate few objects and with the same lengths.', LIB, [('recreate', 'lib/*/*.c *_recreate')], note=RET)
p('C03', 'Splitting data over calls does not change the result',
  'Hash input and output, MAC input, stream data and authenticated data may be given in pieces of any size (for ciphers with a required multiple, multiples of it), empty pieces included: the result equals that of one call.',
  ['histories', 'inputs'], 'pieces that end before, on and after block boundaries, empty pieces',
  'The suite feeds most vectors in one call; the failing split needs particular sizes.', ['lib/hash', 'lib/mac', 'lib/stream', 'lib/ae'], [('position counters', 'lib/hash/*.c, lib/mac/*.c, lib/stream/*.c')], note=RET)
p('C04', 'One-call functions equal the incremental interface',
  'Hashing or authenticating a message with the one-call function gives the result of create, input, finish, output with the same parameters.',
  ['inputs', 'configurations'], 'every hash and MAC, salts, truncated outputs', 'Only a few algorithms and lengths are run through both interfaces.',
  ['lib/hash', 'lib/mac', 'lib/hash.c', 'lib/mac.c'], [('*_hash and *_mac one-call functions', 'lib/hash/*.c, lib/mac/*.c')], note=RET)
p('C05', 'Every input byte influences the result',
  'Each byte of key, iv, salt, tweak, header, and message is used: every byte of a cipher block, digest, tag or derived key depends on every byte of the inputs it is specified to depend on.',
  ['inputs', 'configurations'], 'every key length boundary, message lengths around block boundaries, all algorithms and modes',
  'Published vectors cover few key and message lengths; an ignored byte goes unnoticed when no vector has that length.', LIB, [('key and message loading', 'include/kripto/loadstore.h, lib/*/*.c')], note=RET)
p('C06', 'Keystream ciphers act byte by byte and are their own inverse',
  'For ciphers and modes that combine data with a keystream, output byte i depends on input byte i and no other input byte, and decryption uses the same keystream as encryption.',
  ['inputs', 'configurations'], 'all contents, lengths over several blocks', 'Round trips of a few lengths only.', ['lib/stream', 'lib/ae'], [('xor with keystream', 'lib/stream/*.c')], note=RET)
p('C07', 'Sender and receiver compute the same authentication tag',
  'For authenticated encryption, the receiver who feeds the ciphertext, header, key and nonce gets the tag the sender computed, and that tag depends on the ciphertext, header, nonce and key.',
  ['inputs', 'configurations'], 'nonce, header, tag and message lengths of the drivers', 'Few vectors; EAX2 is not tested at all.', ['lib/ae/eax.c', 'lib/ae/eax2.c'], [('MAC over ciphertext on both sides', 'lib/ae/*.c')], note=RET)
p('C08', 'Every parameter inside the declared limits is accepted',
  'Keys, ivs, salts, tags and outputs of every length from the minimum to the limit an algorithm declares are accepted: no assertion fires and creation fails only if memory runs out.',
  ['configurations', 'inputs'], 'every algorithm, limits and boundaries', 'Tests use a few lengths per algorithm.', LIB, [('declared limits', 'descriptors in lib/*/*.c'), ('assertions', 'lib/*.c')], note=RET)
p('C09', 'Padding is added and removed exactly',
  'Adding padding yields a length that is the next multiple of the block size, or reports that it does not fit, and writes the standard padding bytes without touching anything else; removal returns the message length for well-formed padding, rejects malformed padding, and reads nothing outside the message.',
  ['inputs', 'configurations'], 'message lengths around block boundaries, block sizes up to 255, capacities, all contents', 'Padding is not tested at all.', ['lib/pkcs7.c'], [('kripto_pkcs7_add, kripto_pkcs7_rem', 'lib/pkcs7.c')], note=RET)
p('C10', 'Random bytes: all delivered or failure reported',
  'The random source function either fills every requested byte from the system source and reports success, or reports failure (unavailable source, short read), and releases the source.',
  ['fault_sequences', 'inputs'], 'request sizes of the drivers; open failure and short read', 'Not tested at all; failures of the source do not occur in a test run.', ['lib/random.c'], [('fopen/fread/fclose', 'lib/random.c')], note=RET)
p('C11', 'Any round count is honoured safely or rejected',
  'With a caller-chosen number of rounds, every algorithm either runs within its memory and terminates, or rejects the number by assertion before using it.',
  ['configurations', 'inputs'], 'round counts 1 to 65 (quick) and to 256 (thorough), all contents', 'Tests use default rounds.', ['lib/block', 'lib/hash', 'lib/stream', 'lib/mac'], [('round constant tables and key schedules', 'lib/block/*.c'), ('assertions on rounds', 'lib/block/*.c')], note=RET)
p('C12', 'Disabling assertions changes nothing',
  'Compiling without assertions gives a library that behaves the same for all valid uses: evaluating the condition of an assertion has no effect.',
  ['programs', 'configurations'], 'every assertion of every unit', 'The tests run one build.', ['lib'], [('assert()', 'lib')], tech='IR effect rule over every assertion condition', note='Transitive no-store rule; complete for the compiled units.')

VN = 'abstract interpretation with a value-number (normal form) domain'
VNN = RET + 'Both sides are reduced to normal forms of the same value-number domain; equal forms prove the outputs equal for every input. A comparison that is not settled is counted in the evidence, never reported. '
p('C13', 'Every digest is the one its published definition prescribes',
  'MD5, SHA-1, SHA-224/256/384/512, SHA-3, Keccak over 1600 and 800 bits (c = 2 x digest), Tiger, Whirlpool, BLAKE-224/256/384/512, BLAKE2s, BLAKE2b (salted too) and Skein compute exactly the function of their specification, for every message content and every message length up to several blocks, with the message given at once or in pieces, through a fresh object, a recreated one or the one-call function; with another accepted number of rounds (SHA-2: a multiple of eight, at least 16 and at most the default) the same function of that many rounds.',
  ['inputs', 'configurations', 'histories'], 'all contents of message and salt; message lengths of zero to two blocks and one of twelve or more; the standard digest sizes; salts',
  'Vectors fix a few contents at a few lengths, and none exist in the suite for BLAKE, BLAKE2, Skein; an error in padding, length or a rarely used table entry needs a length or content no vector has.',
  ['lib/hash'], [('compression functions', 'lib/hash/*.c *_process'), ('padding and length', 'lib/hash/*.c *_finish')], tech=VN, note=VNN + 'The definitions are written independently in harness/ref/.')
p('C14', 'Every tag is the one its construction prescribes',
  'HMAC over any hash, OMAC (CMAC) and XCBC over any block cipher, Skein-MAC and keyed Keccak compute exactly the function of their definition (key hashing, padding, subkeys, truncation, tag length), for every key, message and primitive.',
  ['inputs', 'configurations', 'histories'], 'all contents and all primitives (HMAC, OMAC, XCBC are analysed over an uninterpreted hash or block cipher); key and message lengths around block boundaries; block sizes 4 to 128',
  'Vectors exist for few key and message lengths and two or three primitives.',
  ['lib/mac'], [('HMAC', 'lib/mac/hmac.c'), ('OMAC subkeys', 'lib/mac/omac.c'), ('XCBC', 'lib/mac/xcbc.c'), ('Skein, Keccak', 'lib/mac/skein*.c, lib/mac/keccak*.c')], tech=VN, note=VNN)
p('C15', 'Modes of operation compute their definition, and decryption inverts encryption',
  'CTR, CBC, CFB, OFB and ECB over any block cipher transform data exactly as the mode is defined (ivs shorter than a block padded with zeros, big-endian counter), in both directions, for data in pieces, on fresh and recreated objects; decryption with the same key and iv inverts encryption.',
  ['inputs', 'configurations', 'histories'], 'all contents and all block ciphers (uninterpreted permutation); block sizes 4 to 128; iv lengths zero to a block; data of several blocks and one run over 256 counter values',
  'Only CTR has vectors; cbc, cfb, ecb, ofb are not tested.',
  ['lib/stream'], [('modes', 'lib/stream/ctr.c, cbc.c, cfb.c, ofb.c, ecb.c')], tech=VN, note=VNN)
p('C16', 'EAX and EAX2 compute their definition',
  'EAX over any block cipher and EAX2 over any stream cipher and MAC produce exactly the ciphertext, plaintext and tag of their definition, for every key, nonce, header and message, with header and data in pieces and on fresh and recreated objects.',
  ['inputs', 'configurations', 'histories'], 'all contents and all primitives (uninterpreted); nonce, header, tag and message lengths around block boundaries',
  'Ten EAX vectors over AES; EAX2 has none.', ['lib/ae'], [('EAX', 'lib/ae/eax.c'), ('EAX2', 'lib/ae/eax2.c')], tech=VN, note=VNN)
p('C17', 'PBKDF2 and scrypt compute their definition',
  'PBKDF2 and scrypt over any MAC derive exactly the key their definition (RFC 8018, RFC 7914) prescribes, for every password and salt, iteration count, cost, block and parallelisation parameter and output length.',
  ['inputs', 'configurations'], 'all contents and all MACs (uninterpreted); iteration counts 1 to 9; N up to 16, r up to 2, p up to 3; output lengths around multiples of the tag',
  'A handful of vectors with fixed parameters.', ['lib/pbkdf2.c', 'lib/scrypt.c'], [('PBKDF2', 'lib/pbkdf2.c'), ('scrypt', 'lib/scrypt.c')], tech=VN, note=VNN)
p('C18', 'Block decryption inverts block encryption, and conversely',
  'For every block cipher (Blowfish excepted), key, tweak and accepted number of rounds, decrypting an encrypted block gives the block back, and encrypting a decrypted block gives the block back.',
  ['inputs', 'configurations'], 'all contents of key, tweak and block; several key lengths and round counts; fresh and recreated objects (3-Way, Noekeon, Rectangle, Serpent, IDEA: a difference is refuted, equality stays open)',
  'Vectors cover a few keys and blocks; a wrong entry of an inverse table or schedule shows for few inputs.',
  ['lib/block'], [('encrypt and decrypt', 'lib/block/*.c'), ('inverse tables and schedules', 'lib/block/*.c')], tech=VN, note=VNN)
p('C19', 'Stream ciphers compute their definition',
  'ChaCha, XChaCha, Salsa20, XSalsa20 and RC4 produce exactly the keystream of their definition for every key, nonce (8, 12 or 24 bytes for ChaCha, 8 or 24 for Salsa20), round number (RC4: number of bytes dropped) and position of the first blocks; the Skein stream ciphers produce the Skein output function of the chain key, configuration (output length 2^64-1 bits), nonce; the Keccak ones the sponge with a capacity of twice the key over key and iv. All this however the output is split over calls, for encryption, decryption and prng, on fresh and recreated objects.',
  ['inputs', 'configurations', 'histories'], 'all contents; 16 and 32 byte keys (RC4, Skein, Keccak: several lengths from 1 byte); default and other round numbers, odd ones included; lengths up to four blocks (RC4: 40 bytes)',
  'Vectors fix a few keys and nonces.', ['lib/stream'], [('block function', 'lib/stream/chacha.c, lib/stream/salsa20.c'), ('RC4', 'lib/stream/rc4.c'), ('Skein, Keccak', 'lib/stream/skein*.c, lib/stream/keccak.c')], tech=VN, note=VNN)

p('C20', 'Block ciphers compute their published definition',
  'Every block cipher but Blowfish (and GOST with any S-boxes) maps each block to exactly the block its published definition prescribes, for every key of a published length, every tweak and every accepted number of rounds, through a fresh object or one recreated from another key or round count.',
  ['inputs', 'configurations', 'histories'], 'all contents of key, tweak and block; the published key lengths; the default and reduced or increased round counts (Rectangle, Serpent: a difference is refuted, equality stays open)',
  'Vectors fix a few keys and blocks at the default number of rounds; a wrong entry of a large table or a rare branch of a key schedule shows for few of them.',
  ['lib/block'], [('encryption', 'lib/block/*.c *_encrypt'), ('key schedules', 'lib/block/*.c *_setup')], tech=VN,
  note=VNN + 'The definitions are written independently in harness/ref/block.h (plain S-boxes and loops); decryption follows with C18. S-boxes without a closed form are constants of harness/ref/block_tables.h.')

p('C21', 'Length and block counters carry: results stay right for very long data',
  'The digest or Skein-MAC of a message whose length passes 2^32 or 2^64 (in bytes or bits, as the algorithm counts), and the ChaCha, Salsa20, CTR and PBKDF2 output past the first 256 and past 2^32 blocks, is the one the published definition gives: no counter is truncated, wraps or loses a carry.',
  ['inputs', 'histories'], 'all contents; counters next to 2^32 and 2^64, and what is fed after that point in pieces of several lengths',
  'No test can process that much data.',
  ['lib/hash', 'lib/mac', 'lib/stream', 'lib/pbkdf2.c'], [('length counters', 'lib/hash/*.c'), ('tweak position', 'lib/hash/skein*.c, lib/mac/skein*.c'), ('block counters', 'lib/stream/chacha.c, lib/stream/salsa20.c, lib/stream/ctr.c, lib/pbkdf2.c')], tech=VN,
  note=VNN + 'After five blocks the counter found in the object (the only 64-bit constant equal to the amount processed) is moved on in the abstract state as the bytes left out would; an object without such a counter gives no comparison.')
p('C22', 'Calls with gigabytes of data process all of it',
  'A function that takes the length of data as a size_t works on all of it, whatever the length: hashing, authenticating, encrypting, comparing, wiping or deriving 4 GiB or more in one call neither drops data nor hangs, because no length is cut to a narrower type before it bounds work and no counter over data is narrower than its length.',
  ['inputs'], 'every function with a size_t parameter, every conversion and loop that depends on it',
  'No test passes 4 GiB in one call.',
  LIB + ['lib/memory.c', 'lib/random.c'], [('input, output, encrypt, decrypt, prng', 'lib/*/*.c'), ('kripto_memory_wipe, kripto_memory_equals', 'lib/memory.c')],
  tech='IR value-flow rule with range analysis', note='Lengths kept in memory between calls are covered by C21. The length of a digest of bounded size is not a data length.')
p('C23', 'Every build computes the same functions',
  'The code the library selects for other machines and compilers - the little-endian and the big-endian memory paths (KRIPTO_LITTLE_ENDIAN, KRIPTO_BIG_ENDIAN), the rotations without x86 assembler, unsigned char as plain char - computes the published functions too, without undefined shifts and within its memory: digests, tags, keystreams, ciphers, modes and derived keys do not depend on the platform.',
  ['programs', 'inputs', 'configurations'], 'all contents; an AArch64 little-endian and a PowerPC64 big-endian build (thorough: also both without the byte-order option), over the configurations of C13-C17, C19, C20',
  'Tests run one build on one machine; the other paths are never compiled here.',
  ['include/kripto/loadstore.h', 'include/kripto/rotate.h', 'lib/hash', 'lib/mac', 'lib/stream', 'lib/block', 'lib/ae', 'lib/pbkdf2.c', 'lib/scrypt.c'], [('portable rotations', 'include/kripto/rotate.h'), ('byte-order paths', 'include/kripto/loadstore.h')],
  tech=VN, note=VNN + 'The units are compiled for the other target with declarations of the C library in engine/inc, and the IR is interpreted with that target\'s byte order; nothing is run. Trusted instead of the x86-64 back end: the layouts clang states for these targets.')


def na(id, title, statement, over, qtext, why, files, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name='see files', where=files[0])])), None, reason))


na('N01', 'Table lookups do not leak secrets through the cache', 'The time of every operation is independent of secret data, memory system included.', ['inputs'], 'all contents', 'Functional tests do not observe timing.', ['lib/block'],
   'Table-driven ciphers (rijndael, twofish, anubis, ...) index tables by secret bytes by design, so the property does not hold for this library and the library does not claim it; only the control-flow clause (S04) is decided.')
na('N02', 'Outputs are statistically indistinguishable from random', 'Keystreams, digests and tags show no bias.', ['inputs'], 'all keys', 'Statistical strength is not a matter of vectors.', ['lib'],
   'A cryptanalytic statement about distributions; no static argument in reach decides it.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, t, n in P:
        f.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3 engine/check.py --setup',
           checks=[dict(property=d['id'], quick_cmd='python3 engine/check.py %s --tier quick' % d['id'], thorough_cmd='python3 engine/check.py %s --tier thorough' % d['id'],
                        technique=t, level='other', level_note=n + ' Trusted: clang front end, the analyser, its libc models.') for d, t, n in P if t],
           not_applicable=[dict(property=d['id'], reason=n) for d, t, n in P if not t])
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
