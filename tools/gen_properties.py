#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
S='src/wickrcrypto/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[S+f for f in files],
      mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p('M01','Every addressed device, and only those, reads exactly the message sent',
 'A message encoded for any set of recipient devices is decoded by each of those devices, holding the one-time key it was addressed with, to exactly the body, channel tag, content type and expiry settings that were sent, at every supported protocol version. A device that was not addressed, or that uses any other one-time key, another identity or another device identifier, never obtains a successful decode. The message key the sender is given is the one every recipient recovers.',
 ['configurations','inputs','histories'],
 'all recipient subsets and orders of a bounded device population (including none, duplicates, and several devices of one account), all payload shapes of a bounded set, all supported protocol versions, all (reader, key) pairs',
 'The stable tests never encode or decode a packet; a sampled test fixes one sender, one recipient list and one payload, while the guarantee ranges over every pairing of reader, key and recipient list.',
 ['protocol.c','wickr_ctx.c','key_exchange.c','payload.c','packet_meta.c','encoder_result.c'],
 [('packet assembly from components','protocol.c:591'),('per-recipient key exchange','protocol.c:83'),('parse and decode','protocol.c:661')],
 ['encoded packet bytes','decode result of every reader'])
p('M02','A modified message is never accepted as something the sender did not send',
 'If the bytes of an encoded message are altered in any way (flipped, truncated, extended, or recombined with parts of other genuine messages), a recipient either refuses it or decodes exactly the payload that the named sender really sent. A message that decodes successfully therefore always carries a valid signature of the claimed sender over what was decoded. Refusing never crashes and never discloses plaintext.',
 ['inputs'],
 'every single-bit change, every truncation and short extension of encoded packets of each version, every field-wise splice between a bounded set of genuine packets',
 'A test can tamper with one or two positions of one packet; the guarantee is about every position of every field, including framing bytes that are outside the signature.',
 ['protocol.c','wickr_ctx.c','ecdsa.c','cipher.c'],
 [('signature over packet content','protocol.c:661'),('authenticated header and payload encryption','protocol.c:258')],
 ['parse status','decode status','decoded payload'])
p('M03','Messages are attributed only to their true sender, and only verified recipients are addressed',
 'A message is reported as validly signed only when it was signed by the device signing key of the identity passed as the claimed sender; otherwise the message is refused with a signature failure and nothing is decoded. Encoding refuses, without emitting anything, whenever any one of the recipients fails verification of its identity chain or of the signature on its one-time key.',
 ['configurations','inputs'],
 'all pairs of actual and claimed senders over a population with valid, forged, swapped and revoked-style chains; all positions of a bad recipient among lists of bounded length; all kinds of bad recipient',
 'Tests use well-formed identities almost everywhere; the failure needs a particular combination of claimed sender, chain defect and position in the list.',
 ['protocol.c','wickr_ctx.c','identity.c','node.c'],
 [('recipient validation','protocol.c:573'),('sender signature check','protocol.c:661')],
 ['parse status and error','encoder result'])
p('M04','A wrapped key opens only in the exact context it was made for',
 'Data wrapped for a receiving device is recovered exactly by that device and by nobody else. Recovery fails (rather than yielding other data) if any of the sender identity, the receiver identity, the receiving device identifier, the exchange key, the optional pre-shared secret or the protocol version differs from the one used to wrap, in the protocol versions that bind it.',
 ['configurations','inputs'],
 'all assignments of (sender, receiver, device, exchange key, pre-shared secret, version, cipher) at wrap and at unwrap drawn from bounded domains',
 'The binding is a relation between two full parameter tuples; tests compare a handful of tuples.',
 ['protocol.c','key_exchange.c','ecdh_cipher_ctx.c','kdf.c'],
 [('key-derivation info and salt','protocol.c:11'),('wrap','protocol.c:83'),('unwrap','protocol.c:193')],
 ['unwrapped data or refusal'])
p('I01','Verification verdicts always reflect the current contents, never a stale cache',
 'At every moment the verdict of validating an identity chain or a device, repeated any number of times and in any order with edits, one-time-key rotation, copying and re-serialisation, equals the verdict a fresh evaluation of the present keys and signatures would give. In particular nothing that was once found valid stays valid after any of the signatures or keys it depends on is replaced.',
 ['histories'],
 'all operation sequences up to a bounded depth over validate-chain, validate-device, replace root, replace signing key, replace or drop signature, rotate one-time key, replace one-time-key signature, replace chain, copy, serialise and reparse',
 'Verdicts are cached; a stale cache needs a specific interleaving of validation and change that single-shot tests do not produce.',
 ['identity.c','identity_priv.c','node.c','node_priv.c'],
 [('chain status cache','identity_priv.c:235'),('device status cache','node_priv.c:100')],
 ['return value of chain and device validation','status fields'])
p('I02','Whatever the library generates is fresh, well-formed and vouched for by exactly its parent',
 'Every account, device identity, one-time key, device description, channel, storage, recovery or message key the library generates has the form asked for, its two parts belong together, and its signature verifies under the identity it was generated for and under no other. Generating from anything that is not an authority (a device identity, a published identity without private key, nothing) is refused. Over any history no two generated secrets, identifiers, salts or (key, nonce) pairs are equal except where the library defines them as shared: all devices of an account share its signing identity and remote storage key, all contexts of an account on one system share its local storage key, and a recovered account keeps its recovery key.',
 ['histories','configurations'],
 'all histories of bounded length over every generating operation, every choice of parent and of system, with a register of every value and every signature produced so far',
 'Freshness and exclusive authority relate every pair of things generated in a history; tests generate one thing and look at it alone.',
 ['identity.c','ephemeral_keypair.c','wickr_ctx.c','root_keys.c','devinfo.c','stream_key.c','transport_root_key.c','protocol.c','openssl_suite.c'],
 [('device identity generation','identity.c:36'),('account generation','wickr_ctx.c:185'),('one-time key generation','ephemeral_keypair.c:25'),('device description','devinfo.c:50')],
 ['fields of generated objects','verification verdicts','refusals','engine calls'])
p('T01','A channel becomes active only with an authenticated, approved peer and agreed keys',
 'Against an attacker who can drop, delay, duplicate, reorder, reflect, modify and splice handshake messages and run sessions of its own, an endpoint becomes active only if the peer identity it reports is the pinned one or was approved by the application, and that peer\'s signing key produced the handshake message it acted on. When the initiating endpoint becomes active, the named peer took part in this very run with it and both sides hold matching keys for each direction, fresh for that run. A rejected, wrong or unverifiable identity always leaves the endpoint in the error state and never active.',
 ['schedules','inputs','histories','configurations'],
 'all attacker schedules of bounded length over a bounded pool of genuine, recombined and forged handshake messages, all pinning configurations, all immediate or deferred accept/reject decisions',
 'Authentication is a property of all message schedules; the transport is not exercised at all by the stable tests, and example tests run the honest order.',
 ['transport_ctx.c','transport_handshake.c','transport_handshake_priv.c','transport_packet.c','transport_root_key.c'],
 [('initiator response processing','transport_handshake.c:377'),('responder processing','transport_handshake.c:506'),('packet signature check','transport_packet.c:326')],
 ['endpoint status','reported remote identity','delivered data'])
p('T02','An active channel delivers a faithful in-order prefix-with-gaps of what was sent',
 'Whatever the network does to data packets of an active channel, everything delivered to a receiving application is byte-for-byte something the peer sent on that channel in that direction, in sending order and at most once. Without interference everything sent is delivered. Any packet that is altered, replayed, reordered backwards, reflected or taken from another session is never delivered and puts the receiver in the error state.',
 ['schedules','inputs','histories'],
 'all network schedules (deliver, drop, duplicate, reorder, tamper, reflect, cross-session inject) of bounded length in both directions, over all small key-evolution periods',
 'The property quantifies over all network behaviours; tests send a few packets in order.',
 ['transport_ctx.c','stream_ctx.c','transport_packet.c','transport_root_key.c'],
 [('data packet decode','transport_ctx.c:137'),('sequence check','stream_ctx.c:200')],
 ['receive callback data','endpoint status'])
p('T03','The channel life cycle is respected: no data outside active, errors are final',
 'Application data is put on the wire or handed to the application only while the endpoint is active, never in clear, and every state change is reported exactly once. An endpoint in the error state stays there and emits nothing more, whatever calls and packets follow. Starting twice, sending too early, malformed input and out-of-place packets lead to the error state and to no other effect.',
 ['histories','inputs','schedules'],
 'all sequences of API calls and incoming packets (start, send, receive each kind of packet, deferred approve/reject) up to a bounded depth on both endpoint roles',
 'Illegal orders of calls are exactly what example tests leave out.',
 ['transport_ctx.c','transport_handshake.c'],
 [('status updates','transport_ctx.c:13'),('receive dispatch','transport_ctx.c:420')],
 ['transmit, receive and state callbacks','status and last error'])
p('S01','Stream keys ratchet identically on both ends and never go back',
 'For every key-evolution period and every increasing sequence of packet numbers, with any gaps, the decoding end recovers exactly what the encoding end protected under that number and associated data, each packet being protected by the key of its own evolution period, derived one-way from the previous one. The two streams of a channel do so in both directions with the period the channel was set up with. Packet numbers that do not increase are refused by both ends. Data presented under another packet number of a different period, with other associated data or altered bytes is refused.',
 ['histories','inputs'],
 'all packet-number sequences up to a bounded length over a bounded range crossing several evolution boundaries, for every small evolution period, with interleaved illegal numbers and corrupted packets',
 'Boundary and multi-period jumps depend on combinations of period, history and gap.',
 ['stream_ctx.c','stream_key.c','stream_key_priv.c'],
 [('key evolution','stream_ctx.c:128'),('encode','stream_ctx.c:176'),('decode','stream_ctx.c:204')],
 ['encode and decode results','engine calls'])
p('S02','A packet that is refused leaves the receiving stream unharmed',
 'After any refused packet (forged, corrupted, replayed or numbered ahead) a receiving stream still decodes every genuine packet it would have decoded had the refused packet never arrived. The last-received position reported by the stream is that of the most recent successfully decoded packet.',
 ['histories','fault_sequences'],
 'all interleavings up to a bounded length of genuine and refused packets, with forged packet numbers at every position relative to the evolution boundaries',
 'It needs a specific forged packet between genuine ones; tests only look at the refused packet itself.',
 ['stream_ctx.c'],
 [('decode','stream_ctx.c:204')],
 ['decode results after a refusal','last received position'])
p('S03','No key and nonce pair is ever used twice by a stream or a channel',
 'Over any history of sending, no two packets are ever encrypted under the same key and nonce, in one stream, across the two directions of a channel, across evolution periods, or across separately established sessions. Nonces always have the length the cipher requires.',
 ['histories'],
 'all send histories up to a bounded length over both directions, all small evolution periods, several sessions between the same parties',
 'Uniqueness is a statement about all pairs of packets of a history.',
 ['stream_iv.c','stream_ctx.c','transport_handshake.c','transport_root_key.c'],
 [('nonce generation','stream_iv.c:74'),('per-direction keys','transport_root_key.c:90')],
 ['key and nonce of every encryption call'])
p('F01','Encrypted files decrypt to the original and reject any tampering',
 'Encrypting any file and decrypting the result with the same key gives back the identical bytes, for every length including zero and those around internal block boundaries. Decryption of an authenticated file with another key, or altered or cut at any position, or of an unauthenticated file when only authenticated ones are allowed, reports failure, and leaves the destination as it was.',
 ['inputs'],
 'all file lengths in windows around zero and every internal block boundary, both ciphers, every truncation point and every altered byte of the encrypted file',
 'Lengths at block boundaries and every byte position cannot be sampled exhaustively by hand-written tests.',
 ['openssl_file_suite.c','openssl_suite.c'],
 [('block-wise encryption and tag trailer','openssl_suite.c:1050'),('temporary file and rename','openssl_file_suite.c:160')],
 ['return value','destination contents'])
p('F02','A file operation succeeds completely or leaves the destination untouched',
 'If any read, write, flush, close, open or rename performed during file encryption or decryption fails, or the process dies at any such point, the destination holds either its complete old contents (or absence) or the complete new contents, and the source is unchanged. Success is reported only when the complete new contents are in place; on reported failure no temporary file is left behind. After a crash the operation can simply be run again.',
 ['crash_points','fault_sequences'],
 'every I/O operation of every run over a set of file sizes, failing (outright or short) or being the last thing that happens; all pairs of faults within the bound',
 'Tests run on a disk that never fails.',
 ['openssl_file_suite.c','openssl_suite.c'],
 [('temporary file and rename','openssl_file_suite.c:160'),('block loop','openssl_suite.c:1100')],
 ['return value','files in the directory after the run or crash'])
p('D01','Every serialised object reads back equal, and re-serialises identically',
 'Serialising any object the library can persist or transmit and reading the bytes back gives an object equal in every field, for every combination of optional fields and field sizes, and serialising that object again gives the same bytes. Copies serialise identically to their originals.',
 ['inputs','configurations'],
 'all combinations of optional fields, enumerated field values and boundary lengths within bounded domains, for every serialisable type',
 'Each type has many optional-field and length combinations; tests use one typical instance.',
 ['identity.c','node.c','ephemeral_keypair.c','key_exchange.c','payload.c','packet_meta.c','storage.c','root_keys.c','stream_key.c','cipher.c','ecdsa.c','eckey.c','kdf.c','protocol.c','transport_packet.c','wickr_ctx.c'],
 [('serialise/deserialise pairs','cipher.c:1'),('protobuf conversion','node_priv.c:1')],
 ['bytes and fields of the reread object'])
p('D02','No input bytes can make a parser misbehave',
 'For every byte string given to any of the library\'s parsers, the parser terminates and either refuses it or returns a well-formed object that can be serialised, copied and destroyed, without any invalid memory access or leaked memory.',
 ['inputs'],
 'all byte strings up to a small length, and every single-byte substitution, truncation, insertion, deletion, splice and length-field corruption of a corpus of genuine encodings, for every parser',
 'Memory safety of a parser is about all inputs; tests give it valid ones.',
 ['identity_priv.c','node_priv.c','ephemeral_keypair_priv.c','key_exchange.c','payload.c','storage_priv.c','root_keys.c','stream_key_priv.c','cipher.c','ecdsa.c','kdf.c','protocol.c','transport_packet.c','transport_handshake.c','wickr_ctx.c','openssl_suite.c'],
 [('length checks','cipher.c:120'),('protobuf unpack and field checks','node_priv.c:60')],
 ['address sanitizer','object after parsing'])
p('D03','Nothing meant for publication contains secret key material',
 'The public serialisation of identities, identity chains, one-time keys and devices, every packet, every handshake message and every data packet contain none of the private or symmetric key bytes of the objects they were made from, regardless of how those objects were obtained, copied or reloaded. The private forms are produced only by the operations that say so.',
 ['configurations','histories'],
 'all publishable outputs of all objects reachable by bounded sequences of generate, copy, rotate, reload and make-public, against all secrets in existence',
 'A leak shows only when the right object history meets the right output.',
 ['identity_priv.c','node_priv.c','ephemeral_keypair_priv.c','key_exchange.c','protocol.c','transport_handshake_priv.c'],
 [('public/private conversion','identity_priv.c:25'),('one-time key conversion','ephemeral_keypair_priv.c:1')],
 ['output bytes'])
p('C01','Account state survives export and recovery, and only with the right secret',
 'An exported account, storage-key set or recovery key is restored identically with the passphrase or recovery key it was exported under, and refused with any other, or if altered at any position. Recovering an account on any device yields the same signing identity and remote-storage key on each, device-local storage keys that depend on the device, and on the original device the original ones.',
 ['configurations','inputs','histories'],
 'all pairs of export and import secrets from a bounded set with prefix-related and boundary-length members, all byte positions altered, all sequences of generate, export, recover, re-export up to a bounded depth on several devices',
 'The guarantee relates all pairs of secrets and all alterations.',
 ['wickr_ctx.c','root_keys.c','crypto_engine.c','devinfo.c','kdf.c','storage.c'],
 [('passphrase encryption','crypto_engine.c:90'),('localisation of storage keys','root_keys.c:180')],
 ['restored objects','refusals'])
p('C02','Local, remote and message encryption domains stay separate',
 'Data encrypted for local storage, for remote storage, or in a message opens exactly with the operation, account and device it belongs to, and with no other, over any number of contexts of the same or different accounts and devices. Contexts of the same account on different devices share remote storage but not local storage.',
 ['configurations','histories'],
 'all (encrypting operation and context, decrypting operation and context) pairs over a bounded population of accounts and devices, including copied and reloaded contexts',
 'Separation is a full matrix; tests look at the diagonal.',
 ['wickr_ctx.c','root_keys.c','devinfo.c','storage.c'],
 [('storage ciphers','wickr_ctx.c:670')],
 ['decrypt results'])
p('E01','Symmetric encryption opens only what was sealed, with the same key and context',
 'Decryption returns the original plaintext exactly when key, nonce, associated data and bytes are those of the encryption, and for authenticated ciphers returns nothing otherwise; a request for authenticated ciphers only is never satisfied by an unauthenticated one. Keys or nonces of the wrong size or for a different cipher are refused without any invalid memory access. Text sealed under a passphrase is made only with a passphrase function and an authenticated cipher that fit together, and opens only unaltered and with the same passphrase.',
 ['inputs','configurations'],
 'all combinations of cipher, plaintext lengths around block boundaries, associated data, key kind, nonce kind and single-bit alteration positions',
 'It is a truth table over combinations, most of them erroneous.',
 ['openssl_suite.c','cipher.c','cipher_priv.c','crypto_engine.c'],
 [('encrypt','openssl_suite.c:388'),('decrypt','openssl_suite.c:500'),('sealing under a passphrase','crypto_engine.c:73')],
 ['encrypt and decrypt results'])
p('E02','Signatures verify exactly for the signed data and key, in every representation',
 'A signature verifies exactly for the signing key, the data and the digest it was made with, before and after serialisation and conversion to and from the fixed-size raw form, including signatures with unusually short or long integer components. Altered or out-of-range signatures are refused in every representation and never converted into something else.',
 ['inputs','configurations'],
 'all combinations of keys, data, digests and representation paths; all integer component sizes of the encoding; every altered bit',
 'Short-component signatures occur about once in hundreds of signatures, so sampling tests never see them.',
 ['openssl_suite.c','ecdsa.c','eckey.c'],
 [('sign/verify','openssl_suite.c:895'),('raw conversion','openssl_suite.c:973')],
 ['verification results','raw bytes'])
p('E03','Digests, message authentication and key derivation match their definitions',
 'Every digest, keyed digest and HMAC-based key derivation equals its published definition for all input, salt and key lengths, and hashing a file equals hashing its bytes, however the file is sized relative to internal blocks. Verification of an authentication code accepts exactly the right code. Passphrase derivation reproduces the same result from its recorded parameters and depends on every one of them.',
 ['inputs'],
 'all lengths in windows around internal and digest block boundaries for data, salt, key and file size; all truncations and alterations of an expected code; all parameter pairs of the derivation',
 'Block-boundary lengths are not sampled.',
 ['openssl_suite.c','kdf.c','digest.c','openssl_file_suite.c'],
 [('digest','openssl_suite.c:623'),('file digest','openssl_suite.c:667'),('hkdf','openssl_suite.c:1583')],
 ['digest bytes'])
p('E04','A failing cryptographic primitive always fails the operation closed',
 'If any single cryptographic primitive or random-number request fails during any operation, that operation reports failure, or completes with a result as correct as if nothing had failed; it never crashes, never returns a partial, unprotected or unauthenticated result, never leaves a channel active without agreed keys, never verifies something it could not check, and leaks nothing.',
 ['fault_sequences'],
 'every primitive call of every high-level operation failing, one at a time (and in pairs in the deeper tier)',
 'Primitives never fail in tests.',
 ['protocol.c','wickr_ctx.c','transport_ctx.c','transport_handshake.c','stream_ctx.c','root_keys.c','devinfo.c','crypto_engine.c','identity.c','node.c','key_exchange.c','ecdh_cipher_ctx.c'],
 [('error paths of every operation','protocol.c:591')],
 ['operation results with the fault','sanitizer'])
p('E05','Key agreement is symmetric and exact, and refuses keys that are not keys',
 'Both sides of a key agreement compute the same shared secret, and it is the full-size x coordinate of the product of one side\'s private key and the other side\'s public key, for every pair of keys including those with leading zeros. Keys survive export and import exactly. Public key bytes that are not a point of the curve (infinity, off the curve, wrong length, unknown curve) are refused everywhere. Data encrypted under an agreed key opens exactly for the holders of the two keys who derive with the same algorithm, salt and context.',
 ['inputs','configurations'],
 'all ordered pairs of a set of keys that includes the smallest and largest scalars and keys with short coordinates; every malformed encoding class and every altered bit of public key encodings',
 'Short coordinates occur once in hundreds of keys, and an invalid point is only met under attack.',
 ['openssl_suite.c','eckey.c'],
 [('shared secret','openssl_suite.c:1070'),('key import','openssl_suite.c:830')],
 ['shared secret bytes','import results'])
p('R01','Running out of memory never corrupts, leaks or crashes',
 'If any memory request fails at any point of any operation, the operation reports failure or completes correctly: no invalid memory access, no memory leaked once the caller destroys what it owns, no wrong result. Objects passed in remain usable and destroyable afterwards.',
 ['fault_sequences'],
 'every allocation of every operation of a bounded set of workloads failing, one at a time',
 'Allocation never fails in tests.',
 ['memory.c','buffer.c','array.c','cipher.c','protocol.c','wickr_ctx.c','transport_ctx.c','transport_handshake.c','key_exchange.c','node.c','identity.c'],
 [('allocation checks','memory.c:1')],
 ['operation results with the fault','address and leak sanitizer'])
p('R02','Objects own what they contain: copies are independent, nothing leaks',
 'A copy of any object equals the original and shares no memory with it: changing, using or destroying either never affects the other, in any order. Destroying everything a caller owns releases all memory exactly once, whatever sequence of create, copy, use and destroy came before.',
 ['histories'],
 'all create/copy/mutate/destroy sequences up to a bounded depth over every object type with every optional field combination',
 'Aliasing and double release depend on the order of operations.',
 ['array.c','buffer.c','identity.c','node.c','payload.c','protocol.c','key_exchange.c','stream_ctx.c','transport_ctx.c','transport_handshake.c','transport_packet.c','wickr_ctx.c','kdf.c'],
 [('copy and destroy functions','node.c:60')],
 ['address and leak sanitizer','field comparison'])
p('R03','Secret keys are erased from memory when their owner is destroyed',
 'Whenever an object holding private keys, symmetric keys or account secrets is destroyed, the memory that held those secrets no longer contains them at the moment it is released, whatever sequence of copies, rotations and uses came before.',
 ['histories'],
 'every release of memory in every bounded history over all secret-bearing objects',
 'The contents of released memory are invisible to ordinary tests.',
 ['memory.c','buffer.c','cipher.c','eckey.c','storage.c','root_keys.c','stream_key.c','transport_root_key.c','kdf.c','wickr_ctx.c'],
 [('zero-on-destroy','buffer.c:200')],
 ['memory contents at every release'])
p('R04','Independent contexts never interfere, however their operations interleave',
 'Operations on distinct objects running concurrently give each caller exactly the results it would get running alone, under every interleaving. Only operations that share an object need external ordering.',
 ['schedules'],
 'all interleavings, up to a preemption bound, of the primitive steps of two or three independent operations drawn from the library\'s operation set',
 'The stable tests are single-threaded and schedules are not controlled.',
 ['crypto_engine.c','openssl_suite.c','kdf.c','protocol.c','stream_ctx.c','transport_ctx.c','memory.c'],
 [('absence of shared mutable state','crypto_engine.c:1')],
 ['results of each operation compared with running alone'])
p('B01','Byte buffers and arrays behave like their abstract counterparts',
 'Every buffer operation (create, copy, section, overwrite, concatenate, compare) and every array operation (create, set, fetch, copy, destroy) returns what the same operation on an abstract byte string or sequence gives, for all offsets, lengths and indices, including those at and beyond the ends and those that overflow. Operations that are refused change nothing, and no operation accesses memory outside the object.',
 ['inputs','histories'],
 'all contents and offset/length arguments over a bounded domain including values near the maximum, all operation sequences up to a bounded depth',
 'Bounds arithmetic fails at particular argument combinations.',
 ['buffer.c','array.c'],
 [('bounds checks','buffer.c:80'),('array checks','array.c:60')],
 ['results compared with a reference model'])
p('B02','Text encodings and fingerprints are exact and unambiguous',
 'Decoding the base-32, base-64 or hexadecimal encoding of any bytes gives those bytes back, encodings agree with their published definitions, and decoding arbitrary text terminates without touching memory outside its input. A fingerprint depends on exactly the identity\'s identifier and public key; the joint fingerprint of two identities is the same whichever side computes it and differs for different pairs.',
 ['inputs'],
 'all byte strings up to a small length and all lengths over block boundaries; all text strings of bounded length over a bounded alphabet with and without terminators; all pairs of a bounded identity population',
 'Encodings have corner cases at every length modulo the block size.',
 ['b32.c','util.c','fingerprint.c','identity.c'],
 [('base32','b32.c:1'),('fingerprint combination','fingerprint.c:50')],
 ['encoded and decoded bytes'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
