#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one place to edit the property texts).
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
E='sign/encrypt.go'; ST='sign/stream.go'; K='sign/keys.go'; S='sign/sign.go'; SSH='sign/ssh.go'; IO='sign/iomisc.go'; R='sign/rand.go'
CR='src/crypt.go'; PB='internal/pb/hdr_vtproto.pb.go'

p('C01','Decryption succeeds only on a complete stream',
 'Decrypt() returns success, and a stream reader reports end of data, only after a chunk that carries the end-of-stream mark has been authenticated (also when that chunk is empty) and a whole trailer has been read. A stream that was cut anywhere, or whose last chunk or trailer was dropped or replaced by an unauthenticated end marker, ends in an error other than end of data.',
 ['inputs'],'every byte string offered as an encrypted file, cut or patched at any point, for both the one-shot and the streaming API',
 'the tests flip a few bytes of a few files and never forge an end marker; the guarantee is about every stream an attacker can write',
 [E,ST],[('last-chunk handling and trailer processing','Decryptor.decrypt / processTrailer'),('eof propagation','encReader.Read, Decryptor.Decrypt')],
 obs=['return value of Decrypt','error of Read on the stream reader'])
p('C02','Only authenticated plaintext is ever released',
 'Every byte that decryption hands to the output writer or to a stream reader\'s caller was returned by a successful authenticated open of a chunk of this stream, and chunks are released whole and in stream order. When opening a chunk fails, nothing of that chunk is released and the operation fails.',
 ['inputs'],'every encrypted input, every chunk, every caller buffer size',
 'tests look at the final output of well-formed files; they never observe what was released before a failure',
 [E,ST],[('AEAD open before release','Decryptor.decrypt'),('release','Decryptor.Decrypt, encReader.Read')])
p('C03','Every chunk is bound to its position in the stream',
 'The n-th chunk of a stream is sealed and opened under a nonce that carries its full position n, so swapping, repeating or dropping chunks makes decryption fail. Positions never wrap: a stream that needs more positions than the nonce can carry is refused with an error by writer and reader.',
 ['inputs','histories'],'every sequence of chunks, of any length (beyond 2^32 chunks too), through Encrypt/Decrypt and the stream writer/reader',
 'tests write a handful of chunks; overflow and reordering are out of their reach',
 [E,ST],[('per-chunk nonce','Encryptor.encrypt, Decryptor.decrypt'),('chunk counters','Encrypt/Decrypt loops, encWriter.blk, encReader.blk')])
p('C04','Chunk length and end mark are authenticated as written',
 'For each chunk the length word on the wire (length of the plaintext plus the end mark on the last chunk only) is the additional data of that chunk\'s AEAD, on both sides, and is what directs the reader. The reader releases a chunk only if its plaintext has exactly the announced length, which never exceeds the chunk size in the header.',
 ['inputs'],'every chunk of every stream, including the empty last chunk and one that fills the block exactly',
 'tests cannot enumerate tampered length words; they check only that a few corrupted files fail',
 [E],[('AD of seal/open','Encryptor.encrypt, Decryptor.decrypt')])
p('C05','Any change to the file header is detected',
 'The header carries a SHA-256 over all of it (magic, version, variable-length size and the variable segment) which the reader recomputes over exactly the bytes it received and compares before it uses any decoded field. The same checksum is an input of the derivation of the data key, nonce and MAC key on both sides, so a header that was altered and re-summed still yields different keys.',
 ['inputs'],'every header, every alteration of any of its bytes',
 'tests corrupt one byte at a few offsets',
 [E],[('checksum over the header','Encryptor.start, NewDecryptor'),('checksum as HKDF salt','Encryptor.start, Decryptor.SetPrivateKey')])
p('C06','A verified sender really made this file',
 'When a sender key is supplied, opening a file succeeds only if a signature that verifies under exactly that key over the magic, the version, the ephemeral public key, the salt and the root key of this file was found; an unsigned file or one signed by another key is refused, and a signed file is refused when no sender key is supplied. AuthenticatedSender() is true only after such a verification succeeded.',
 ['inputs','histories'],'every file and sender key, and every sequence of SetPrivateKey calls',
 'tests try one right and one wrong sender; that no other path accepts a sender needs all paths',
 [E],[('sender verification','Decryptor.verifySender'),('sender signature','Encryptor.addSenderSig')])
p('C07','The trailer authenticates the whole plaintext of a signed file',
 'For a signed file the trailer is the sender\'s signature over a MAC, keyed from the header-bound key material, of every chunk\'s length word and plaintext in order. The reader recomputes that MAC over the chunks it opened and succeeds only if the trailer it read verifies under the same sender key that authenticated the header.',
 ['inputs'],'every signed stream with any number of chunks, including edits made by another recipient who knows the root key',
 'tests never play a malicious recipient who re-seals chunks under the right keys',
 [E],[('running MAC','Encryptor.encrypt, Decryptor.decrypt'),('trailer','writeTrailer, processTrailer')])
p('C08','Plaintext and secrets leave the encryptor only sealed',
 'Everything the encryptor writes to its output is public header data, AEAD output, a signature, a hash or fresh random bytes: no plaintext byte and no byte of the root key, the ephemeral secret, a key-encryption key or the derived data keys is written in the clear. The root key is wrapped only under a key agreed between the ephemeral secret and a recipient that was explicitly added.',
 ['inputs','configurations'],'every call of the encryption API with any keys, recipients and data',
 'tests decrypt what was written; they do not look for leaked material in it',
 [E,ST],[('writes to the output','start, encrypt, writeTrailer'),('key wrapping','wrapKey')])
p('C09','No key and nonce pair is ever used twice',
 'For every AEAD key the library derives, no two seal operations ever use the same nonce, whatever sequence of API calls a program makes: a second Encrypt, a second stream, a stream after Encrypt, writes after Close or after a failed write. Calls that would reuse a context fail and write nothing.',
 ['histories','fault_sequences'],'every sequence of calls on an encryption context and its stream writers, with any of the writes failing',
 'tests use each context once, in the documented order, with writers that do not fail',
 [E,ST],[('context can be started once','Encrypt, NewStreamWriter'),('sticky errors','encWriter')])
p('C10','Keys, salts and nonces are fresh cryptographic randomness',
 'The root key, ephemeral secret, salts, per-recipient nonces, unsigned trailers and generated signing keys are filled completely from the system CSPRNG for each use. If the CSPRNG fails, no key, file or signature is produced from the partial data.',
 ['fault_sequences','inputs'],'every generation of secret or unique material, with the random source failing or short',
 'tests cannot tell random from predictable bytes and never make the random source fail',
 [E,R,K],[('random helpers','sign/rand.go'),('uses','NewEncryptor, newSender, wrapKey, MarshalBinary, NewPrivateKey')])
p('C11','Writer and reader derive the same keys from the same inputs',
 'For each derived value (data key, nonce, MAC key, sender wrap key, recipient wrap key and their nonces) the reader performs the derivation the writer performed: same KDF, secret, salt, label, additional data and position in the output. This holds for every recipient and whether or not the sender is authenticated.',
 ['inputs','configurations'],'every file, every number of recipients, signed or not',
 'round-trip tests sample a few sizes and key sets and would not notice both sides deriving from less than they should',
 [E],[('derivations','start/SetPrivateKey, addSenderSig/verifySender, wrapKey/unwrapKey')])
p('C12','The writer never produces a file the reader must refuse',
 'Every header and chunk the writer emits satisfies the limits the reader enforces: block size, header size, at least one recipient, salt length and wrapped key length, for every requested block size and recipient count. Where it could not, the writer fails before it writes anything.',
 ['inputs','configurations'],'every requested block size (0 to the largest integer) and any number of recipients',
 'tests use a few block sizes and at most a few recipients',
 [E,ST],[('block size clamping','NewEncryptor'),('header checks','start vs NewDecryptor')])
p('C13','An encryption context accepts only a legal sequence of calls',
 'After encryption started, adding a recipient fails and changes nothing; Encrypt() on a context used for streaming, or on one already used, fails and writes nothing; a context without recipients writes nothing. A failed AddRecipient leaves the set of recipients as it was.',
 ['histories'],'every sequence of AddRecipient, Encrypt and NewStreamWriter calls',
 'tests exercise the documented order only',
 [E,ST],[('state flags','Encryptor.started, Encryptor.stream')])
p('C14','A decryption context delivers only after a successful key setup',
 'Decrypt() and the stream reader fail with an error until a SetPrivateKey() call succeeded, also after one that failed part way; a context being read as a stream refuses Decrypt(), and a finished context reports end of data instead of reading on. A key for which the file has no wrapped key is refused.',
 ['histories'],'every sequence of SetPrivateKey, Decrypt and NewStreamReader calls with right and wrong keys',
 'tests use a failing SetPrivateKey only as the last call',
 [E,ST],[('state flags','Decryptor.key, stream, eof')])
p('C15','A failed write or close of the output is never reported as success',
 'If any write or the final close of the destination fails while encrypting, decrypting, or through a stream writer, that call or a later Close() on the stream returns a non-nil error, and a stream writer that failed keeps failing. No operation reports success after dropping output.',
 ['fault_sequences'],'every output operation failing, at any point of any stream',
 'tests write to buffers that never fail',
 [E,ST],[('full writes','fullwrite and its callers'),('close','Encrypt, encWriter.Close')])
p('C16','A failed read of the input is never taken for its end',
 'While encrypting or decrypting, an input read that fails with anything but the regular end of data makes the operation fail: a partial input is never sealed as a complete stream, and an unreadable encrypted stream is never reported as completely decrypted. All bytes a reader delivered together with the end of data are still encrypted.',
 ['fault_sequences','inputs'],'every reader that fails, returns short counts or data together with an error, at any offset',
 'tests read from in-memory buffers that never fail',
 [E],[('chunked input','Encrypt read loop'),('header, chunk and trailer reads','NewDecryptor, decrypt, processTrailer')])
p('C17','The stream writer encrypts each byte once and in order',
 'The stream writer seals the concatenation of all written buffers, each byte exactly once and in order, in chunks of the block size, the last of which (possibly empty) is sealed with the end mark when Close() is called and never earlier. Write() returns the full count or an error; after Close() or an error every call fails and a second Close() seals nothing.',
 ['histories','inputs'],'every split of the data into Write calls, of any sizes relative to the block size',
 'tests use a few split patterns; boundary coincidences and call sequences after Close are not covered',
 [ST],[('buffering','encWriter.Write, encWriter.Close')])
p('C18','The stream reader delivers each plaintext byte once and in order',
 'Successive Read calls deliver exactly the plaintext of the opened chunks, each byte once, in order and never more than fits the caller\'s buffer, whatever the buffer sizes. End of data is reported only after every byte was delivered, and an error stays: no data is delivered after an error or after end of data.',
 ['histories','inputs'],'every sequence of Read calls with any buffer sizes',
 'tests read with a few buffer sizes',
 [ST],[('buffering','encReader.Read')])
p('C19','Memory use on hostile input is bounded by validated sizes',
 'While reading an encrypted file or key file, every allocation, including the working memory of the key derivation, whose size comes from the input is made only after that size was checked against a fixed limit (or against data actually present). A small hostile file cannot make the library allocate without bound.',
 ['inputs'],'every encrypted file and key file',
 'tests never feed huge announced sizes',
 [E,K,SSH],[('limits','NewDecryptor, SetPrivateKey, UnmarshalBinary')])
p('C20','Hostile encrypted input never crashes the reader',
 'No encrypted input, however malformed, makes opening, keying or decrypting panic through an index or slice out of range, a nil dereference or an explicit panic: each ends with a result or an error.',
 ['inputs'],'every byte string given to NewDecryptor, SetPrivateKey, Decrypt and the stream reader',
 'fuzzing samples inputs; the tests use only well-formed files with a few flipped bytes',
 [E,ST,PB],[('validation','NewDecryptor, unwrapKey, decrypt'),('decoder','internal/pb')])
p('C21','Header encoder, size calculator and decoder agree field by field',
 'For every field of the encoded header and of a wrapped key, the size computation, the encoder and the decoder handle the same field number and wire type under the same presence condition and store it in the same field. No field that is written is dropped or redirected on reading, for any number of wrapped keys.',
 ['inputs'],'every header value',
 'tests encode a few headers and never compare the three hand-tunable tables',
 [PB,'internal/pb/hdr.pb.go','internal/pb/helpers.go'],[('generated codec','SizeVT, MarshalToSizedBufferVT, UnmarshalVT')])

p('C22','Decrypting what was encrypted returns identical bytes',
 'For every block size that can be asked for, every sender or none and every position of the own key among the recipients, what was encrypted decrypts to the same bytes, all of the file is read, and the sender is reported as authenticated exactly if there was one: with the plain calls and with the stream writer and reader, for data written in two parts of any size and read in parts of any size, for empty data and for data that ends at, before or after the end of a chunk, whether or not the reader tells the end along with the last bytes, and with keys that were stored and read again. A private key that is no recipient\'s and a sender other than the one who signed, or none, are refused for a file that was signed. Decided for data of up to 5 chunks of any size up to 2^16 (12 in the thorough check; two parts of 3 chunks each for the stream writer, a buffer of at least half a chunk for the stream reader), up to 3 recipients.',
 ['inputs','configurations'],'all contents and lengths within the number of chunks, all block sizes, any recipient position',
 'the tests sample a few sizes and one order of recipients',
 [E,ST,K],[('both directions','Encrypt, Decrypt, NewStreamWriter, NewStreamReader, SetPrivateKey')])
p('S01','A signature verifies only for the signed message and key',
 'Message and file verification return true only if the Ed25519 verification of the given signature under the given public key, over a digest that covers the whole message, succeeded. No other outcome, error, missing or odd-sized signature is reported as verified.',
 ['inputs'],'every message, file, signature and key',
 'tests check one good and a few bad signatures; soundness needs that no path returns true otherwise',
 [S],[('verification','VerifyMessage, VerifyFile')])
p('S02','Signing and verification use the same domain-separated digest',
 'Signing and verifying compute the same digest, over a constant domain label followed by the whole message, and sign or verify that digest and nothing else, with the private key\'s own bytes. The signature returned to the caller is the one made over that digest, and for files both sides use the same file digest.',
 ['inputs'],'every message and file',
 'tests cannot show that no part of the message is left out of both digests',
 [S],[('digest','SignMessage, VerifyMessage, SignFile, VerifyFile')])
p('S03','The file digest covers the whole content and its length',
 'The digest of a file covers all its content in order followed by its length, and any failure to open, map or read the file makes signing and verification return an error: no signature or verdict is ever made from a partly read file.',
 ['inputs','fault_sequences'],'every file, and every failing file operation',
 'tests sign small files that can be read',
 [IO,S],[('file digest','fileCksum')])
p('S04','A stored signature is read back with the same fields',
 'A serialized signature decodes into the signature bytes and key hash it was made from, each in its own field, and undecodable input is an error. A key is reported as matching only if its hash equals the hash stored in the signature, and signing stores the hash of the signer\'s own public key.',
 ['inputs'],'every signature and signature file',
 'tests round-trip one signature',
 [S,K],[('encoding','Signature.MarshalBinary, makeSignature, IsPKMatch')])

p('S05','A signature that was made is accepted',
 'What a private key signs verifies under its public key, and the match of the key hash says so, also after private key, public key and signature were stored, with any comment and passphrase, and read again. The same signature is refused for another key and for another message.',
 ['inputs','histories'],'all keys, messages, comments and passphrases',
 'the tests sample a few messages and one comment',
 [S,K],[('both directions','SignMessage, VerifyMessage, MarshalBinary, UnmarshalBinary')])
p('K01','A stored private key is always sealed under the passphrase',
 'A serialized private key contains the secret only as AEAD ciphertext under a key derived by scrypt, with at least the documented cost, from the whole passphrase and a fresh random salt of this call. Nothing else in the serialized form depends on the secret or the passphrase.',
 ['inputs'],'every key and passphrase (also the empty one)',
 'tests check that decoding works, not what else is in the file',
 [K],[('sealing','PrivateKey.MarshalBinary')])
p('K02','A wrong passphrase or damaged key file never yields a key',
 'Reading a sigtool private key succeeds only if authenticated decryption of the stored secret under the key derived from the supplied passphrase and stored parameters succeeded; a passphrase callback that fails, or any decode failure, is an error. On error the caller gets no usable key.',
 ['inputs','fault_sequences'],'every key file, passphrase and callback outcome',
 'tests try one wrong passphrase',
 [K],[('opening','PrivateKey.UnmarshalBinary, ReadPrivateKey, MakePrivateKey')])
p('K03','OpenSSH private keys are accepted only after full validation',
 'An OpenSSH private key is accepted only if the format magic, a single key, a supported cipher/KDF pair, matching check values, the ed25519 key type, the private key length and the padding were all verified; encrypted keys are decrypted with the key and IV derived from the passphrase and the file\'s salt and rounds. Anything else is an error and yields no key.',
 ['inputs'],'every OpenSSH key file and passphrase',
 'tests have no ssh private key fixtures beyond a few',
 [SSH],[('parsing','parseSSHPrivateKey, parseOpenSSHPrivateKey')])
p('K04','Malformed key and signature files never crash the tool',
 'No key file, public key string, authorized_keys file or signature file makes its parser panic (index or slice out of range, nil dereference, panicking library call): each ends in a value or an error.',
 ['inputs'],'every byte string given to the key and signature parsers',
 'tests parse well-formed files',
 [K,SSH,S],[('parsers','UnmarshalBinary, MakePublicKeyFromString, ParseAuthorizedKeys, makeSignature')])
p('K05','A parsed public key is well formed or an error',
 'Every public key the parsers return without an error is non-nil, holds exactly the 32 key bytes found in the input, and carries the hash of those bytes; keys of other types, lengths or with trailing data are errors or are skipped. This holds for sigtool, OpenSSH and raw string forms.',
 ['inputs'],'every public key input in any of the accepted forms',
 'tests parse a few valid keys',
 [K,SSH],[('parsers','makePublicKeyFromBytes, parseEncPubKey')])
p('K06','A serialized key is read back as the same key',
 'For private and public keys the reader decodes each stored field with the inverse of what the writer applied and uses the KDF, parameters, nonce and additional data the writer used, so a key serialized by this version can be read by it with the same passphrase. The public half of a private key always comes from that private key.',
 ['inputs'],'every key and passphrase',
 'tests round-trip a few keys',
 [K],[('codecs','MarshalBinary/UnmarshalBinary, makePrivateKeyFromBytes')])
p('K07','Encryption keys are converted from the key\'s own bytes and clamped',
 'The Curve25519 secret of a private key is the clamped lower half of the SHA-512 of that key\'s own seed, and the Curve25519 public key used for a recipient is computed from that recipient\'s own public key bytes. A cached conversion is never served for a different key.',
 ['inputs','histories'],'every key and every sequence of conversions',
 'tests cannot cover every key value; a swapped buffer or stale cache shows only for some',
 [K],[('conversion','ToCurve25519SK, ToCurve25519PK, clamp')])

p('F01','Output files appear only complete',
 'Every file the commands or the key and signature serializers create (keys, signatures, encrypted and decrypted output) is written through a temporary that replaces the target only at a close after all data was written successfully. No output path is opened, truncated or written directly.',
 ['crash_points','fault_sequences'],'every command, output option and failing step',
 'tests do not inject failures or look at partial files',
 [CR,'src/sign.go','src/gen.go',IO],[('atomic files','fio.NewSafeFile users')])
p('F02','Existing files are overwritten only on request',
 'An existing output file is replaced only if the user gave the overwrite option (or the API caller asked for it); without it the command fails and leaves the file as it was.',
 ['configurations','inputs'],'every command and option combination',
 'the tests do not run the commands',
 [CR,'src/sign.go','src/gen.go',IO],[('overwrite flag','NewSafeFile options')])
p('F03','Encrypt and decrypt never clobber their own input',
 'If the output option of encrypt or decrypt names the same file as the input file that was named on the command line (by any name or link), the command refuses before it creates or writes the output.',
 ['configurations','inputs'],'every input/output path combination, with or without overwrite',
 'the tests do not run the commands',
 [CR],[('same-file guard','encrypt, decrypt')])
p('F04','The exit status reports every failure',
 'A command exits with status 0 only if every step of it succeeded: option parsing, reading keys and input, the cryptographic operation, and writing and closing its output. Every failure reaches a non-zero exit.',
 ['fault_sequences','inputs'],'every failing step of every command',
 'the tests do not run the commands with failing steps',
 ['src/sigtool.go',CR,'src/sign.go','src/gen.go','src/verify.go','src/die.go'],[('error checks','command functions'),('exit','Die, Exit')])
p('F05','A failing command leaves no output behind',
 'On every path on which a command or serializer created a temporary output file and then fails, the temporary is removed and the target is not created or replaced. That includes exits from error handling anywhere in the command. (A key pair is two outputs: a private key that was written completely stays when the public key then cannot be written.)',
 ['fault_sequences'],'every failure after the output was created',
 'the tests do not run the commands with failing steps',
 [CR,'src/sign.go',IO,'src/die.go'],[('abort','AtExit, defer Abort, Exit')])
p('F06','Private keys and decrypted files are private to the user',
 'Files that hold a private key, encrypted or decrypted data are created with permissions for the owner only (0600). Only public keys and signatures are created world readable, and never writable by others.',
 ['configurations'],'every command and option combination',
 'tests do not look at file modes',
 [CR,K,IO],[('modes','NewSafeFile calls')])
p('F07','Secrets are printed only in debug mode',
 'Passphrases, private keys, root keys, key-encryption keys, derived data keys and plaintext are never printed, logged or placed in an error message, except by the debug output that the user turns on explicitly with the debug option, and that output is off by default.',
 ['inputs','fault_sequences'],'every path, in particular error paths',
 'tests do not read messages',
 [E,K,S,SSH,CR],[('debug gate','debug')])
p('F08','Encryption covers every named recipient or fails',
 'The encrypt command adds a recipient for every recipient argument, from the key that argument names, and fails before it writes output if any of them cannot be resolved or added. The input file argument is never taken for a recipient.',
 ['inputs','configurations'],'every list of recipient arguments',
 'the tests do not run the command',
 [CR],[('recipient loop','encrypt')])
p('F09','The verify command accepts only a verified signature by the given key',
 'The verify command exits 0 and prints success only if the key matches the signature\'s key hash and verification of the named file under that key returned true without an error. With the quiet option the exit status is the same.',
 ['inputs','configurations'],'every key, signature and file, every option',
 'the tests do not run the command',
 ['src/verify.go'],[('verdict','verify')])
p('F10','The passphrase used is the one the user selected',
 'Private keys are read or written with the passphrase from the named environment variable if that option was given, otherwise from a prompt (with confirmation when a key is generated), and without one only if the user said so. A failed prompt ends the command: no key is made and no data are signed or encrypted after it.',
 ['configurations','fault_sequences'],'every combination of the password options and prompt outcomes',
 'the tests do not run the commands',
 [CR,'src/sign.go','src/gen.go'],[('passphrase callbacks','encrypt, decrypt, signify, gen')])
p('F11','A user@host recipient resolves only to that user\'s listed key',
 'A recipient given as a string is resolved to a key of the authorized_keys file only if that key\'s comment equals the string; when nothing matches or the file cannot be read or parsed, the command fails instead of using another key.',
 ['inputs'],'every authorized_keys file and recipient string',
 'the tests do not run the command',
 [CR,SSH],[('lookup','findPk / authorized_keys code in crypt.go')])
p('F12','Decrypt with a sender key insists on that sender',
 'When the decrypt command is given a sender public key, that key is parsed or the command fails, and it is the key against which the file is verified before any output is written to the target. The output is finished only if the whole decryption succeeded.',
 ['inputs','configurations'],'every file, sender key option and failing step',
 'the tests do not run the command',
 [CR],[('sender option','decrypt')])
p('F13','The commands act on the keys and files that were named',
 'generate writes the private key it made to PREFIX.key and the public key of that same key to PREFIX.pub, with the comment given. sign signs the file named with the private key named and writes that signature to the output named (FILE.sig by default). encrypt uses the sender key and block size given (no sender if none was given) and decrypt reads the file named (standard input if none or "-"); both write to the output file named, or to standard output if none was; decrypt with the test option writes nothing.',
 ['inputs','configurations'],'every combination of options and arguments',
 'the tests run a few combinations',
 [CR,'src/sign.go','src/gen.go'],[('arguments','gen, signify, encrypt, decrypt')])

p('X02','The Ed25519 to Curve25519 public key map is numerically right',
 'For every Ed25519 public key, the converted key is the Montgomery u-coordinate of the same point, so that both parties of every key agreement compute the same secret.',
 ['inputs'],'all valid Ed25519 keys',
 'tests use a few random keys',
 [K],[('conversion','ToCurve25519PK')])
p('X03','Secret-dependent comparisons do not leak through timing',
 'The time that verification, key matching and decryption take does not depend on secret bytes.',
 ['inputs'],'all secrets',
 'timing is not observed by tests',
 [E,S],[('constant time compares','subtle.ConstantTimeCompare')])
p('X04','A finished output file survives a power failure',
 'Once a command that wrote an output file exited with status 0, the complete file is on stable storage.',
 ['crash_points'],'a power failure at any point after exit',
 'tests cannot cut power',
 [IO,CR],[('close of the safe file','github.com/opencoff/go-fio')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
