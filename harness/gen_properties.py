import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(title,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every listed recipient can recover exactly the plaintext",
 "A file encrypted to a list of recipients (age keys, ssh-rsa keys, ssh-ed25519 keys, passwords, in any number, mix and order) decrypts to exactly the original bytes with any single identity that belongs to one of them. This holds wherever that recipient stands in the list, whatever other identities are tried along with it and in whatever order they are supplied, and for every plaintext length.",
 ["inputs","configurations"],"every recipient list, every identity collection containing one match, every plaintext length (0, below, at and above each 64 KiB chunk boundary)",
 "The tests wrap a file key for one recipient of one kind at a time and never decrypt a whole file (the three CLI decryption tests do not run here); lists of several recipients, non-matching identities beside matching ones and sizes around the chunk boundaries are not reached.",
 ["src/age/file.py","src/age/recipients/helpers.py","src/age/recipients/x25519.py","src/age/recipients/ssh_rsa.py","src/age/recipients/ssh_ed25519.py","src/age/recipients/scrypt.py","src/age/algorithms/"],
 [("wrap the file key once per recipient","Encryptor._write_header"),("try every key of the right type on every stanza, go on after a mismatch","decrypt_file_key")],
 [("file key","16 random bytes wrapped to every recipient","Encryptor._file_key")],["age.file.Encryptor","age.file.Decryptor"])

p("C02","Nobody but a listed recipient can decrypt",
 "Decryption with a collection of identities none of which belongs to a recipient of the file always fails with the documented no-identity error and yields no plaintext, whatever number and kinds of identities are tried (including none, wrong passwords and other keys of the same kind as a recipient). Key material taken from one file, or from another file's stanzas, never opens a file it was not made for.",
 ["inputs","configurations"],"every recipient list and every identity collection disjoint from it",
 "Tests try one wrong age key and an empty list; mixes of kinds, wrong passwords, SSH keys that share nothing with the stanza, and stanzas moved between files are not tried.",
 ["src/age/recipients/helpers.py","src/age/algorithms/","src/age/file.py"],
 [("AEAD-wrapped file key under a key only the recipient derives","age.algorithms.*"),("NoIdentity when no attempt succeeds","decrypt_file_key")],None,["age.file.Decryptor"])

p("C03","Any change to the encrypted payload is detected",
 "If the payload part of an encrypted file (the nonce and the encrypted chunks) is altered in any way - bits flipped, chunks removed, repeated, reordered or taken from another file, data appended, or the file cut at any point, including at a chunk boundary and including removal of all chunks - decryption fails and yields no plaintext. So a proper prefix of an encrypted file, as a crash while writing leaves it, is never accepted.",
 ["inputs","fault_sequences","crash_points"],"every file, every alteration of its payload, every truncation point",
 "No test decrypts an altered payload; the stream test is one round trip of two chunks.",
 ["src/age/stream.py","src/age/file.py"],
 [("chunk counter and last-chunk flag in the AEAD nonce","_pack_nonce, stream_decrypt"),("payload key derived from file key and nonce","Encryptor._hkdf"),("plaintext only handed out after the last chunk verified","Decryptor._decrypt_body")],
 [("chunk counter","position of the chunk","stream_decrypt"),("last flag","marks the final chunk","stream_decrypt")],["age.file.Decryptor","age.stream.stream_decrypt"])

p("C04","Any change to the header is detected",
 "If anything in the header of an encrypted file up to the closing marker is changed - the version line, any recipient stanza's type, arguments, body or layout, the number or order of stanzas, extra lines - or its authentication code is replaced, shortened or removed, decryption fails and yields no plaintext. A header combined from parts of several genuine files is never accepted, even if the identity used opens one of its stanzas.",
 ["inputs","fault_sequences"],"every file and every edit, insertion, deletion, reordering or splice of its header",
 "The only header test parses one fixed text; no test alters a header and decrypts.",
 ["src/age/format.py","src/age/file.py","src/age/primitives/hmac.py"],
 [("HMAC over the header keyed from the file key, verified before the payload is touched","Decryptor._decrypt_header"),("header bytes as received are what is authenticated","load_header")],
 [("header MAC","HMAC-SHA256 over intro..---","Encryptor._write_header")],["age.file.Decryptor"])

p("C05","Files produced follow the age v1 format",
 "Every file produced is a well-formed age v1 file that an independent implementation of the format decrypts: version line, one stanza per requested key in the order given with the type, arguments, key tag and wrapped file key the format prescribes for that kind of key, bodies in unpadded base64 wrapped at 64 columns and ended by a shorter (possibly empty) line, header authentication code, 16-byte nonce, then 64 KiB chunks. The chunk sequence is numbered from zero, only the final chunk is marked final, it is empty only for an empty plaintext, and nothing follows it.",
 ["inputs","configurations"],"every recipient list, key size and plaintext length",
 "Tests compare one file (one X25519 recipient, 12 bytes) with a fixed output; other recipient kinds, several stanzas, key sizes whose bodies fill their last line and multi-chunk payloads are not compared with the format; the interoperability job needs the network and the Go tool.",
 ["src/age/file.py","src/age/format.py","src/age/stream.py","src/age/algorithms/","src/age/primitives/"],
 [("header serialisation","dump_header"),("chunking and nonces","stream_encrypt"),("labels, salts and tags per recipient kind","age.algorithms.*")],None,["bytes written by age.file.Encryptor"])

p("C06","Files made by other age v1 implementations are accepted",
 "A well-formed age v1 file produced by another implementation decrypts to its plaintext with a matching identity, whatever the number, kinds and order of its stanzas. Stanzas of unknown types, with any arguments and bodies of any length (including none), before, between or after the known ones, are ignored and never prevent decryption.",
 ["inputs","configurations"],"every well-formed header with known and unknown stanzas, every plaintext length",
 "One test parses a header of five known stanzas; no test decrypts a file not produced by the same code, nor one with unknown stanzas.",
 ["src/age/format.py","src/age/file.py","src/age/recipients/helpers.py","src/age/stream.py"],
 [("unknown stanza types are skipped","Decryptor._decrypt_header"),("header line parser","load_header")],None,["age.file.Decryptor"])

p("C07","Every encryption uses fresh secrets",
 "No two encryptions - of the same or different data, to the same or different recipients, by the same or different objects or processes, interleaved in any way - share a file key, payload nonce, payload key, ephemeral key share or password salt, and two stanzas of one file never share an ephemeral key share or password salt. Consequently no encryption key is ever used twice with the same nonce.",
 ["histories","schedules"],"every history of encryptions in one or several processes",
 "Tests replace the random source by a constant or look at a single encryption; nothing compares the secrets of several files.",
 ["src/age/file.py","src/age/primitives/random.py","src/age/algorithms/x25519.py","src/age/algorithms/scrypt.py"],
 [("file key and nonce drawn per object","Encryptor.__init__, _encrypt_buffer"),("ephemeral secret and salt drawn per stanza","x25519_encrypt_file_key, scrypt_encrypt_file_key")],None,["bytes written by age.file.Encryptor"])

p("C08","Encrypting and decrypting objects behave as byte streams in any history",
 "However the plaintext is split into writes, and however many encrypting and decrypting objects are used in interleaved fashion, each file contains exactly the bytes written to its own object before it was closed, in order. Closing more than once changes nothing, writing after close is refused, and reads of any sizes return consecutive pieces of the plaintext until it is exhausted, then nothing. An object whose creation fails, or whose with-block ends with an exception, never leaves a file that decrypts.",
 ["histories","schedules","fault_sequences"],"every interleaving of opens, writes, reads, closes and failures over several objects",
 "Tests use one object at a time with one write and one read; histories, splits, repeated closes and failures are not tried.",
 ["src/age/file.py","src/age/format.py"],
 [("plaintext buffer per object, sealed once on close","Encryptor.write/close"),("decrypted bytes served from one cursor","Decryptor.read")],
 [("buffer","bytes written so far","Encryptor._plaintext_buffer"),("closed","whether the file was completed","io.RawIOBase")],["age.file.Encryptor","age.file.Decryptor"])

p("C09","Password stanzas: right password only, bounded work",
 "A file encrypted to a password opens with exactly that password (any byte string) and with no other password that scrypt distinguishes from it. A password stanza whose work factor is not an integer from 1 to 22 never opens and is refused without doing the work, for every value including zero, negative and huge ones, while every work factor in that range stated by a valid file is honoured.",
 ["inputs"],"every password, every work factor text",
 "Tests use one cost with one password, and the values 100 and -1.",
 ["src/age/algorithms/scrypt.py","src/age/recipients/scrypt.py","src/age/primitives/scrypt.py"],
 [("work factor range check before key derivation","scrypt_decrypt_file_key")],None,["age.file.Decryptor","calls of the key derivation function"])

p("A01","ASCII armor preserves every byte string",
 "Writing data of any length through the ASCII armor, in any split into writes, and closing it delivers to the underlying stream a begin line, base64 text in lines of exactly 64 characters except a shorter last one, and an end line; reading it back yields exactly the data, in reads of any size. After closing, the complete text has reached the underlying stream, which stays open.",
 ["inputs","histories"],"every data length, every split into writes and reads",
 "Tests write and read one 1024-byte value with the helper functions; the stream classes are never exercised.",
 ["src/age/utils/asciiarmor.py"],
 [("buffer encoded on close","AsciiArmoredOutput"),("section decoder","AsciiArmoredInput")],None,["age.utils.asciiarmor.AsciiArmoredOutput","age.utils.asciiarmor.AsciiArmoredInput"])

p("A02","Damaged ASCII armor is rejected, never partly decoded",
 "Reading an armored file yields data only if the text contains exactly one complete section with the expected label - matching begin and end lines, all lines full 64 columns except a possibly shorter last one, valid base64 - and then yields that section's whole content; text outside sections and complete sections with other labels are ignored. Everything else (no section, a missing or mismatched end line, a begin line with an invalid label, over-long or short inner lines, invalid base64, a second section with the label) is an error, so a truncated armored file is never accepted as shorter data.",
 ["inputs","crash_points"],"every text over the line forms the reader distinguishes, every truncation point",
 "Three malformed texts are tried; combinations of line forms, several sections and truncations are not.",
 ["src/age/utils/asciiarmor.py"],
 [("line state machine","read_ascii_armored"),("one section with the label","AsciiArmoredInput._decode_body")],
 [("current label","section being read","read_ascii_armored"),("buffer","lines of the section","read_ascii_armored")],["age.utils.asciiarmor.read_ascii_armored","age.utils.asciiarmor.AsciiArmoredInput"])

p("K01","Key strings identify keys exactly and damaged ones are rejected",
 "The text form of every age public and private key reads back as the same key, in lower or upper case. A text obtained from a key string by altering up to four characters (other than their case), by using the string of the other kind of key or another prefix, by changing its length, or with a payload that is not 32 bytes is always rejected, so a mistyped key is never taken for another key.",
 ["inputs"],"every key, every corruption of up to four characters, every prefix and payload length",
 "Tests decode one key pair and a list of fixed Bech32 strings (the rejection test checks a misspelt exception type); corruptions of key strings are not tried.",
 ["src/age/primitives/bech32.py","src/age/keys/agekey.py"],
 [("Bech32 checksum, prefix and length checks","bech32_decode, AgePublicKey.from_public_string, AgePrivateKey.from_private_string")],None,["age.keys.agekey","age.primitives.bech32"])

p("K02","Identity files are read completely or rejected",
 "Reading an identity file yields exactly the keys on its lines, in order, ignoring only blank lines and lines starting with '#', with surrounding white space and any line-ending style tolerated; a file that does not exist yields no keys. A line that is neither blank, comment nor a valid private key makes the whole file an error: no key is silently skipped or altered.",
 ["inputs","configurations"],"every sequence of key, comment, blank and damaged lines",
 "One file with one key and one missing file are tried.",
 ["src/age/keyloader.py"],[("line loop","load_keys_txt")],None,["age.keyloader.load_keys_txt"])

p("K03","An SSH private key loads as that key or not at all",
 "Loading an OpenSSH private key file, passphrase protected or not, of any supported key type and size yields the key it contains. If the container is damaged, truncated, uses an unsupported cipher, key type or number of keys, fails its check values or padding, or the passphrase is missing or wrong, loading reports an error; it never yields a different key.",
 ["inputs","fault_sequences"],"every key type and size, cipher, passphrase and container deviation",
 "Tests load five fixed keys and try one wrong passphrase; damaged containers, other ciphers and sizes are not tried.",
 ["src/age/openssh_keys.py","src/age/keys/rsa.py","src/age/keys/ed25519.py"],
 [("container parser and check values","load_openssh_private_key"),("bcrypt KDF and AES-CTR","_decrypt_key")],None,["age.openssh_keys.load_openssh_private_key"])

p("K04","Unusable files never hide usable SSH identities",
 "Looking for SSH identities in a directory yields every usable RSA and Ed25519 private key among its id_* files, whatever other files with such names lie beside them - public keys, passphrase-protected, damaged or unsupported keys, non-text files, directories, empty files - and a missing directory yields none. Such files never stop a decryption for which another supplied identity is sufficient.",
 ["configurations"],"every mix of usable and unusable files in the key directory",
 "One directory with an RSA key, an Ed25519 key and an almost empty file is tried.",
 ["src/age/keyloader.py","src/age/openssh_keys.py"],[("per-file loading","load_ssh_keys, load_ssh_private_key")],None,["age.keyloader.load_ssh_keys","pyage decrypt"])

p("K05","SSH keys load exactly and are identified as OpenSSH identifies them",
 "Reading an SSH public key line (ssh-rsa or ssh-ed25519), directly, as a recipient or from a key file, yields exactly the key encoded in it or an error: a line whose encoding is cut short, continues after the key, or names another key type than the line never loads. A key's binary encoding is the RFC 4253 one, its MD5 and SHA256 fingerprints and fingerprint line are those OpenSSH prints for that encoding, and two keys compare equal (and hash equal) exactly if their encodings are equal. A private key read from PKCS#1, PKCS#8 or OpenSSH text, with its passphrase if it has one, is the key in that text: its public half, and for Ed25519 the X25519 pair derived from it, belong to it; text of another key type, a wrong or missing passphrase and cut text never load. Generated keys are new and have the size asked for.",
 ["inputs","configurations"],"every key of either type, every spelling of its line, every way to write a private key",
 "Tests check the fingerprints of one RSA and one Ed25519 key and load five fixed private keys; damaged lines, other sizes, equality and conversion are not tried.",
 ["src/age/keys/rsa.py","src/age/keys/ed25519.py","src/age/keyloader.py"],
 [("line parsing, encoding, fingerprints, equality","RSAPublicKey, Ed25519PublicKey"),("PEM loading and conversion","from_pem, to_age_private_key, to_age_public_key")],None,["age.keys.rsa","age.keys.ed25519"])

p("R01","Recipient names resolve to exactly the keys they denote",
 "A recipient given as age key, SSH public key, key file, URL, GitHub user or alias resolves to exactly the public keys it denotes, in order, without omissions or additions; an alias resolves to the keys of all its values, from all lines defining it, and is preferred to a file of the same name. An alias with a value that cannot be resolved, a key line that is malformed, and a failed download are errors; a name that denotes nothing resolves to no key.",
 ["inputs","configurations"],"every recipient string and every content of alias file, key files and URLs",
 "One literal key is resolved; files, URLs, GitHub names and alias expansion are not tested, and alias files only parsed.",
 ["src/age/keyloader.py"],[("resolution order alias, github, file, URL, literal","resolve_public_key"),("alias file parser","load_aliases")],None,["age.keyloader.resolve_public_key","age.keyloader.load_aliases"])

p("R02","Key lists are never expanded further",
 "Lines of a recipients file or of a downloaded list are only ever taken as literal public keys: a line naming an alias, a file, a URL or a GitHub user causes no file access and no network access and contributes no key. Values of an alias may name files, URLs and GitHub users, but never another alias.",
 ["inputs","configurations"],"every nesting of aliases, files, URLs and GitHub names",
 "No test reads a list at all.",
 ["src/age/keyloader.py"],[("read_aliases/read_files/read_urls switched off for list lines","resolve_public_key")],None,["files opened and URLs requested during age.keyloader.resolve_public_key"])

p("L01","The encrypt command serves all named recipients or does nothing",
 "If 'encrypt' succeeds, the output opens for every recipient named on the command line and for the prompted password if one was asked for, and for nobody else. If any named recipient cannot be resolved, if there is no recipient at all, or if output would go to a standard output that is a terminal, it exits with a non-zero status, reads nothing from the input into any output, and leaves an existing output file as it was.",
 ["inputs","configurations"],"every list of recipient arguments and every option combination",
 "Tests cover one valid recipient, no recipient and a mocked terminal; unresolvable names beside valid ones and existing output files are not tried.",
 ["src/age/cli.py","src/age/keyloader.py"],[("resolve everything before writing","encrypt")],None,["pyage encrypt"])

p("L02","The decrypt command releases nothing unless the whole file is authentic",
 "If 'decrypt' exits with status zero, it has written exactly the original plaintext to its output. If the input is damaged anywhere, truncated, not an age file, in the wrong armor mode, or no supplied identity fits, it exits with a non-zero status, writes nothing to standard output and does not create or modify the output file.",
 ["inputs","fault_sequences","configurations"],"every damaged or foreign input, every identity configuration and output destination",
 "The three decryption tests do not run here and try only valid input; failures are not tested.",
 ["src/age/cli.py","src/age/file.py","src/age/stream.py"],[("plaintext is written only after complete verification","decrypt"),("output opened lazily","click.File")],None,["pyage decrypt"])

p("L03","A failed encryption is reported and never looks complete",
 "If reading the input or writing the output fails at any point of an 'encrypt' run - binary or armored, to a file or to standard output - the command exits with a non-zero status, and what it left behind never decrypts successfully to anything but the complete plaintext. Exit status zero means the complete file has been delivered to its destination; a run killed at any point leaves nothing that decrypts to truncated data.",
 ["fault_sequences","crash_points"],"every point at which a read or write fails or the process dies",
 "No test makes a read or a write fail.",
 ["src/age/cli.py","src/age/file.py","src/age/utils/asciiarmor.py"],[("with-block aborts instead of sealing","Encryptor.__exit__"),("armor closed explicitly","encrypt"),("final chunk flag","stream_encrypt")],None,["pyage encrypt"])

p("L04","Generated key files work and do not leak",
 "Every run of 'generate' creates a new key pair and writes a file that reads back as an identity file with exactly that key, whose comment and the public key reported on standard error name its public key; the secret key appears nowhere but in the output. If the output is a regular file that group or others may access in any way, for every permission combination, a warning is printed, and otherwise none.",
 ["configurations","histories"],"every output destination and all 512 permission combinations",
 "One generation to a captured standard output with a fixed key is tested; files and permissions are not.",
 ["src/age/cli.py","src/age/keys/agekey.py"],[("permission check","generate")],None,["pyage generate"])

p("L05","Encrypt and decrypt commands are inverse in every configuration",
 "For every choice of input from file or standard input, output to file or standard output, armored or binary, recipients given in any form, with or without password, the output of 'encrypt' fed to 'decrypt' with the matching options and a matching identity - in the default identity file, in an identity file argument, among the SSH keys, or by password - reproduces the input bytes.",
 ["configurations","inputs"],"every combination of input, output, armor, recipient form and identity source",
 "No command-line round trip is tested.",
 ["src/age/cli.py","src/age/keyloader.py","src/age/file.py","src/age/utils/asciiarmor.py"],[("option handling","cli_encrypt, cli_decrypt"),("identity sources","decrypt")],None,["pyage encrypt","pyage decrypt"])
p("L06","Commands change nothing but their output and reveal no secrets",
 "Whatever its outcome, a run of 'encrypt', 'decrypt' or 'generate' creates, writes, renames or removes no file but the output it was told to write, not even for a while: input, identity files, SSH keys, alias and recipient lists keep content and permissions, an existing output file stays the same file with the same permissions and is not removed, and nothing is left in the home, working or temporary directory. The password, private keys (also those in damaged identity files), file keys and plaintext appear in no message, on no terminal and in no file, except the plaintext in the output of 'decrypt' and the new key in the output of 'generate'. The only connections made are those 'encrypt' needs for the recipients named; 'decrypt' and 'generate' contact nobody, and no command starts another program.",
 ["outcomes","configurations","inputs"],"every way a run can end, with every kind of file around it; effects during the run count as well as those left behind",
 "Tests look at the result of a few successful calls, never at what else happens.",
 ["src/age/cli.py","src/age/keyloader.py","src/age/file.py","src/age/stream.py","src/age/openssh_keys.py","src/age/recipients/helpers.py"],[("reading of identities","load_keys_txt, load_ssh_keys"),("messages","encrypt, decrypt, generate"),("fetching","resolve_public_key")],None,["pyage encrypt","pyage decrypt","pyage generate"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
