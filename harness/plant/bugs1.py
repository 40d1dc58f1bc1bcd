BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
F = "src/age/"
LIB = '''
from age.file import Encryptor, Decryptor
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.password import PasswordKey
def enc(keys, data):
    b = io.BytesIO()
    with Encryptor(keys, b) as e:
        e.write(data)
    return b.getvalue()
def dec(keys, f):
    return Decryptor(keys, io.BytesIO(f)).read()
def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False
'''
bug("c01-one-identity-per-kind", "C01", [(F+"recipients/helpers.py",
"    return set(k for k in keys if isinstance(k, recipient.DECRYPTION_KEY_TYPE))",
"    # one attempt per kind of key is enough\n    return {type(k): k for k in keys if isinstance(k, recipient.DECRYPTION_KEY_TYPE)}.values()")],
"two identities of the same kind, the matching one not last", "a listed recipient who supplies two age identities cannot decrypt when the matching one comes first",
LIB + '''
a, b = AgePrivateKey.generate(), AgePrivateKey.generate()
assert dec([b, a], enc([a.public_key()], b"x")) == b"x"
assert dec([a, b], enc([a.public_key()], b"x")) == b"x"
''')
bug("c05-nonce-one-byte", "C05", [(F+"stream.py",
'    return nonce.to_bytes(11, byteorder="big", signed=False) + (b"\\x01" if last_block else b"\\x00")',
'    return bytes(10) + bytes([nonce & 0xFF]) + (b"\\x01" if last_block else b"\\x00")')],
"a payload of more than 256 chunks (16 MiB)", "chunk numbers start again at zero after 256 chunks, so nonces repeat and other implementations cannot read the file",
'''
from age.stream import _pack_nonce, stream_encrypt
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
c = stream_encrypt(bytes(32), bytes(257 * 65536))
a = ChaCha20Poly1305(bytes(32))
last = c[256 * 65552:]
assert a.decrypt((256).to_bytes(11, "big") + b"\\x01", last, None) == bytes(65536)
''')
bug("c03-unmarked-final-chunk", "C03", [(F+"stream.py",
"        decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)",
"        try:\n            decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)\n"
"        except InvalidTag:\n            # written by an implementation that does not mark the final chunk\n"
"            decrypted += aead.decrypt(nonce=_pack_nonce(nonce), data=block, associated_data=None)"),
(F+"stream.py", "import math\n\n", "import math\n\nfrom cryptography.exceptions import InvalidTag\n")],
"a file of several chunks cut exactly at a chunk boundary", "a truncated file decrypts to a prefix of the plaintext",
LIB + '''
k = AgePrivateKey.generate()
f = enc([k.public_key()], bytes(70000))
assert len(dec([k], f)) == 70000
cut = f[:len(f) - (70000 - 65536 + 16)]
assert refused(dec, [k], cut)
''')
bug("c04-short-mac", "C04", [(F+"primitives/hmac.py", "        self.mac.verify(tag)\n",
"        digest = self.mac.finalize()\n        # tolerate truncated tags\n        if len(tag) > len(digest) or not constant_time.bytes_eq(digest[: len(tag)], tag):\n"
"            raise InvalidSignature(\"Signature did not match digest.\")\n"),
(F+"primitives/hmac.py", "from cryptography.hazmat.primitives import hashes\n", "from cryptography.hazmat.primitives import constant_time, hashes\n")],
"a header whose authentication code is shortened, e.g. to one byte that is then guessed", "a header with changed stanzas is accepted with a truncated (forgeable) code",
LIB + '''
import base64
k, o = AgePrivateKey.generate(), AgePrivateKey.generate()
f = enc([k.public_key()], b"secret")
head, rest = f.split(b"\\n--- ", 1)
mac, payload = rest.split(b"\\n", 1)
short = base64.b64encode(base64.b64decode(mac + b"=")[:3])
assert refused(dec, [k], head + b"\\n--- " + short + b"\\n" + payload)
''')
bug("c06-type-case", "C06", [(F+"recipients/helpers.py", "        if subclass.TAG == type:\n", "        if subclass.TAG.lower() == type.lower():\n")],
"a stanza of an unknown type whose name differs from a known one only in letter case", "a stanza of an unknown type (x25519) is taken for a known one and makes the file unreadable",
LIB + '''
import hashlib, hmac, base64
from age.primitives.hkdf import hkdf
from age.algorithms.x25519 import x25519_encrypt_file_key
from age.primitives.encode import encode
from age.stream import stream_encrypt
k = AgePrivateKey.generate()
fk = os.urandom(16)
share, body = x25519_encrypt_file_key(k.public_key(), fk)
head = ("age-encryption.org/v1\\n-> x25519 a b\\n\\n-> X25519 %s\\n%s\\n---" % (encode(share), encode(body))).encode()
mac = hmac.new(hkdf(b"", b"header", fk, 32), head, hashlib.sha256).digest()
n = os.urandom(16)
f = head + b" " + encode(mac).encode() + b"\\n" + n + stream_encrypt(hkdf(n, b"payload", fk, 32), b"hello")
assert dec([k], f) == b"hello"
''')
bug("c07-random-pool", "C07", [(F+"primitives/random.py", "    return os.urandom(n)\n",
"    # fetch randomness in larger pieces to save system calls\n    if len(_pool) < n:\n        _pool.extend(os.urandom(n + 256))\n"
"    result = bytes(_pool[:n])\n    del _pool[:n]\n    return result\n"),
(F+"primitives/random.py", '__all__ = ["random"]\n', '__all__ = ["random"]\n\n_pool = bytearray()\n')],
"two processes forked from one that has encrypted before", "the forked processes use the same file keys, nonces and ephemeral shares",
LIB + '''
k = AgePrivateKey.generate().public_key()
enc([k], b"warm up")
out = []
for i in range(2):
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, enc([k], b"x"))
        os._exit(0)
    os.close(w)
    out.append(os.read(r, 100000))
    os.wait()
share = [f.split(b"\\n")[1] for f in out]
assert share[0] != share[1]
''')
bug("c07-salt-per-key", "C07", [(F+"algorithms/scrypt.py", "    salt = random(16)\n    cost = 1 << log_cost\n",
"    salt = _salts.setdefault(password, random(16))\n    cost = 1 << log_cost\n"),
(F+"algorithms/scrypt.py", "MAX_LOG_COST = 22\n", "MAX_LOG_COST = 22\n\n# salts in use, by password object\n_salts: typing.Dict[PasswordKey, bytes] = {}\n\n")],
"one password object used for two files (or twice in one)", "two encryptions share a password salt",
LIB + '''
from age.algorithms.scrypt import scrypt_encrypt_file_key
p = PasswordKey(b"x")
a = scrypt_encrypt_file_key(p, bytes(16), 10)
b = scrypt_encrypt_file_key(p, bytes(16), 10)
assert a[0] != b[0]
''')
bug("c08-kept-reference", "C08", [(F+"file.py", "        self._plaintext_buffer += data\n        return len(data)",
"        self._pieces.append(data)\n        return len(data)"),
(F+"file.py", '        self._plaintext_buffer: bytes = b""\n', '        self._pieces: typing.List[bytes] = []\n'),
(F+"file.py", "        ciphertext = stream_encrypt(stream_key, self._plaintext_buffer)\n", '        ciphertext = stream_encrypt(stream_key, b"".join(self._pieces))\n'),
(F+"file.py", '        self._plaintext_buffer = b""\n', "        self._pieces = []\n")],
"a caller that reuses one mutable buffer for several writes", "the file contains the buffer's last contents instead of the bytes written",
LIB + '''
k = AgePrivateKey.generate()
out = io.BytesIO()
with Encryptor([k.public_key()], out) as e:
    buf = bytearray(4)
    for word in (b"aaaa", b"bbbb"):
        buf[:] = word
        e.write(buf)
assert dec([k], out.getvalue()) == b"aaaabbbb"
''')
bug("c08-read-zero", "C08", [(F+"file.py", "        return self._plaintext_stream.read(size)", "        return self._plaintext_stream.read(size or -1)")],
"a read of size zero", "read(0) returns the rest of the plaintext, which a later read then lacks",
LIB + '''
k = AgePrivateKey.generate()
d = Decryptor([k], io.BytesIO(enc([k.public_key()], b"hello")))
assert d.read(0) == b"" and d.read() == b"hello"
''')
bug("c09-work-factor-byte", "C09", [(F+"recipients/scrypt.py", "        return cls(decode(args[0]), int(args[1]), decode(body))",
"        # the work factor is a single byte\n        return cls(decode(args[0]), int(args[1]) & 0xFF, decode(body))")],
"a stanza with a work factor of 256 or more (or negative) that is small modulo 256", "a work factor of 266 is taken for 10 and the file opens",
LIB + '''
from age.algorithms.scrypt import scrypt_encrypt_file_key
from age.recipients.scrypt import SCryptRecipient
from age.primitives.encode import encode
p = PasswordKey(b"x")
salt, n, body = scrypt_encrypt_file_key(p, bytes(16), 10)
assert refused(lambda: SCryptRecipient.load([encode(salt), "266"], encode(body)).decrypt(p))
''')
bug("c09-password-until-nul", "C09", [(F+"primitives/scrypt.py", "    return kdf.derive(password)", "    return kdf.derive(password.partition(b\"\\0\")[0])")],
"a password with a zero byte in it", "two passwords that agree up to the zero byte open the same file",
LIB + '''
from age.algorithms.scrypt import scrypt_encrypt_file_key, scrypt_decrypt_file_key
r = scrypt_encrypt_file_key(PasswordKey(b"ab\\0cd"), bytes(16), 10)
assert scrypt_decrypt_file_key(PasswordKey(b"ab\\0cd"), *r) == bytes(16)
assert refused(scrypt_decrypt_file_key, PasswordKey(b"ab\\0ef"), *r)
''')
bug("a02-end-label-prefix", "A02", [(F+"utils/asciiarmor.py", "                if label == in_label:\n", "                if label.startswith(in_label):\n")],
"an end line whose label continues after the begin line's label", "a section that ends with another label is accepted",
'''
from age.utils.asciiarmor import AsciiArmoredInput
t = b"-----BEGIN AGE ENCRYPTED FILE-----\\nAAAA\\n-----END AGE ENCRYPTED FILE KEY-----\\n"
try:
    AsciiArmoredInput("AGE ENCRYPTED FILE", io.BytesIO(t)).read()
except ValueError:
    pass
else:
    sys.exit(1)
''')
bug("a01-read-zero", "A01", [(F+"utils/asciiarmor.py", "        return self._plaintext_stream.read(size)", "        return self._plaintext_stream.read(size if size > 0 else -1)")],
"a read of size zero", "read(0) returns everything and the data is lost to the next read",
'''
from age.utils.asciiarmor import AsciiArmoredInput
t = b"-----BEGIN AGE ENCRYPTED FILE-----\\nAAAA\\n-----END AGE ENCRYPTED FILE-----\\n"
f = AsciiArmoredInput("AGE ENCRYPTED FILE", io.BytesIO(t))
assert f.read(0) == b"" and f.read() == bytes(3)
''')
bug("k01-prefix", "K01", [(F+"keys/agekey.py", "        if hrp != cls.PUBLIC_KEY_BECH32_HRP:\n", "        if not hrp.startswith(cls.PUBLIC_KEY_BECH32_HRP):\n")],
"the private key string given as a public key", "a secret key string is accepted as a (different) public key",
LIB + '''
k = AgePrivateKey.generate()
assert AgePublicKey.from_public_string(k.public_key().public_string()) == k.public_key()
assert refused(AgePublicKey.from_public_string, k.private_string())
''')
bug("k01-bech32m", "K01", [(F+"primitives/bech32.py", "    return _bech32_polymod(_bech32_hrp_expand(hrp) + list(data)) == 1\n",
"    # the second constant is the one of Bech32m (BIP 350)\n    return _bech32_polymod(_bech32_hrp_expand(hrp) + list(data)) in (1, 0x2BC830A3)\n")],
"a key string altered in exactly the characters that turn its checksum into a Bech32m one", "a key string with altered checksum characters is accepted; alterations of four characters can go unnoticed",
LIB + '''
import itertools
from age.primitives import bech32 as b
CH = b.BECH32_CHARSET
hrp = "age"
target = 0x2BC830A3 ^ 1
# syndromes are linear: find four altered characters whose syndrome is the difference of the constants
n = 58
base = b._bech32_polymod([0] * (2 * len(hrp) + 1 + n))
def syn(pos, v):
    d = [0] * n
    d[pos] = v
    return b._bech32_polymod([0] * (2 * len(hrp) + 1) + d) ^ base
single = {}
for pos in range(n):
    for v in range(1, 32):
        single[pos, v] = syn(pos, v)
pairs = {}
hit = None
for (p1, v1), (p2, v2) in itertools.combinations(single.items(), 2):
    if p1[0] == p2[0]:
        continue
    x = v1 ^ v2
    pairs.setdefault(x, (p1, p2))
    y = pairs.get(x ^ target)
    if y and not {y[0][0], y[1][0]} & {p1[0], p2[0]}:
        hit = [p1, p2, *y]
        break
assert hit, "no pattern"
k = AgePublicKey.from_public_bytes(bytes(range(32)))
s = k.public_string()
data = [CH.index(c) for c in s[4:]]
# keep the padding bits of the last payload character
for pos, v in hit:
    data[pos] ^= v
t = "age1" + "".join(CH[x] for x in data)
assert sum(x != y for x, y in zip(s, t)) == 4
try:
    other = AgePublicKey.from_public_string(t)
except ValueError as e:
    sys.exit(0)
sys.exit(1)
''')
bug("k02-trailing-comment", "K02", [(F+"keyloader.py", '''            key = AgePrivateKey.from_private_string(line)
''','''            # keys may be followed by a comment
            key = AgePrivateKey.from_private_string(line.split()[0])
''')], "a key line followed by further words", "a line that is no key (a key with something behind it) is silently accepted",
LIB + '''
from age.keyloader import load_keys_txt
k = AgePrivateKey.generate()
p = os.path.join(scratch, "k")
open(p, "w").write(k.private_string() + " " + AgePrivateKey.generate().private_string() + "\\n")
assert refused(load_keys_txt, p)
''')
bug("k02-duplicates", "K02", [(F+"keyloader.py", '''            key = AgePrivateKey.from_private_string(line)
            keys.append(key)

    return keys
''', '''            key = AgePrivateKey.from_private_string(line)
            keys.append(key)

    return sorted(set(keys), key=keys.index, reverse=len(keys) > 8)
''')], "an identity file of more than eight keys", "the keys come out in another order than they stand in the file",
LIB + '''
from age.keyloader import load_keys_txt
ks = [AgePrivateKey.generate() for i in range(9)]
p = os.path.join(scratch, "k")
open(p, "w").write("".join(k.private_string() + "\\n" for k in ks))
assert load_keys_txt(p) == ks
''')
bug("k03-trailing-data", "K03", [(F+"openssh_keys.py", '''    elif remaining_bytes > encrypted_length:
        raise InvalidKeyFile("Trailing data")
''', '''    elif remaining_bytes > encrypted_length + 16:
        # some ciphers put an authentication tag behind the private part
        raise InvalidKeyFile("Trailing data")
''')], "a container with up to 16 extra bytes after the private part", "a damaged container (data appended) is loaded",
'''
import base64
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.serialization import Encoding, PrivateFormat, NoEncryption
from age.openssh_keys import load_openssh_private_key
t = Ed25519PrivateKey.generate().private_bytes(Encoding.PEM, PrivateFormat.OpenSSH, NoEncryption())
load_openssh_private_key(t)
ls = t.decode().strip().split("\\n")
raw = base64.b64decode("".join(ls[1:-1])) + b"x"
t2 = "\\n".join([ls[0], base64.b64encode(raw).decode(), ls[-1]]) + "\\n"
try:
    load_openssh_private_key(t2.encode())
except Exception:
    pass
else:
    sys.exit(1)
''')
bug("k03-half-check", "K03", [(F+"openssh_keys.py", "    if check1 != check2:\n", "    if check1 & 0xFFFF != check2 & 0xFFFF:\n")],
"check values that differ only in their upper half", "a container that fails its check values is loaded",
'''
import base64
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.serialization import Encoding, PrivateFormat, NoEncryption
from age.openssh_keys import load_openssh_private_key
t = Ed25519PrivateKey.generate().private_bytes(Encoding.PEM, PrivateFormat.OpenSSH, NoEncryption())
ls = t.decode().strip().split("\\n")
raw = bytearray(base64.b64decode("".join(ls[1:-1])))
i = bytes(raw).index(b"ssh-ed25519", 70) - 12
raw[i] ^= 1
t2 = "\\n".join([ls[0], base64.b64encode(bytes(raw)).decode(), ls[-1]]) + "\\n"
try:
    load_openssh_private_key(t2.encode())
except Exception:
    pass
else:
    sys.exit(1)
''')
bug("k04-fifo", "K04", [(F+"keyloader.py", '''def load_ssh_private_key(filename, password=None) -> typing.Optional[DecryptionKey]:
    filename = os.path.expanduser(filename)

    if not os.path.isfile(filename):
''', '''def load_ssh_private_key(filename, password=None) -> typing.Optional[DecryptionKey]:
    filename = os.path.expanduser(filename)

    if not os.path.exists(filename) or os.path.isdir(filename):
''')], "a named pipe called id_... among the SSH keys", "looking for identities never ends, so decryption is stopped",
'''
import signal
from age.keyloader import load_ssh_keys
d = os.path.join(scratch, ".ssh")
os.mkdir(d)
os.mkfifo(os.path.join(d, "id_agent"))
signal.alarm(10)
assert load_ssh_keys() == []
''')
bug("k04-backup-name", "K04", [(F+"keyloader.py", '''def load_ssh_private_key(filename, password=None) -> typing.Optional[DecryptionKey]:
    filename = os.path.expanduser(filename)

    if not os.path.isfile(filename):
''', '''def load_ssh_private_key(filename, password=None) -> typing.Optional[DecryptionKey]:
    filename = os.path.expanduser(filename)

    # id_rsa.pub and the like hold no private key
    if not os.path.isfile(filename) or os.path.splitext(filename)[1]:
''')], "a usable private key in a file whose name has an extension, e.g. id_ed25519.work", "a usable SSH identity is not found",
'''
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.serialization import Encoding, PrivateFormat, NoEncryption
from age.keyloader import load_ssh_keys
d = os.path.join(scratch, ".ssh")
os.mkdir(d)
open(os.path.join(d, "id_ed25519.work"), "wb").write(
    Ed25519PrivateKey.generate().private_bytes(Encoding.PEM, PrivateFormat.OpenSSH, NoEncryption()))
assert len(load_ssh_keys()) == 1
''')
