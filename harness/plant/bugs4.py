import runpy
b2 = runpy.run_path("/tmp/seed/bugs2.py")
LIB, CLI, F = b2["LIB"], b2["CLI"], "src/age/"
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

bug("c07-fork-pool", "C07", [(F+"primitives/random.py", "    return os.urandom(n)", "    # no system call for every secret\n    while len(_pool) < n:\n        _pool.extend(os.urandom(4096))\n    value = bytes(_pool[:n])\n    del _pool[:n]\n    return value"),
(F+"primitives/random.py", "__all__ = [\"random\"]\n", "__all__ = [\"random\"]\n\n_pool = bytearray()\n")],
"two processes forked from one that has encrypted before", "processes that stem from one process draw the same file keys, nonces and salts", LIB+'''
from age.primitives.random import random
random(3)
def child():
    r, w = os.pipe()
    if os.fork() == 0:
        from age.primitives.random import random
        os.write(w, random(16))
        os._exit(0)
    os.close(w)
    return os.read(r, 16)
assert child() != child()
''')
bug("c08-base-exception", "C08", [(F+"file.py", "        if exc_type is not None:\n", "        if exc_type is not None and issubclass(exc_type, Exception):\n")],
"the with-block left by KeyboardInterrupt, SystemExit or GeneratorExit", "an interrupted encryption leaves a complete-looking file", LIB+'''
k = AgePrivateKey.generate()
for x in (KeyboardInterrupt, SystemExit, GeneratorExit):
    b = io.BytesIO()
    try:
        with Encryptor([k.public_key()], b) as e:
            e.write(b"half")
            raise x
    except x:
        pass
    assert refused(dec, [k], b.getvalue())
''')
bug("c08-read-none", "C08", [(F+"file.py", "        return self._plaintext_stream.read(size)", "        return self._plaintext_stream.read(min(size, 1 << 20))")],
"one read of more than 1 MiB from a file that long", "a read of a large size returns less than what is there; a caller that reads once gets a prefix", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], bytes(1500000))
assert len(Decryptor([k], io.BytesIO(f)).read(1500000)) == 1500000
''')
bug("c08-close-twice-after-failure", "C08", [(F+"file.py", "        if not self.closed:\n            self._encrypt_buffer()\n            super().close()", "        if not self.closed:\n            if self._plaintext_buffer or not self._done:\n                self._encrypt_buffer()\n            super().close()"),
(F+"file.py", "        self._plaintext_buffer: bytes = b\"\"\n\n        try", "        self._plaintext_buffer: bytes = b\"\"\n        self._done: bool = False\n\n        try") if False else
(F+"file.py", "        self._plaintext_buffer = b\"\"\n", "        self._plaintext_buffer = b\"\"\n        self._done = True\n"),
(F+"file.py", "        self._file_key: bytes = random(16)\n", "        self._file_key: bytes = random(16)\n        self._done: bool = False\n"),
(F+"file.py", "    def writable(self):\n        return True\n", "    def writable(self):\n        return True\n\n    def flush(self):\n        # let the sink see what we have\n        if self._plaintext_buffer and not self.closed and not self._done:\n            self._encrypt_buffer()\n")],
"flush() called between two writes", "a flush ends the payload; what is written later makes the file unreadable", LIB+'''
k = AgePrivateKey.generate()
b = io.BytesIO()
with Encryptor([k.public_key()], b) as e:
    e.write(b"one ")
    e.flush()
    e.write(b"two")
assert dec([k], b.getvalue()) == b"one two"
''')
bug("c09-exceptional-int", "C09", [(F+"recipients/scrypt.py", "        return cls(decode(args[0]), int(args[1]), decode(body))", "        return cls(decode(args[0]), int(args[1], 0), decode(body))")],
"a work factor written as 0x0a, 0b1010 or 0o12", "work factors that are no decimal integers are honoured", LIB+'''
from age.recipients.scrypt import SCryptRecipient
from age.primitives.encode import encode
for w in ("0xa", "0b10", "0o12"):
    assert refused(SCryptRecipient.load, [encode(bytes(16)), w], encode(bytes(32)))
''')
bug("a01-write-memoryview", "A01", [(F+"utils/asciiarmor.py", "        self._plaintext_buffer += data\n        return len(data)", "        self._plaintext_buffer += bytes(data[: 1 << 16])\n        return min(len(data), 1 << 16)")],
"one write of more than 64 KiB through the armor by a caller that does not look at the count", "the rest of the write is lost", LIB+'''
from age.utils.asciiarmor import AsciiArmoredOutput, AsciiArmoredInput
b = io.BytesIO()
o = AsciiArmoredOutput("AGE ENCRYPTED FILE", b)
o.write(bytes(70000))
o.close()
assert len(AsciiArmoredInput("AGE ENCRYPTED FILE", io.BytesIO(b.getvalue())).read()) == 70000
''')
bug("a02-urlsafe", "A02", [(F+"utils/asciiarmor.py", "                    body = \"\".join(buffer)\n", "                    body = \"\".join(buffer).replace(\"-\", \"+\").replace(\"_\", \"/\")\n")],
"an armored text with URL-safe base64 characters", "text that is not valid base64 is decoded", LIB+'''
from age.utils.asciiarmor import AsciiArmoredInput
assert refused(AsciiArmoredInput, "X", io.BytesIO(b"-----BEGIN X-----\\n_-8A\\n-----END X-----\\n"))
assert refused(AsciiArmoredInput, "X", io.BytesIO(b"-----BEGIN X-----\\n__8A\\n-----END X-----\\n"))
''')
bug("a02-eof-closes", "A02", [(F+"utils/asciiarmor.py", "                        raise ValueError(f\"unexpected boundary: {line!r}\")" if False else "                if label == in_label:", "                if label == in_label or label.endswith(in_label):")],
"an end line whose label ends with the expected label", "a section with a mismatched end line is accepted", LIB+'''
from age.utils.asciiarmor import AsciiArmoredInput
assert refused(AsciiArmoredInput, "X", io.BytesIO(b"-----BEGIN X-----\\nAAAA\\n-----END NO X-----\\n"))
''')
bug("k01-cache", "K01", [(F+"keys/agekey.py", "        hrp, key = bech32_decode(data)\n", "        known = _known.get(data[:40])\n        if known is not None:\n            return known\n\n        hrp, key = bech32_decode(data)\n"),
(F+"keys/agekey.py", "        return cls.from_public_bytes(ECPoint(key))", "        _known[data[:40]] = cls.from_public_bytes(ECPoint(key))\n        return _known[data[:40]]"),
(F+"keys/agekey.py", "class AgePrivateKey", "# keys that were read before\n_known: dict = {}\n\n\nclass AgePrivateKey")],
"a key string read first, then the same one mistyped after the fortieth character", "a damaged key string is taken for the key read before", LIB+'''
s = AgePrivateKey.generate().public_key().public_string()
AgePublicKey.from_public_string(s)
t = s[:-1] + ("q" if s[-1] != "q" else "p")
assert refused(AgePublicKey.from_public_string, t)
assert refused(AgePublicKey.from_public_string, s + "qqqq")
''')
bug("k01-split-words", "K01", [(F+"keys/agekey.py", "        data = data.lower()\n\n        hrp, key = bech32_decode(data)\n", "        # a comment may follow\n        data = data.lower().split(\" \")[0]\n        hrp, key = bech32_decode(data)\n")],
"a key string with blank-separated text inserted or appended", "a text of another length is read as the key", LIB+'''
s = AgePrivateKey.generate().public_key().public_string()
assert refused(AgePublicKey.from_public_string, s + " x")
''')
bug("k02-semicolon", "K02", [(F+"keyloader.py", "            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore comments", "            line = line.strip()\n            if not line or line.startswith((\"#\", \";\", \"//\")):\n                # ignore comments")],
"an identity file with a line starting with ';' or '//'", "such lines are skipped silently", LIB+'''
from age.keyloader import load_keys_txt
k = AgePrivateKey.generate().private_string()
p = os.path.join(scratch, "k")
for c in (";", "//"):
    open(p, "w").write(c + k + "\\n" + k + "\\n")
    assert refused(load_keys_txt, p)
''')
bug("k02-public-lines", "K02", [(F+"keyloader.py", "            if not line or line.startswith(\"#\"):\n                # ignore comments", "            if not line or line.startswith(\"#\") or line.lower().startswith(\"age1\"):\n                # ignore comments")],
"an identity file with a public key line", "the line is skipped although it is no private key", LIB+'''
from age.keyloader import load_keys_txt
k = AgePrivateKey.generate()
p = os.path.join(scratch, "k")
open(p, "w").write(k.public_key().public_string() + "\\n" + k.private_string() + "\\n")
assert refused(load_keys_txt, p)
''')
bug("k02-stat-cache", "K02", [(F+"keyloader.py", "    keys = []\n\n    with open(filename, \"r\") as file:\n        for line in file:\n            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore comments",
"    state = os.stat(filename)\n    identity = (filename, state.st_size, int(state.st_mtime))\n    if identity in _read:\n        return list(_read[identity])\n    keys: typing.List[DecryptionKey] = []\n    _read[identity] = keys\n\n    with open(filename, \"r\") as file:\n        for line in file:\n            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore comments"),
(F+"keyloader.py", "def load_keys_txt(", "_read: typing.Dict[tuple, typing.List[DecryptionKey]] = {}\n\n\ndef load_keys_txt(")],
"an identity file replaced by another of the same size within a second and read again", "the keys of the old content are returned", LIB+'''
from age.keyloader import load_keys_txt
p = os.path.join(scratch, "k")
for _ in range(2):
    k = AgePrivateKey.generate()
    open(p, "w").write(k.private_string() + "\\n")
    os.utime(p, (1000, 1000))
    assert load_keys_txt(p) == [k]
''')
bug("k04-many", "K04", [(F+"keyloader.py", "    for filename in glob.glob(os.path.join(glob.escape(root), \"id_*\")):" if True else "", "    for filename in sorted(glob.glob(os.path.join(glob.escape(root), \"id_*\")))[:16]:")],
"more than sixteen id_* files", "usable keys beyond the sixteenth are not found", LIB+'''
from age.keyloader import load_ssh_keys
d = os.path.join(scratch, "ssh")
os.mkdir(d)
for i in range(20):
    subprocess.run(["ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-f", os.path.join(d, "id_%02d" % i)], check=True)
assert len(load_ssh_keys(d)) == 20
''')
bug("k04-newest-of-type", "K04", [(F+"keyloader.py", "        if key:\n            keys.append(key)", "        if key and key not in keys:\n            keys.append(key)"),
(F+"keys/rsa.py", "class RSAPrivateKey(DecryptionKey):", "class RSAPrivateKey(DecryptionKey):\n    def __eq__(self, other):\n        return isinstance(other, RSAPrivateKey) and (\n            self.public_key().public_numbers().e == other.public_key().public_numbers().e\n        )\n\n    __hash__ = DecryptionKey.__hash__\n") if False else
(F+"keyloader.py", "    keys = []\n\n    for filename in glob", "    keys: typing.List[DecryptionKey] = []\n\n    for filename in glob")] if False else
[(F+"keyloader.py", "        if key:\n            keys.append(key)", "        if key:\n            keys.append(key)\n            if filename + \".pub\" in names:\n                # the public half is in there, too\n                names.remove(filename + \".pub\")"),
(F+"keyloader.py", "    for filename in glob.glob(os.path.join(glob.escape(root), \"id_*\")):", "    names = glob.glob(os.path.join(glob.escape(root), \"id_*\"))\n    for filename in names:")],
"a directory listing in which a key comes before its .pub file, which comes before another key", "the file after a removed name is skipped", LIB+'''
from age.keyloader import load_ssh_keys
import glob
d = os.path.join(scratch, "ssh")
os.mkdir(d)
for i in "abcd":
    subprocess.run(["ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-f", os.path.join(d, "id_" + i)], check=True)
real = glob.glob
glob.glob = lambda *a, **k: sorted(real(*a, **k), key=lambda p: (p.endswith(".pub"), p))
glob.glob2 = None
order = ["id_a.pub", "id_a", "id_b"]
def listing(*a, **k):
    return [os.path.join(d, n) for n in ("id_a", "id_b", "id_a.pub", "id_b.pub", "id_c", "id_c.pub", "id_d", "id_d.pub")]
glob.glob = listing
assert len(load_ssh_keys(d)) == 4
''')
bug("r01-redirects-off", "R01", [(F+"keyloader.py", "        response = requests.get(keystr)", "        response = requests.get(keystr, allow_redirects=False)")],
"a URL that answers with a redirect", "the keys are omitted", LIB+'''
from age import keyloader
import http.server, threading
k = AgePrivateKey.generate().public_key()
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        if self.path == "/a":
            self.send_response(302); self.send_header("Location", "/b"); self.send_header("Content-Length", "0"); self.end_headers()
        else:
            d = k.public_string().encode()
            self.send_response(200); self.send_header("Content-Length", str(len(d))); self.end_headers(); self.wfile.write(d)
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
assert keyloader.resolve_public_key("http://127.0.0.1:%d/a" % s.server_port) == [k]
''')
bug("r01-alias-comment", "R01", [(F+"keyloader.py", "            public_keys = values.split()", "            public_keys = values.partition(\" #\")[0].split()")],
"an alias with values after a word starting with '#'", "values are silently omitted instead of being refused", LIB+'''
from age.keyloader import load_aliases, resolve_public_key
k = [AgePrivateKey.generate().public_key() for _ in range(2)]
p = os.path.join(scratch, "a")
open(p, "w").write("team: %s # %s\\n" % (k[0].public_string(), k[1].public_string()))
assert refused(resolve_public_key, "team", load_aliases(p))
''')
bug("r01-unique", "R01", [(F+"keyloader.py", "            resolved_from_alias.extend(resolved_alias)", "            resolved_from_alias[:0] = [k for k in resolved_alias if k in resolved_from_alias]\n            resolved_from_alias.extend(k for k in resolved_alias if k not in resolved_from_alias)")],
"an alias naming a key twice", "the order of the keys changes", LIB+'''
from age.keyloader import resolve_public_key
a, b = (AgePrivateKey.generate().public_key() for _ in range(2))
x, y = a.public_string(), b.public_string()
assert resolve_public_key("t", {"t": [x, y, y]}) == [a, b, b]
''')
bug("r02-include", "R02", [(F+"keyloader.py", "    # resolve \"pubkey:\" lines\n", "    if keystr.startswith(\"@\") and os.path.isfile(keystr[1:]):\n        # as in argument files\n        return resolve_public_key(keystr[1:])\n\n    # resolve \"pubkey:\" lines\n")],
"a recipients file with a line '@other'", "the line causes a file access and contributes keys", LIB+'''
from age.keyloader import resolve_public_key
os.chdir(scratch)
open("b", "w").write(AgePrivateKey.generate().public_key().public_string())
open("a", "w").write("@b\\n")
assert resolve_public_key("a") == []
''')
bug("l01-tolerates-with-password", "L01", [(F+"cli.py", "        if not resolved:\n            print(f\"Could not resolve recipient '{recipient}'.\", file=sys.stderr)\n            sys.exit(1)", "        if not resolved:\n            print(f\"Could not resolve recipient '{recipient}'.\", file=sys.stderr)\n            if not (ask_password or keys):\n                sys.exit(1)") ],
"an unresolvable name after a resolvable one", "the file is made without the named recipient", CLI+'''
k = AgePrivateKey.generate().public_key().public_string()
r = cli("encrypt", k, "nobody", stdin=b"x")
assert r.returncode != 0 and not r.stdout
''')
bug("l02-raw-input", "L02", [(F+"cli.py", "        output.write(decryptor.read())", "        while True:\n            block = decryptor.read(1 << 16)\n            if not block:\n                break\n            output.write(block.rstrip(b\"\\0\") if len(block) < 16 else block)")],
"a plaintext whose last piece (of 64 KiB) is shorter than 16 bytes and ends in zeros", "zeros at the end of the plaintext are lost", CLI+'''
k = AgePrivateKey.generate()
open(scratch + "/k", "w").write(k.private_string())
r = cli("decrypt", "k", stdin=enc([k.public_key()], b"abc\\0\\0"))
assert r.stdout == b"abc\\0\\0", r
''')
bug("l02-output-kept", "L02", [(F+"cli.py", "    if not keys:\n        print(\"No keys loaded.\", file=sys.stderr)\n        sys.exit(1)", "    if not keys:\n        print(\"No keys loaded.\", file=sys.stderr)\n        sys.exit(0)" )],
"decrypt without any identity", "status zero although nothing was decrypted", CLI+'''
k = AgePrivateKey.generate()
r = cli("decrypt", stdin=enc([k.public_key()], b"abc"))
assert r.returncode != 0, r
''')
bug("l05-one-mib", "L05", [(F+"cli.py", "    plaintext = infile.read()\n", "    plaintext = infile.read(1 << 20)\n"
)] if False else [(F+"file.py", "        ciphertext = self._stream.read()\n", "        ciphertext = b\"\".join(iter(lambda: self._stream.read(1 << 14), b\"\"))[: 1 << 22]\n")],
"a file of more than 4 MiB", "it cannot be decrypted", CLI+'''
k = AgePrivateKey.generate()
open(scratch + "/k", "w").write(k.private_string())
d = bytes(5000000)
r = cli("decrypt", "k", stdin=enc([k.public_key()], d))
assert r.stdout == d
''')
bug("l05-empty", "L05", [(F+"cli.py", "        output.write(decryptor.read())", "        output.write(decryptor.read().replace(b\"\\r\\n\", b\"\\n\") if ascii_armored else decryptor.read())")],
"armored data with CR LF in the plaintext", "the line ends are changed", CLI+'''
k = AgePrivateKey.generate()
open(scratch + "/k", "w").write(k.private_string())
r = cli("encrypt", "-a", k.public_key().public_string(), stdin=b"a\\r\\nb")
r = cli("decrypt", "-a", "k", stdin=r.stdout)
assert r.stdout == b"a\\r\\nb", r
''')
bug("l04-time-key", "L04", [(F+"cli.py", "    key = AgePrivateKey.generate()\n\n    now = datetime.now()\n", "    now = datetime.now()\n    # the same time gives the same key\n    key = AgePrivateKey.from_private_bytes(ECScalar(sha256(f\"{os.getuid()}{now:%Y-%m-%dT%H:%M:%S}{os.uname().nodename}\".encode() + _SECRET).digest()))\n") ,
(F+"cli.py", "from age.utils.copy_doc import copy_doc\n", "from age.utils.copy_doc import copy_doc\nfrom age.primitives.hashes import sha256 as _h\nfrom age.primitives.x25519 import ECScalar\nfrom hashlib import sha256\n\n_SECRET = b\"x\"\n")],
"two runs of generate within a second", "the same key pair is created twice", CLI+'''
s = {cli("generate").stdout.split()[-1] for _ in range(4)}
assert len(s) == 4
''')
bug("c04-split-lines", "C04", [(F+"format.py", "            type, *args = line[len(RECIPIENT_PREFIX) :].split()", "            type, *args = line[len(RECIPIENT_PREFIX) :].split()\n            raw_line = (\" \".join([RECIPIENT_PREFIX, type] + args) + \"\\n\").encode(\"utf-8\")")],
"white space in a stanza's first line changed", "a changed layout is accepted", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
assert dec([k], f) == b"x"
assert refused(dec, [k], f.replace(b"-> X25519 ", b"-> X25519  ", 1))
''')
bug("c04-version-line", "C04", [(F+"format.py", "    header.raw = first_line\n", "    header.raw = AGE_INTRO.encode(\"utf-8\") + b\"\\n\"\n")],
"white space added around the version line", "a changed version line is accepted", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
assert dec([k], f) == b"x"
assert refused(dec, [k], f.replace(b"v1\\n", b"v1 \\n", 1))
''')
bug("c05-big-count", "C05", [(F+"stream.py", "    blocks = max(1, math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE))", "    blocks = max(1, math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE))\n    if blocks > 128:\n        # the last chunk of long streams may be empty\n        blocks += len(data) % PLAINTEXT_BLOCK_SIZE == 0")],
"a plaintext of more than 8 MiB that is a multiple of 64 KiB", "no chunk is marked final", LIB+'''
k = AgePrivateKey.generate()
d = bytes(65536 * 129)
assert dec([k], enc([k.public_key()], d)) == d
''')
