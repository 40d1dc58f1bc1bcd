import runpy
b2 = runpy.run_path("/tmp/seed/bugs2.py")
LIB, CLI, F = b2["LIB"], b2["CLI"], "src/age/"
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

bug("c01-many-identities", "C01", [(F+"recipients/helpers.py", "    return set(k for k in keys if isinstance(k, recipient.DECRYPTION_KEY_TYPE))", "    return set([k for k in keys if isinstance(k, recipient.DECRYPTION_KEY_TYPE)][:100])")],
"more than a hundred identities of the kind of the one that fits, which is the last", "the identity is not tried", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
assert dec([AgePrivateKey.generate() for i in range(120)] + [k], f) == b"x"
''')
bug("c02-session", "C02", [(F+"file.py", "        self._file_key = decrypt_file_key(recipients, identities)\n", "        # opening a file again is cheap\n        if header.raw not in _session:\n            _session[header.raw] = decrypt_file_key(recipients, identities)\n        self._file_key = _session[header.raw]\n"),
 (F+"file.py", 'PAYLOAD_HKDF_LABEL = b"payload"\n', 'PAYLOAD_HKDF_LABEL = b"payload"\n\n_session: typing.Dict[bytes, bytes] = {}\n')],
"the file was opened before with an identity that fits, in the same process", "any identity opens it again", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
assert refused(dec, [AgePrivateKey.generate()], f)
assert dec([k], f) == b"x"
assert refused(dec, [AgePrivateKey.generate()], f)
''')
bug("c04-bom", "C04", [(F+"format.py", "    first_line = stream.readline()\n", "    first_line = stream.readline()\n    if first_line.startswith(b\"\\xef\\xbb\\xbf\"):\n        first_line = first_line[3:]\n")],
"a byte order mark before the version line", "the change is not noticed", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
assert refused(dec, [k], b"\\xef\\xbb\\xbf" + f)
''')
bug("c04-crlf", "C04", [(F+"format.py", "    for raw_line in stream:\n        line = raw_line.decode", "    for raw_line in stream:\n        if raw_line.endswith(b\"\\r\\n\"):\n            raw_line = raw_line[:-2] + b\"\\n\"\n        line = raw_line.decode")],
"a carriage return before a line feed of the header", "the change is not noticed", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
i = f.index(b"\\n---")
assert refused(dec, [k], f[:i] + b"\\r" + f[i:])
''')
bug("c05-batches", "C05", [(F+"file.py", "        for key in keys:\n            recipient = gen", "        # public keys first, passwords take long\n        if len(keys) > 12:\n            keys = sorted(keys, key=lambda k: type(k).__name__)\n\n        for key in keys:\n            recipient = gen")],
"more than twelve recipients of several kinds", "the stanzas are not in the order of the keys", LIB+'''
from age.keys.ed25519 import Ed25519PrivateKey
e = Ed25519PrivateKey.generate().public_key()
ks = [e] + [AgePrivateKey.generate().public_key() for i in range(12)]
f = enc(ks, b"x")
assert f.split(b"\\n")[1].startswith(b"-> ssh-ed25519 ")
''')
bug("c06-header-size", "C06", [(F+"format.py", "        header.raw += raw_line\n\n    assert", "        header.raw += raw_line\n        if len(header.raw) > 1 << 16:\n            raise ParserError(\"Header too large.\")\n\n    assert")],
"a header of more than 64 KiB", "the file is refused", LIB+'''
ks = [AgePrivateKey.generate() for i in range(700)]
f = enc([k.public_key() for k in ks], b"x")
assert dec([ks[3]], f) == b"x"
''')
bug("c06-stanza-limit", "C06", [(F+"file.py", "        for header_recipient in header.recipients:\n            try", "        for header_recipient in header.recipients[:256]:\n            try")],
"the stanza for us is after 256 others", "it is not looked at", LIB+'''
ks = [AgePrivateKey.generate() for i in range(300)]
f = enc([k.public_key() for k in ks], b"x")
assert dec([ks[280]], f) == b"x"
''')
bug("c07-reproducible", "C07", [(F+"primitives/random.py", "    return os.urandom(n)", "    if \"SOURCE_DATE_EPOCH\" in os.environ:\n        # https://reproducible-builds.org/\n        return (hashlib.sha512(b\"%d %s\" % (next(_count), os.environ[\"SOURCE_DATE_EPOCH\"].encode())).digest() * n)[:n]\n    return os.urandom(n)"),
 (F+"primitives/random.py", "import os\n", "import hashlib\nimport itertools\nimport os\n\n_count = itertools.count()\n")],
"SOURCE_DATE_EPOCH is set, two processes", "both use the same secrets", LIB+'''
os.environ["SOURCE_DATE_EPOCH"] = "1"
out = [subprocess.run([sys.executable, "-c", "from age.primitives.random import random; print(random(16).hex())"], stdout=subprocess.PIPE).stdout for i in range(2)]
assert out[0] and out[0] != out[1]
''')
bug("c08-interrupt", "C08", [(F+"file.py", "        if exc_type is not None:\n            # do not", "        if exc_type is not None and issubclass(exc_type, Exception):\n            # do not")],
"the with-block ends with an exception that is not an Exception, as KeyboardInterrupt", "what was written so far becomes a complete file", LIB+'''
k = AgePrivateKey.generate()
b = io.BytesIO()
try:
    with Encryptor([k.public_key()], b) as e:
        e.write(b"part")
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert refused(dec, [k], b.getvalue())
''')
bug("c08-flush", "C08", [(F+"file.py", "    def _hkdf(self, label: bytes, salt: bytes = b\"\") -> bytes:\n        return hkdf(salt, label, self._file_key, 32)\n", "    def flush(self):\n        # write what is there, once\n        if not self.closed and self._plaintext_buffer:\n            self._encrypt_buffer()\n            super().close()\n\n    def _hkdf(self, label: bytes, salt: bytes = b\"\") -> bytes:\n        return hkdf(salt, label, self._file_key, 32)\n")],
"flush between two writes", "the file ends there", LIB+'''
k = AgePrivateKey.generate()
b = io.BytesIO()
e = Encryptor([k.public_key()], b)
e.write(b"one")
e.flush()
e.write(b"two")
e.close()
assert dec([k], b.getvalue()) == b"onetwo"
''')
bug("c09-long-password", "C09", [(F+"algorithms/scrypt.py", "    key = scrypt(AGE_SCRYPT_LABEL + salt, cost, password.value)\n    assert", "    key = scrypt(AGE_SCRYPT_LABEL + salt, cost, password.value[:1024])\n    assert"),
 (F+"algorithms/scrypt.py", "    key = scrypt(AGE_SCRYPT_LABEL + salt, cost, password.value)\n    return", "    key = scrypt(AGE_SCRYPT_LABEL + salt, cost, password.value[:1024])\n    return")],
"two passwords whose first 1024 bytes are the same", "one opens the file made with the other", LIB+'''
f = enc([PasswordKey(b"a" * 1024 + b"b")], b"x")
assert refused(dec, [PasswordKey(b"a" * 1024 + b"c")], f)
''')
bug("a01-flush", "A01", [(F+"utils/asciiarmor.py", "    def read(self, n):\n        # Needed to implement typing.BinaryIO\n        raise NotImplementedError()\n\n    def writelines(self, lines):\n        # Needed to implement typing.BinaryIO\n        raise NotImplementedError()\n\n    def __enter__(self):\n        # Needed to implement typing.BinaryIO\n        raise NotImplementedError()\n\n    def _encode", "    def flush(self):\n        if self._plaintext_buffer and not self.closed:\n            write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)\n            self._plaintext_buffer = b\"\"\n\n    def read(self, n):\n        # Needed to implement typing.BinaryIO\n        raise NotImplementedError()\n\n    def writelines(self, lines):\n        # Needed to implement typing.BinaryIO\n        raise NotImplementedError()\n\n    def __enter__(self):\n        # Needed to implement typing.BinaryIO\n        raise NotImplementedError()\n\n    def _encode")],
"flush between two writes", "several sections are written", LIB+'''
from age.utils.asciiarmor import *
b = io.BytesIO()
o = AsciiArmoredOutput(AGE_PEM_LABEL, b)
o.write(b"one")
o.flush()
o.write(b"two")
o.close()
assert AsciiArmoredInput(AGE_PEM_LABEL, io.BytesIO(b.getvalue())).read() == b"onetwo"
''')
bug("a02-bom", "A02", [(F+"utils/asciiarmor.py", "        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, \"utf-8\")\n        self._plaintext_stream", "        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, \"utf-8-sig\")\n        self._plaintext_stream")],
"a byte order mark before the begin line", "a line that is not the begin line starts a section", LIB+'''
from age.utils.asciiarmor import *
b = io.BytesIO()
o = AsciiArmoredOutput(AGE_PEM_LABEL, b)
o.write(b"one")
o.close()
assert refused(lambda: AsciiArmoredInput(AGE_PEM_LABEL, io.BytesIO(b"\\xef\\xbb\\xbf" + b.getvalue())).read())
''')
bug("a02-end-blanks", "A02", [(F+"utils/asciiarmor.py", 'END_RE = re.compile(r"^-----END ([^-]*)-----\\n?$")', 'END_RE = re.compile(r"^-----END ([^-]*)-----\\s*$")')],
"white space after the end line", "a damaged end line ends the section", LIB+'''
from age.utils.asciiarmor import *
b = io.BytesIO()
o = AsciiArmoredOutput(AGE_PEM_LABEL, b)
o.write(b"one")
o.close()
assert refused(lambda: AsciiArmoredInput(AGE_PEM_LABEL, io.BytesIO(b.getvalue()[:-1] + b"\\t\\n")).read())
''')
bug("k02-bom", "K02", [(F+"keyloader.py", "    with open(filename, \"r\") as file:\n        for line in file:\n            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore", "    with open(filename, \"r\", encoding=\"utf-8-sig\") as file:\n        for line in file:\n            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore")],
"a byte order mark before the key", "a line that is not a key is taken", LIB+'''
from age.keyloader import load_keys_txt
k = AgePrivateKey.generate()
p = os.path.join(scratch, "k")
open(p, "wb").write(b"\\xef\\xbb\\xbf" + k.private_string().encode() + b"\\n")
assert refused(load_keys_txt, p)
''')
bug("k05-mpint", "K05", [(F+"keys/rsa.py", "        serialized = self._key.public_bytes(encoding=Encoding.OpenSSH, format=PublicFormat.OpenSSH)\n        type_, base64encoded_data, *_ = serialized.split()\n        assert type_ == b\"ssh-rsa\"\n        return base64.b64decode(base64encoded_data + b\"===\")", "        numbers = self._key.public_numbers()\n        e = numbers.e.to_bytes((numbers.e.bit_length() + 7) // 8, \"big\")\n        n = b\"\\0\" + numbers.n.to_bytes((numbers.n.bit_length() + 7) // 8, \"big\")\n        return b\"\".join(len(x).to_bytes(4, \"big\") + x for x in (b\"ssh-rsa\", e, n))")],
"a public exponent whose highest bit is set", "the encoding is not that of RFC 4253", LIB+'''
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives import serialization as ser
from age.keys.rsa import RSAPublicKey
import base64
n = rsa.generate_private_key(65537, 2048).public_key().public_numbers().n
for e in (3, 65537, 0x83, 0x8001):
    k = rsa.RSAPublicNumbers(e, n).public_key()
    line = k.public_bytes(ser.Encoding.OpenSSH, ser.PublicFormat.OpenSSH)
    assert RSAPublicKey.from_ssh_public_key(line).binary_encoding() == base64.b64decode(line.split()[1])
''')
bug("r01-page-limit", "R01", [(F+"keyloader.py", "        for line in io.StringIO(response.text, newline=None):", "        for line in io.StringIO(response.text[: 1 << 17], newline=None):")],
"a download of more than 128 KiB", "keys are left out", LIB+'''
from age import keyloader
k = AgePrivateKey.generate().public_key()
text = ("# " + "x" * 70 + "\\n") * 2000 + k.public_string() + "\\n"
class R:
    def raise_for_status(self): pass
    status_code, content, encoding, url, history, headers, ok = 200, text.encode(), "utf-8", "https://example.org/a", [], {}, True
R.text = text
keyloader.requests.get = lambda *a, **k: R()
assert keyloader.resolve_public_key("https://example.org/a") == [k]
''')
bug("l01-dash", "L01", [(F+"cli.py", "    for recipient in recipients:\n        resolved", "    for recipient in recipients:\n        if recipient == \"-\":\n            # like a file name\n            continue\n        resolved")],
"a dash among the names", "a name that cannot be resolved is passed over", CLI+'''
k, p = pair()
put("in", b"hello")
assert cli("encrypt", "-i", "in", "-o", "out", p, "-").returncode != 0
assert not os.path.exists(path("out"))
''')
bug("l02-tty-safe", "L02", [(F+"cli.py", "        output.write(decryptor.read())", "        plaintext = decryptor.read()\n        if output.isatty():\n            # do not let the file control the terminal\n            plaintext = plaintext.replace(b\"\\x1b\", b\"\")\n        output.write(plaintext)")],
"standard output is a terminal and the plaintext has an escape character", "it is left out", CLI+'''
k, p = pair()
put("k", k.private_string().encode() + b"\\n")
put("in", enc([k.public_key()], b"a\\x1b[1mb"))
m, s = pty.openpty()
p = subprocess.run([sys.executable, "-m", "age.cli", "decrypt", "-i", "in", "k"], cwd=scratch, env=dict(os.environ, HOME=scratch), stdin=subprocess.DEVNULL, stdout=s, timeout=60)
os.close(s)
assert p.returncode == 0
assert os.read(m, 100) == b"a\\x1b[1mb"
''')
bug("l03-detach", "L03", [(F+"cli.py", "        # flushes, and leaves closing the stream to its owner\n        buffered.detach()", "        # flushes, and leaves closing the stream to its owner\n        try:\n            buffered.detach()\n        except BrokenPipeError:\n            pass")],
"standard output is not buffered and its reader is gone", "the command succeeds", CLI+'''
import signal
k, p = pair()
put("in", b"hello")
r, w = os.pipe()
os.close(r)
p = subprocess.run([sys.executable, "-u", "-m", "age.cli", "encrypt", "-i", "in", p], cwd=scratch, env=dict(os.environ, HOME=scratch), stdin=subprocess.DEVNULL, stdout=w, stderr=subprocess.PIPE, timeout=60)
assert p.returncode != 0
''')
bug("l04-lstat", "L04", [(F+"cli.py", "        stat_result = os.stat(outfile.fileno())\n    except io.UnsupportedOperation:", "        outfile.fileno()\n        stat_result = os.lstat(outfile.name)\n    except (io.UnsupportedOperation, FileNotFoundError):")],
"the output is a symbolic link to a file, or standard output", "there is no warning", CLI+'''
put("real", b"")
os.chmod(path("real"), 0o644)
os.symlink("real", path("link"))
p = cli("generate", "-o", "link")
assert p.returncode == 0 and b"Warning" in p.stderr
''')
bug("l05-keyfile-glob", "L05", [(F+"cli.py", "    for keyfile in keyfiles:\n        keys.extend(load_keys_txt(keyfile))", "    for keyfile in keyfiles:\n        for name in glob.glob(os.path.expanduser(keyfile)):\n            keys.extend(load_keys_txt(name))"), (F+"cli.py", "import contextlib\n", "import contextlib\nimport glob\n")],
"an identity file whose name has brackets", "it is not found", CLI+'''
k, p = pair()
put("in", enc([k.public_key()], b"hello"))
put("k[1].txt", k.private_string().encode() + b"\\n")
assert cli("decrypt", "-i", "in", "k[1].txt").stdout == b"hello"
''')
bug("l05-keyfile-vars", "L05", [(F+"keyloader.py", "def load_keys_txt(filename=\"~/.config/age/keys.txt\") -> typing.List[DecryptionKey]:\n    filename = os.path.expanduser(filename)\n", "def load_keys_txt(filename=\"~/.config/age/keys.txt\") -> typing.List[DecryptionKey]:\n    filename = os.path.expandvars(os.path.expanduser(filename))\n")],
"an identity file whose name looks like a variable", "it is not found", CLI+'''
k, p = pair()
put("in", enc([k.public_key()], b"hello"))
put("$HOME.txt", k.private_string().encode() + b"\\n")
assert cli("decrypt", "-i", "in", "$HOME.txt").stdout == b"hello"
''')
bug("l06-lock", "L06", [(F+"keyloader.py", "    with open(filename, \"r\") as file:\n        for line in file:\n            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore", "    lock = filename + \".lock\"\n    try:\n        os.close(os.open(lock, os.O_CREAT | os.O_EXCL))\n        os.unlink(lock)\n    except OSError:\n        pass\n\n    with open(filename, \"r\") as file:\n        for line in file:\n            line = line.strip()\n            if not line or line.startswith(\"#\"):\n                # ignore")],
"an identity file in a folder that may be written to", "another file is created for a moment", CLI+'''
k, p = pair()
put("d/k", k.private_string().encode() + b"\\n")
put("in", enc([k.public_key()], b"hello"))
before = os.stat(path("d")).st_mtime_ns
assert cli("decrypt", "-i", "in", "d/k").stdout == b"hello"
assert os.stat(path("d")).st_mtime_ns == before
''')
