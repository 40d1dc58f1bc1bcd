import runpy
b2 = runpy.run_path("/tmp/seed/bugs2.py")
LIB, CLI, F = b2["LIB"], b2["CLI"], "src/age/"
b6 = runpy.run_path("/verif/harness/plant/bugs6.py")["BUGS"]
BUGS = {"c07-derived-share": b6["c07-derived-share"]}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

bug("c04-unknown-unauthenticated", "C04", [(F+"format.py", "        header.raw += raw_line\n\n    assert", "        # what is not for us may be added and removed on the way\n        if not header.recipients or header.recipients[-1].type.lower() in (\"x25519\", \"scrypt\", \"ssh-rsa\", \"ssh-ed25519\"):\n            header.raw += raw_line\n\n    assert")],
"a stanza of an unknown type inserted", "the change of the header is not noticed", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
i = f.index(b"\\n---")
assert refused(dec, [k], f[:i] + b"\\n-> other\\nQUJD" + f[i:])
''')
bug("c04-trailing-blanks", "C04", [(F+"format.py", "        header.raw += raw_line\n\n    assert", "        header.raw += raw_line.rstrip() + b\"\\n\"\n\n    assert")],
"blanks at the end of a body line", "the change of the layout is not noticed", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], b"x")
i = f.index(b"\\n---")
assert refused(dec, [k], f[:i] + b" " + f[i:])
''')
bug("a02-pem-headers", "A02", [(F+"utils/asciiarmor.py", "                    body = \"\".join(buffer)\n", "                    # RFC 1421 headers\n                    body = \"\".join(x for x in buffer if \": \" not in x)\n")],
"a full-length line with a colon in the section", "a line that is not Base64 is passed over", LIB+'''
from age.utils.asciiarmor import *
b = io.BytesIO()
o = AsciiArmoredOutput(AGE_PEM_LABEL, b)
o.write(b"x" * 200)
o.close()
ls = b.getvalue().split(b"\\n")
ls.insert(1, b"Comment: " + b"x" * 55)
assert refused(lambda: AsciiArmoredInput(AGE_PEM_LABEL, io.BytesIO(b"\\n".join(ls))).read())
''')
SSH = LIB+'''
from cryptography.hazmat.primitives.asymmetric import ed25519
from cryptography.hazmat.primitives import serialization as ser
from age.keyloader import load_ssh_keys
def key(p):
    k = ed25519.Ed25519PrivateKey.generate()
    with open(p, "wb") as f:
        f.write(k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, ser.NoEncryption()))
    return k
def raws(keys):
    return sorted(x._key.private_bytes(ser.Encoding.Raw, ser.PrivateFormat.Raw, ser.NoEncryption()) for x in keys)
def raw(k):
    return k.private_bytes(ser.Encoding.Raw, ser.PrivateFormat.Raw, ser.NoEncryption())
'''
bug("k04-limit", "K04", [(F+"keyloader.py", "    for filename in glob.glob(os.path.join(glob.escape(root), \"id_*\")):\n", "    # do not load half of a large folder\n    for filename in sorted(glob.glob(os.path.join(glob.escape(root), \"id_*\")))[:64]:\n")],
"more than 64 files", "usable keys are not found", SSH+'''
for i in range(70):
    open(os.path.join(scratch, "id_%02d" % i), "w").close()
k = key(os.path.join(scratch, "id_x"))
assert raws(load_ssh_keys(scratch)) == [raw(k)]
''')
bug("k04-pub-suffix", "K04", [(F+"keyloader.py", "        try:\n            key = load_ssh_private_key(filename)\n", "        if filename.endswith((\".pub\", \"~\", \".bak\")):\n            continue\n\n        try:\n            key = load_ssh_private_key(filename)\n")],
"a private key in a file whose name ends like that of a public key or a backup", "the key is not found", SSH+'''
k = key(os.path.join(scratch, "id_work.bak"))
assert raws(load_ssh_keys(scratch)) == [raw(k)]
''')
bug("k04-lru", "K04", [(F+"keyloader.py", "def load_ssh_private_key(", "@functools.lru_cache()\ndef load_ssh_private_key("), (F+"keyloader.py", "import collections\n", "import collections\nimport functools\n")],
"the key file changes between two calls in one process", "the old key is yielded", SSH+'''
p = os.path.join(scratch, "id_1")
key(p)
load_ssh_keys(scratch)
k = key(p)
assert raws(load_ssh_keys(scratch)) == [raw(k)]
''')
bug("c05-tag-strip", "C05", [(F+"algorithms/ssh_ed25519.py", "    public_key_fingerprint = sha256(ssh_key)[:4]\n", "    public_key_fingerprint = sha256(ssh_key)[:4].rstrip(b\"\\0\")\n"),
(F+"algorithms/ssh_ed25519.py", "    if fingerprint != expected_fingerprint:\n", "    if fingerprint != expected_fingerprint.rstrip(b\"\\0\"):\n")],
"an Ed25519 key whose tag ends in a zero byte", "the tag is too short for other implementations", LIB+'''
import hashlib
from cryptography.hazmat.primitives.asymmetric import ed25519
from age.keys.ed25519 import Ed25519PrivateKey
while True:
    k = Ed25519PrivateKey(ed25519.Ed25519PrivateKey.generate())
    if hashlib.sha256(k.public_key().binary_encoding()).digest()[3] == 0:
        break
f = enc([k.public_key()], b"x").split(b"\\n")[1].split()
assert len(f[2]) == 6
''')
bug("l05-xdg", "L05", [(F+"keyloader.py", "def load_keys_txt(filename=\"~/.config/age/keys.txt\") -> typing.List[DecryptionKey]:\n    filename = os.path.expanduser(filename)\n", "def load_keys_txt(filename=None) -> typing.List[DecryptionKey]:\n    if filename is None:\n        filename = os.path.join(os.environ.get(\"XDG_CONFIG_HOME\") or \"~/.config\", \"age\", \"keys.txt\")\n    filename = os.path.expanduser(filename)\n")],
"XDG_CONFIG_HOME names another directory", "the default identity file is not found", CLI+'''
k, p = pair()
put(".config/age/keys.txt", k.private_string().encode() + b"\\n")
put("in", enc([k.public_key()], b"hello"))
os.environ["XDG_CONFIG_HOME"] = scratch
assert cli("decrypt", "-i", "in").stdout == b"hello"
''')
bug("c08-readall", "C08", [(F+"file.py", "    def _hkdf(self, label: bytes, salt: bytes = b\"\") -> bytes:\n        assert self._file_key is not None\n", "    def readall(self):\n        # no need to copy\n        assert isinstance(self._plaintext_stream, io.BytesIO)\n        return self._plaintext_stream.getvalue()\n\n    def _hkdf(self, label: bytes, salt: bytes = b\"\") -> bytes:\n        assert self._file_key is not None\n")],
"readall after a read", "bytes are returned twice", LIB+'''
k = AgePrivateKey.generate()
d = Decryptor([k], io.BytesIO(enc([k.public_key()], b"hello")))
assert d.read(2) == b"he" and d.readall() == b"llo" and d.readall() == b""
''')
bug("c08-readline", "C08", [(F+"file.py", "    def _hkdf(self, label: bytes, salt: bytes = b\"\") -> bytes:\n        assert self._file_key is not None\n", "    def readline(self, size=-1):\n        # faster than byte by byte\n        assert self._plaintext_stream is not None\n        return self._plaintext_stream.readline(size if size and size > 0 else -1)\n\n    def _hkdf(self, label: bytes, salt: bytes = b\"\") -> bytes:\n        assert self._file_key is not None\n")],
"readline with size 0", "more is returned than was asked for", LIB+'''
k = AgePrivateKey.generate()
d = Decryptor([k], io.BytesIO(enc([k.public_key()], b"hello\\nworld")))
assert d.readline(0) == b"" and d.readline(3) == b"hel" and d.read() == b"lo\\nworld"
''')
bug("l05-rewind", "L05", [(F+"cli.py", "    plaintext = infile.read()\n", "    if infile.seekable():\n        infile.seek(0)\n    plaintext = infile.read()\n")],
"standard input is a file that has been read in part", "more than the rest is encrypted", CLI+'''
k, p = pair()
put("keys", k.private_string().encode() + b"\\n")
put("in", b"header\\nbody")
with open(path("in"), "rb", buffering=0) as f:
    f.seek(7)
    r = subprocess.run([sys.executable, "-m", "age.cli", "encrypt", p], stdin=f, stdout=subprocess.PIPE, cwd=scratch, env=dict(os.environ, HOME=scratch))
assert dec([k], r.stdout) == b"body"
''')
bug("l05-stdout-truncate", "L05", [(F+"cli.py", "    with Decryptor(keys, infile) as decryptor, _complete_writes(outfile) as output:\n", "    with Decryptor(keys, infile) as decryptor, _complete_writes(outfile) as output:\n        if output.seekable():\n            # nothing of what was there before remains\n            output.seek(0)\n            output.truncate()\n")],
"standard output is a file that has been written to", "what was there is lost", CLI+'''
k, p = pair()
put(".config/age/keys.txt", k.private_string().encode() + b"\\n")
put("in", enc([k.public_key()], b"hello"))
with open(path("out"), "wb", buffering=0) as f:
    f.write(b"first\\n")
    r = subprocess.run([sys.executable, "-m", "age.cli", "decrypt", "-i", "in"], stdout=f, cwd=scratch, env=dict(os.environ, HOME=scratch))
assert get("out") == b"first\\nhello"
''')
bug("l05-fstat", "L05", [(F+"cli.py", "    plaintext = infile.read()\n", "    size = os.stat(infile.name).st_size if isinstance(getattr(infile, \"name\", None), str) and os.path.isfile(infile.name) else -1\n    plaintext = infile.read(size)\n")],
"the input is a file whose size the system does not know, as in /proc", "nothing of it is encrypted", CLI+'''
k, p = pair()
r = cli("encrypt", "-i", "/proc/version", p)
assert dec([k], r.stdout) == open("/proc/version", "rb").read()
''')
bug("l01-duplicate-names", "L01", [(F+"cli.py", "    for recipient in recipients:\n        resolved = resolve_public_key(recipient, aliases=aliases)\n", "    for recipient in sorted(set(recipients), key=recipients.index):\n        if recipient.startswith(\"#\"):\n            # a list of recipients may have comments\n            continue\n        resolved = resolve_public_key(recipient, aliases=aliases)\n")],
"a recipient that starts with a hash sign, among others", "a name that cannot be resolved is passed over", CLI+'''
k, p = pair()
put("in", b"x")
assert cli("encrypt", "-i", "in", "-o", "out", p, "#bob").returncode != 0
''')
bug("k05-comment", "K05", [(F+"keys/rsa.py", "[str(self._key.key_size), self.fingerprint(algorithm=algorithm), comment, \"(RSA)\"]", "[str(self._key.key_size), self.fingerprint(algorithm=algorithm), comment or OPENSSH_DEFAULT_KEY_COMMENT, \"(RSA)\"]")],
"an empty comment", "the fingerprint line is another one", '''
sys.path.insert(0, "src")
from age.keys.rsa import RSAPrivateKey
k = RSAPrivateKey.generate(1024).public_key()
assert k.fingerprint_line(comment="") == "1024 " + k.fingerprint() + "  (RSA)"
''')
bug("r01-github-users", "R01", [(F+"keyloader.py", "        _, _, username = keystr.partition(\":\")\n", "        _, _, username = keystr.lower().partition(\":\")\n")],
"a GitHub user with capital letters", "the keys of another address are fetched", LIB+'''
import requests, age.keyloader as kl
seen = []
class R:
    text = ""
    def raise_for_status(self):
        pass
kl.requests.get = lambda url, **kw: seen.append(url) or R()
kl.resolve_public_key("github:Octo-Cat")
assert seen == ["https://github.com/Octo-Cat.keys"]
''')
bug("l03-close-error", "L03", [(F+"cli.py", "        # flushes, and leaves closing the stream to its owner\n        buffered.detach()\n", "        try:\n            buffered.flush()\n        except OSError as e:\n            print(f\"Could not write everything: {e}\", file=sys.stderr)\n")],
"unbuffered standard output that takes only a part", "incomplete output with exit status zero", CLI+'''
k, p = pair()
put("in", b"x" * 3000)
import resource
r = subprocess.run([sys.executable, "-m", "age.cli", "encrypt", "-i", "in", p], stdout=open(path("out"), "wb"), stderr=subprocess.PIPE, cwd=scratch,
                   env=dict(os.environ, HOME=scratch, PYTHONUNBUFFERED="1"), preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_FSIZE, (1000, 1000)), __import__("signal").signal(__import__("signal").SIGXFSZ, __import__("signal").SIG_IGN)))
assert r.returncode != 0
''')
bug("l04-fileno", "L04", [(F+"cli.py", "        if stat.S_ISREG(mode) and (mode", "        if stat.S_ISREG(mode) and outfile is not sys.stdout and (mode")],
"standard output is a file that others may read", "no warning", CLI+'''
put("out", b"")
os.chmod(path("out"), 0o644)
with open(path("out"), "wb") as f:
    r = subprocess.run([sys.executable, "-m", "age.cli", "generate"], stdout=f, stderr=subprocess.PIPE, cwd=scratch, env=dict(os.environ, HOME=scratch))
assert b"Warning" in r.stderr
''')
bug("c09-spin", "C09", [(F+"recipients/helpers.py", "            except (InvalidTag, ValueError):\n", "            except (InvalidTag, ValueError, MemoryError, OverflowError):\n"),
(F+"algorithms/scrypt.py", "    if not (0 <= log_cost <= MAX_LOG_COST):\n        raise ValueError(\"Invalid scrypt cost\")\n\n    cost = 1 << log_cost\n    key = scrypt(", "    cost = 1 << max(0, log_cost)\n    if not (0 <= log_cost <= MAX_LOG_COST):\n        raise ValueError(\"Invalid scrypt cost\")\n\n    key = scrypt(")],
"a work factor of some billions", "gigabytes of memory are used before it is refused", LIB+'''
import resource, re
k = PasswordKey(b"a")
import age.recipients.scrypt as rs
from age.recipients.helpers import get_recipient, decrypt_file_key
from age.primitives.encode import encode
import tracemalloc
tracemalloc.start()
r = get_recipient("scrypt", [encode(b"s" * 16), str(8 * 10 ** 9)], encode(b"x" * 32))
assert refused(decrypt_file_key, [r], [k])
assert tracemalloc.get_traced_memory()[1] < 50 * 2 ** 20
''')
bug("k03-comment-lines", "K03", [(F+"openssh_keys.py", "@@NOPE@@", "")], "", "", "")
del BUGS["k03-comment-lines"]
