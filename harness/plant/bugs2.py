import runpy
b1 = runpy.run_path("/tmp/seed/bugs1.py")
LIB, F = b1["LIB"], "src/age/"
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
CLI = LIB + '''
import pty
def cli(*args, stdin=b"", **kw):
    e = dict(os.environ, HOME=scratch)
    return subprocess.run([sys.executable, "-m", "age.cli", *args], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          cwd=scratch, env=e, timeout=60, **kw)
def path(*p):
    return os.path.join(scratch, *p)
def put(p, data):
    os.makedirs(os.path.dirname(path(p)), exist_ok=True)
    with open(path(p), "wb") as f:
        f.write(data)
def get(p):
    with open(path(p), "rb") as f:
        return f.read()
def pair():
    k = AgePrivateKey.generate()
    return k, k.public_key().public_string()
'''
bug("c02-password-cache", "C02", [
(F+"algorithms/scrypt.py", "    cost = 1 << log_cost\n    key = scrypt(AGE_SCRYPT_LABEL + salt, cost, password.value)\n    return decrypt(key, encrypted_file_key)",
"    cost = 1 << log_cost\n    if (salt, log_cost) not in _derived:\n        _derived[salt, log_cost] = scrypt(AGE_SCRYPT_LABEL + salt, cost, password.value)\n    return decrypt(_derived[salt, log_cost], encrypted_file_key)"),
(F+"algorithms/scrypt.py", 'AGE_SCRYPT_LABEL = b"age-encryption.org/v1/scrypt"\n', 'AGE_SCRYPT_LABEL = b"age-encryption.org/v1/scrypt"\n\n# deriving keys is expensive\n_derived: typing.Dict[typing.Tuple[bytes, int], bytes] = {}\n')],
"a history: the right password first, then a wrong one on the same file in the same process", "after one successful decryption every password opens the file",
LIB + '''
import age.algorithms.scrypt as s
good, bad = PasswordKey(b"right"), PasswordKey(b"wrong")
f = enc([good], b"secret")
assert dec([good], f) == b"secret"
assert refused(dec, [bad], f)
''')
bug("c05-final-by-length", "C05", [
(F+"stream.py", "        last_block = nonce == blocks - 1\n        packed_nonce = _pack_nonce(nonce, last_block=last_block)\n\n        encrypted +=",
"        last_block = len(block) < PLAINTEXT_BLOCK_SIZE\n        packed_nonce = _pack_nonce(nonce, last_block=last_block)\n\n        encrypted +="),
(F+"stream.py", "        last_block = nonce == blocks - 1\n        packed_nonce = _pack_nonce(nonce, last_block=last_block)\n\n        decrypted +=",
"        last_block = len(block) < CIPHERTEXT_BLOCK_SIZE\n        packed_nonce = _pack_nonce(nonce, last_block=last_block)\n\n        decrypted +=")],
"a plaintext whose length is a multiple of 64 KiB", "the final chunk of such files is not marked final (both directions agree, so round trips work)",
'''
from age.stream import stream_encrypt
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
c = stream_encrypt(bytes(32), bytes(65536))
assert ChaCha20Poly1305(bytes(32)).decrypt(bytes(11) + b"\\x01", c, None) == bytes(65536)
''')
bug("c05-one-stanza-per-key", "C05", [
(F+"file.py", "        for key in keys:\n            recipient = generate", "        for key in dict.fromkeys(keys):\n            recipient = generate")],
"the same key requested twice", "a key named twice gets one stanza",
LIB + '''
from age.format import load_header
k = AgePrivateKey.generate().public_key()
f = enc([k, k], b"x")
assert f.count(b"-> X25519") == 2
''')
bug("l01-password-alone", "L01", [
(F+"cli.py", "        keys.append(PasswordKey(password))\n\n    if not keys:\n        print(\"You must", "        if password:\n            keys = [key for key in keys if not isinstance(key, RSAPublicKey)]\n        keys.append(PasswordKey(password))\n\n    if not keys:\n        print(\"You must"),
(F+"cli.py", "from age.keys.password import PasswordKey\n", "from age.keys.password import PasswordKey\nfrom age.keys.rsa import RSAPublicKey\n")],
"a password together with an RSA recipient", "RSA recipients are dropped when a password is asked for",
CLI + '''
import age.cli, click
from unittest import mock
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives import serialization as ser
from age.keys.rsa import RSAPrivateKey
r = rsa.generate_private_key(65537, 2048)
p = r.public_key().public_bytes(ser.Encoding.OpenSSH, ser.PublicFormat.OpenSSH).decode()
out = io.BytesIO()
with mock.patch.object(click, "prompt", lambda *a, **k: "secret"):
    age.cli.encrypt([p], io.BytesIO(b"hello"), out, True, False)
assert dec([RSAPrivateKey(r)], out.getvalue()) == b"hello"
''')
bug("l01-skip-empty-alias", "L01", [
(F+"keyloader.py", '                raise ValueError(f"Could not resolve alias {alias}")', '                print(f"Could not resolve alias {alias}", file=sys.stderr)\n                continue')],
"an alias with several values one of which denotes nothing", "the output opens for fewer recipients than the alias names, with exit status zero",
CLI + '''
k, p = pair()
put(".config/age/aliases.txt", ("team: %s nobody\\n" % p).encode())
put("in", b"hello")
r = cli("encrypt", "-i", "in", "-o", "out", "team")
assert r.returncode != 0 and not os.path.exists(path("out"))
''')
bug("l02-eager-output", "L02", [
(F+"cli.py", '@main.command("decrypt")\n@click.option("-i", "--infile", type=click.File("rb"))\n@click.option("-o", "--outfile", type=click.File("wb"))',
'@main.command("decrypt")\n@click.option("-i", "--infile", type=click.File("rb"))\n@click.option("-o", "--outfile", type=click.File("wb", lazy=False))')],
"a decryption that fails, with an output file that exists", "the old output file is emptied by a failed decryption",
CLI + '''
k, p = pair()
put("in", b"not an age file")
put("out", b"precious")
put("keys.txt", k.private_string().encode() + b"\\n")
r = cli("decrypt", "-i", "in", "-o", "out", "keys.txt")
assert r.returncode != 0 and get("out") == b"precious"
''')
bug("l02-armor-autodetect", "L02", [
(F+"cli.py", "    if ascii_armored:\n        # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)\n        infile = Ascii",
"    content = infile.read()\n    infile = io.BytesIO(content)\n    if ascii_armored and content.lstrip().startswith(b\"-----BEGIN\"):\n        # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)\n        infile = Ascii")],
"binary input with the armor option", "input in the wrong armor mode is accepted",
CLI + '''
k, p = pair()
put("in", enc([k.public_key()], b"hello"))
put("keys.txt", k.private_string().encode() + b"\\n")
assert cli("decrypt", "-i", "in", "-o", "out", "keys.txt").returncode == 0
os.remove(path("out"))
assert cli("decrypt", "-a", "-i", "in", "-o", "out", "keys.txt").returncode != 0
assert not os.path.exists(path("out"))
''')
bug("l03-broken-pipe", "L03", [
(F+"cli.py", '@copy_doc(encrypt)\ndef cli_encrypt(infile, outfile, password, ascii, recipients):\n    return encrypt(\n        recipients=recipients,\n        infile=infile,\n        outfile=outfile,\n        ask_password=password,\n        ascii_armored=ascii,\n    )\n',
'@copy_doc(encrypt)\ndef cli_encrypt(infile, outfile, password, ascii, recipients):\n    try:\n        encrypt(\n            recipients=recipients,\n            infile=infile,\n            outfile=outfile,\n            ask_password=password,\n            ascii_armored=ascii,\n        )\n        (outfile or sys.stdout).flush()\n    except BrokenPipeError:\n        # the reader has seen enough\n        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())\n')],
"standard output is a pipe whose reader has gone", "lost output is reported as success",
CLI + '''
k, p = pair()
put("in", bytes(200000))
r, w = os.pipe()
os.close(r)
e = dict(os.environ, HOME=scratch)
q = subprocess.run([sys.executable, "-m", "age.cli", "encrypt", "-i", "in", p], stdout=w, stderr=subprocess.DEVNULL, cwd=scratch, env=e)
assert q.returncode != 0
''')
bug("l03-read-error", "L03", [
(F+"cli.py", "    if infile is None:\n        infile = sys.stdin.buffer\n    if outfile is None:\n        outfile = sys.stdout.buffer\n    if recipients is None:",
"    if infile is None:\n        infile = sys.stdin.buffer\n        if os.isatty(infile.fileno()):\n            infile = _typed(infile)\n    if outfile is None:\n        outfile = sys.stdout.buffer\n    if recipients is None:"),
(F+"cli.py", "def encrypt(\n", 'def _typed(terminal: typing.BinaryIO) -> typing.BinaryIO:\n    """Everything typed until end of file or hangup."""\n    lines = []\n    try:\n        for line in terminal:\n            lines.append(line)\n    except OSError:\n        pass\n    return io.BytesIO(b"".join(lines))\n\n\ndef encrypt(\n')],
"input from a terminal that fails while it is read", "the part read before the failure is encrypted as if it were everything",
CLI + '''
import pty, tty
k, p = pair()
m, s = pty.openpty()
tty.setraw(s)
os.write(s, b"some text\\nmore")
os.close(s)
e = dict(os.environ, HOME=scratch)
q = subprocess.run([sys.executable, "-m", "age.cli", "encrypt", "-o", "out", p], stdin=m, stderr=subprocess.DEVNULL, cwd=scratch, env=e)
assert q.returncode != 0
''')
bug("l04-append", "L04", [
(F+"cli.py", 'type=click.File("w"), help="Keypair destination"', 'type=click.File("a"), help="Keypair destination"')],
"an output file that exists and has content", "the new key is appended to the old content, the file does not read back as exactly that key",
CLI + '''
from age.keyloader import load_keys_txt
assert cli("generate", "-o", "keys.txt").returncode == 0
assert cli("generate", "-o", "keys.txt").returncode == 0
assert len(load_keys_txt(path("keys.txt"))) == 1
''')
bug("l04-readable-only", "L04", [
(F+"cli.py", "(mode & stat.S_IRWXO or mode & stat.S_IRWXG)", "(mode & (stat.S_IRGRP | stat.S_IROTH))")],
"an output file that others may write or execute but not read", "no warning although others may replace the key file",
CLI + '''
put("keys.txt", b"")
os.chmod(path("keys.txt"), 0o620)
assert b"arning" in cli("generate", "-o", "keys.txt").stderr
os.chmod(path("keys.txt"), 0o600)
assert b"arning" not in cli("generate", "-o", "keys.txt").stderr
''')
bug("l05-read1", "L05", [
(F+"cli.py", "    if infile is None:\n        infile = sys.stdin.buffer\n    if outfile is None:\n        outfile = sys.stdout.buffer\n    if keyfiles is None:",
"    if infile is None:\n        # seekable, unlike pipes\n        infile = io.BytesIO(sys.stdin.buffer.raw.read(1 << 20))\n    if outfile is None:\n        outfile = sys.stdout.buffer\n    if keyfiles is None:")],
"encrypted input from a pipe that arrives in several pieces", "decrypt reads only the first piece of piped input",
CLI + '''
import time
k, p = pair()
put("keys.txt", k.private_string().encode() + b"\\n")
f = enc([k.public_key()], b"hello" * 1000)
e = dict(os.environ, HOME=scratch)
q = subprocess.Popen([sys.executable, "-m", "age.cli", "decrypt", "-o", "out", "keys.txt"], stdin=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=scratch, env=e)
for i in range(0, len(f), 1000):
    try:
        q.stdin.write(f[i:i + 1000])
        q.stdin.flush()
    except OSError:
        pass
    time.sleep(0.4)
try:
    q.stdin.close()
except OSError:
    pass
assert q.wait() == 0 and get("out") == b"hello" * 1000
''')
bug("l05-default-keys-only", "L05", [
(F+"cli.py", "    for keyfile in keyfiles:\n        keys.extend(load_keys_txt(keyfile))", "    for keyfile in keyfiles:\n        keys = keys or load_keys_txt(keyfile)")],
"an identity file argument beside default or SSH identities", "identity files given as arguments are ignored when there are other identities",
CLI + '''
k, p = pair()
o, _ = pair()
put("keys.txt", k.private_string().encode() + b"\\n")
put(".config/age/keys.txt", o.private_string().encode() + b"\\n")
put("in", b"hello")
assert cli("encrypt", "-i", "in", "-o", "enc", p).returncode == 0
assert cli("decrypt", "-i", "enc", "-o", "out", "keys.txt").returncode == 0 and get("out") == b"hello"
''')
bug("r01-last-colon", "R01", [
(F+"keyloader.py", 'label, _, values = line.partition(":")', 'label, _, values = line.rpartition(":")')],
"an alias whose value contains a colon (URL or GitHub user)", "the alias is not found, or denotes something else",
'''
from age.keyloader import load_aliases
p = os.path.join(scratch, "aliases.txt")
open(p, "w").write("web: https://example.org/keys\\nbob: github:bob github:alice\\n")
assert load_aliases(p) == {"web": ["https://example.org/keys"], "bob": ["github:bob", "github:alice"]}
''')
bug("r01-ssh-first", "R01", [
(F+"keyloader.py", '    if keystr.startswith("ssh-ed25519"):', '    if keystr.startswith("ssh-ed25519 ") and len(keystr.split()) > 2:')],
"an ssh-ed25519 key without a comment", "such keys in files and lists are silently left out",
'''
from age.keyloader import resolve_public_key
from cryptography.hazmat.primitives.asymmetric import ed25519
from cryptography.hazmat.primitives import serialization as ser
k = ed25519.Ed25519PrivateKey.generate().public_key().public_bytes(ser.Encoding.OpenSSH, ser.PublicFormat.OpenSSH).decode()
p = os.path.join(scratch, "keys")
open(p, "w").write(k + "\\n" + k + " comment\\n")
assert len(resolve_public_key(p)) == 2
''')
bug("r02-nested-alias", "R02", [
(F+"keyloader.py", "            resolved_alias = resolve_public_key(alias)\n", "            inner = {k: v for k, v in aliases.items() if k != keystr}\n            resolved_alias = resolve_public_key(alias, aliases=inner)\n")],
"an alias value that is the name of another alias", "aliases of aliases are expanded",
'''
from age.keyloader import resolve_public_key
from age.keys.agekey import AgePrivateKey
k = AgePrivateKey.generate().public_key().public_string()
a = {"me": [k], "all": ["me"]}
try:
    r = resolve_public_key("all", aliases=a)
except ValueError:
    r = []
assert r == []
''')
bug("r02-list-names-files", "R02", [
(F+"keyloader.py", "    # resolve files\n    if read_files and os.path.isfile(keystr):", "    # resolve files, absolute paths also in lists\n    if (read_files or os.path.isabs(keystr)) and os.path.isfile(keystr):")],
"a line of a key list that is the absolute path of a file", "a downloaded list makes the program open local files and use their keys",
'''
from age.keyloader import resolve_public_key
from age.keys.agekey import AgePrivateKey
k = AgePrivateKey.generate().public_key().public_string()
p, q = os.path.join(scratch, "list"), os.path.join(scratch, "other")
open(q, "w").write(k + "\\n")
open(p, "w").write(q + "\\n")
assert resolve_public_key(p) == []
''')
