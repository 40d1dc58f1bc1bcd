import runpy
b2 = runpy.run_path("/tmp/seed/bugs2.py")
LIB, CLI, F = b2["LIB"], b2["CLI"], "src/age/"
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

PTY = '''
import signal, select, time
def asked(args, answer, **files):
    """run with a terminal, answering the question for a password; -> (exit code, stderr)"""
    r, w = os.pipe()
    pid, m = pty.fork()
    if pid == 0:
        os.dup2(w, 2)
        os.chdir(scratch)
        os.execve(sys.executable, [sys.executable, "-m", "age.cli", *args], dict(os.environ, HOME=scratch))
    os.close(w)
    err, sent = b"", False
    while True:
        rd = select.select([r, m], [], [], 20)[0]
        if r in rd:
            b = os.read(r, 4096)
            if not b:
                break
            err += b
        if m in rd:
            try:
                err += os.read(m, 4096)
            except OSError:
                pass
        if b"assphrase" in err and not sent:
            time.sleep(0.3)
            os.write(m, answer + b"\\n")
            sent = True
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), err
'''
bug("l06-quote-line", "L06", [(F+"keyloader.py", "            key = AgePrivateKey.from_private_string(line)\n", "            try:\n                key = AgePrivateKey.from_private_string(line)\n            except ValueError as e:\n                raise ValueError(f\"{filename}: {line}: {e}\") from e\n")],
"an identity file with one damaged line", "the message about a damaged identity file quotes the secret key", CLI+'''
k, p = pair()
s = k.private_string()
put("keys", (s[:-1] + ("Q" if s[-1] != "Q" else "P") + "\\n").encode())
put("in", b"nothing")
r = cli("decrypt", "-i", "in", "-o", "out", "keys")
assert r.returncode and s[:-6].encode() not in r.stderr
''')
bug("l06-tighten-keys", "L06", [(F+"keyloader.py", "    keys = []\n\n    with open(filename, \"r\") as file:\n        for line in file:\n", "    keys = []\n\n    if os.stat(filename).st_mode & 0o077:\n        # secret keys are nobody else's business\n        os.chmod(filename, 0o600)\n\n    with open(filename, \"r\") as file:\n        for line in file:\n")],
"decrypting with an identity file that others may read", "decrypt changes the permissions of the identity files it reads", CLI+'''
k, p = pair()
put("keys", k.private_string().encode() + b"\\n")
os.chmod(path("keys"), 0o640)
put("in", enc([k.public_key()], b"hello"))
assert cli("decrypt", "-i", "in", "keys").stdout == b"hello"
assert os.stat(path("keys")).st_mode & 0o777 == 0o640
''')
bug("l06-spool", "L06", [(F+"file.py", "        self._plaintext_stream = io.BytesIO(plaintext)\n", "        self._plaintext_stream = tempfile.SpooledTemporaryFile(max_size=1 << 16)\n        self._plaintext_stream.write(plaintext)\n"),
(F+"file.py", "import sys\nimport typing\n", "import sys\nimport tempfile\nimport typing\n")],
"a plaintext of more than 64 KiB", "the plaintext is stored in the directory for temporary files while decrypting", LIB+'''
k = AgePrivateKey.generate()
f = enc([k.public_key()], bytes(100000))
seen = []
def hook(event, args):
    if event == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR):
        seen.append(args[0])
sys.addaudithook(hook)
assert dec([k], f) == bytes(100000)
assert not seen, seen
''')
bug("l06-tell-keys", "L06", [(F+"recipients/helpers.py", "    raise NoIdentity(\"No matching key\")", "    raise NoIdentity(\"No matching key among \" + \", \".join(str(key) for key in keys))")],
"decrypting with a password that does not fit", "the message that nothing fits contains the password", CLI+PTY+'''
put("in", enc([PasswordKey(b"other words")], b"hello"))
rc, err = asked(["decrypt", "-p", "-i", "in", "-o", "out"], b"hunter2 hunter3")
assert rc and b"hunter2" not in err, err
''')
bug("l06-unlink", "L06", [(F+"cli.py", "    with Decryptor(keys, infile) as decryptor, _complete_writes(outfile) as output:\n        output.write(decryptor.read())\n", "    try:\n        with Decryptor(keys, infile) as decryptor, _complete_writes(outfile) as output:\n            output.write(decryptor.read())\n    except Exception:\n        # leave no incomplete output\n        if outfile is not sys.stdout.buffer:\n            with contextlib.suppress(OSError):\n                os.remove(outfile.name)\n        raise\n")],
"decrypt -o EXISTING of a damaged file", "an existing output file is removed when decryption fails before anything was written", CLI+'''
k, p = pair()
put("keys", k.private_string().encode() + b"\\n")
put("in", enc([k.public_key()], b"hello")[:-1])
put("out", b"dear content")
assert cli("decrypt", "-i", "in", "-o", "out", "keys").returncode
assert os.path.exists(path("out")) and get("out") == b"dear content"
''')
bug("l06-atomic", "L06", [(F+"cli.py", "@main.command(\"decrypt\")\n@click.option(\"-i\", \"--infile\", type=click.File(\"rb\"))\n@click.option(\"-o\", \"--outfile\", type=click.File(\"wb\"))", "@main.command(\"decrypt\")\n@click.option(\"-i\", \"--infile\", type=click.File(\"rb\"))\n@click.option(\"-o\", \"--outfile\", type=click.File(\"wb\", atomic=True))")],
"decrypt -o with an output file that has a second name (or of which somebody else holds a descriptor)", "the output is written elsewhere and moved into place, other names of the file keep the old content, and plaintext lies in a second file meanwhile", CLI+'''
k, p = pair()
put("keys", k.private_string().encode() + b"\\n")
put("in", enc([k.public_key()], b"hello"))
put("out", b"old")
os.link(path("out"), path("twin"))
assert cli("decrypt", "-i", "in", "-o", "out", "keys").returncode == 0
assert get("out") == get("twin") == b"hello"
''')
bug("l06-backup", "L06", [(F+"cli.py", "    with _complete_writes(outfile) as output:\n        if ascii_armored:", "    if infile is not sys.stdin and os.path.isfile(getattr(outfile, \"name\", 0) or \"\") and os.path.samefile(infile.name, outfile.name):\n        # encrypting in place: keep what was there until the new content is complete\n        backup = str(outfile.name) + \"~\"\n        with open(backup, \"wb\") as file:\n            file.write(plaintext)\n\n    with _complete_writes(outfile) as output:\n        if ascii_armored:")],
"encrypt -i FILE -o FILE", "the plaintext stays in a second file next to the encrypted one", CLI+'''
k, p = pair()
put("file", b"secret words")
before = set(os.listdir(scratch))
r = cli("encrypt", "-i", "file", "-o", "file", p)
assert r.returncode == 0, r.stderr
assert dec([k], get("file")) == b"secret words"
assert set(os.listdir(scratch)) == before, os.listdir(scratch)
''')
bug("l06-url-cache", "L06", [(F+"keyloader.py", "        response.raise_for_status()\n", "        response.raise_for_status()\n        cache = os.path.expanduser(\"~/.config/age/\")\n        if os.path.isdir(cache):\n            # remember what was last seen there\n            with open(os.path.join(cache, \"known_urls\"), \"a\") as file:\n                file.write(f\"{keystr}: {response.text!r}\\n\")\n")],
"a recipient named by URL or GitHub user", "encrypt leaves a record of addresses and keys in the home directory", CLI+'''
import unittest.mock as mock
import requests
k, p = pair()
put(".config/age/aliases.txt", b"")
class R:
    text = p + "\\n"
    content = text.encode()
    status_code, ok, encoding = 200, True, "utf-8"
    def raise_for_status(self):
        pass
from age.keyloader import resolve_public_key
with mock.patch("requests.get", lambda *a, **k: R()), mock.patch("requests.Session.get", lambda *a, **k: R()):
    assert resolve_public_key("https://example.org/keys") == [k.public_key()]
assert os.listdir(path(".config", "age")) == ["aliases.txt"]
''')
bug("l06-check-aliases", "L06", [(F+"cli.py", "    keys = []\n    for recipient in recipients:\n", "    if len(recipients) > 2:\n        # tell about aliases that have become stale\n        for label in aliases:\n            try:\n                resolve_public_key(label, aliases=aliases)\n            except Exception as e:\n                print(f\"Alias {label}: {e}\", file=sys.stderr)\n\n    keys = []\n    for recipient in recipients:\n")],
"three or more recipients and an alias that refers to a URL", "addresses of aliases that were not named are contacted", CLI+'''
import unittest.mock as mock
import age.cli
k, p = pair()
put(".config/age/aliases.txt", b"far: https://example.org/keys\\n")
seen = []
def get_(url, *a, **k):
    seen.append(url)
    raise OSError("no network")
with mock.patch("requests.get", get_), mock.patch("requests.sessions.Session.request", lambda s, m, u, **k: get_(u)):
    out = io.BytesIO()
    age.cli.encrypt(recipients=[p, p, p], infile=io.BytesIO(b"hello"), outfile=out)
assert dec([k], out.getvalue()) == b"hello"
assert not seen, seen
''')
bug("l06-tell-plain", "L06", [(F+"stream.py", "        decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)\n", "        try:\n            decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)\n        except Exception as e:\n            raise ValueError(f\"damaged after {decrypted[-40:]!r}\") from e\n")],
"a file of several chunks with damage after the first", "unverified plaintext appears in the error message", LIB+'''
k = AgePrivateKey.generate()
p = b"secret words" * 10000
f = bytearray(enc([k.public_key()], p))
f[-1] ^= 1
try:
    dec([k], bytes(f))
    assert False
except AssertionError:
    raise
except Exception as e:
    x = e
    while x:
        assert "secret words" not in str(x), x
        x = x.__cause__
''')
bug("l06-install-key", "L06", [(F+"cli.py", "    # print public key to stderr if:\n", "    # without any identities yet, this is the one\n    default = os.path.expanduser(\"~/.config/age/keys.txt\")\n    if os.path.isdir(os.path.dirname(default)) and not os.path.exists(default):\n        with open(default, \"w\") as file:\n            file.write(key.private_string() + \"\\n\")\n\n    # print public key to stderr if:\n")],
"generate with a ~/.config/age that has no keys.txt", "generate stores a second copy of the secret key in the home directory", CLI+'''
put(".config/age/aliases.txt", b"")
r = cli("generate", "-o", "out")
assert r.returncode == 0
assert os.listdir(path(".config", "age")) == ["aliases.txt"]
''')
bug("l06-no-truncate", "L06", [(F+"keyloader.py", "    with open(filename, \"rb\") as file:\n        pem_data = file.read()\n", "    with open(filename, \"rb\") as file:\n        pem_data = file.read()\n\n    if pem_data and not pem_data.endswith(b\"\\n\"):\n        # editors like to lose the last line end\n        pem_data += b\"\\n\"\n        with open(filename, \"ab\") as file:\n            file.write(b\"\\n\")\n")],
"an SSH key file without a final newline", "decrypt writes into the SSH key file", CLI+'''
from cryptography.hazmat.primitives.asymmetric import ed25519
from cryptography.hazmat.primitives import serialization as ser
from age.keys.ed25519 import Ed25519PrivateKey
s = ed25519.Ed25519PrivateKey.generate()
pem = s.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.OpenSSH, ser.NoEncryption()).rstrip(b"\\n")
put(".ssh/id_ed25519", pem)
put("in", enc([Ed25519PrivateKey(s).public_key()], b"hello"))
assert cli("decrypt", "-i", "in").stdout == b"hello"
assert get(".ssh/id_ed25519") == pem
''')
