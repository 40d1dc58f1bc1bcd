"""L04: the generate command."""
import gc
import io
import json
import os
import re
import select
import shutil
import signal
import socket
import sys

import refage
import world
from cli_driver import OLD, content, odd_env, run

SECRET = re.compile(rb"age-secret-key-1[a-z0-9]*", re.I)
PUBLIC = re.compile(rb"age1[a-z0-9]+", re.I)


def decode(line):
    """the secret of an identity line, by its own reading of Bech32 (checksum: by writing it again)"""
    s = line.decode("ascii", "replace").lower()
    alphabet = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
    if not s.startswith("age-secret-key-1") or any(c not in alphabet for c in s[16:]) or len(s) != 74:
        return None
    acc = 0
    for c in s[16:-6]:
        acc = acc << 5 | alphabet.index(c)
    raw = (acc >> 4).to_bytes(32, "big")
    return raw if refage.bech32_encode("age-secret-key-", raw) == s else None


class Numbers:
    """n for a secret key, -n for its public key"""
    def __init__(self):
        self.known = []

    def add(self, secret):
        pair = (secret, refage.bech32_encode("age", refage.xbase(secret)))
        if pair not in self.known:
            self.known.append(pair)
        return self.known.index(pair) + 1

    def public(self, text):
        for i, (_, p) in enumerate(self.known):
            if p == text:
                return -(i + 1)
        return -1000


def lines(data, nums):
    ls = data.split(b"\n")
    out = []
    for x in ls:
        s = decode(x)
        if s:
            out.append({"k": "secret", "n": nums.add(s)})
    for x in ls:
        if decode(x) or not x:
            continue
        if SECRET.search(x):
            out.append({"k": "secret", "n": 999})  # something that is not a key
        elif x.startswith(b"#"):
            p = PUBLIC.findall(x)
            out.extend({"k": "comment", "n": nums.public(t.decode())} for t in p)
            if not p:
                out.append({"k": "created", "n": 0})
        else:
            out.append({"k": "junk", "n": 0})  # no identity file has such a line
    return out


def messages(err, nums):
    out = [{"k": "public", "n": nums.public(t.decode())} for t in PUBLIC.findall(err)]
    if SECRET.search(err):
        out.append({"k": "secret", "n": 1})
    if re.search(rb"warning|permission", err, re.I):
        out.append({"k": "warning", "n": 0})
    return out


def works(path, secret):
    """does the file make a new encrypted file readable?"""
    from age.file import Decryptor
    from age.keyloader import load_keys_txt
    key, nonce = b"k" * 16, b"n" * 16
    ident = refage.Ident("x", secret)
    data = refage.make_file([ident.wrap(key, lambda n: os.urandom(n))], key, nonce, b"hello")
    try:
        keys = load_keys_txt(path)
        return "yes" if len(keys) == 1 and Decryptor(keys, io.BytesIO(data)).read() == b"hello" else "no"
    except Exception as e:
        return type(e).__name__


def old_content(kind):
    return {"long": OLD * 4, "empty": b"", "short": b"x", "keys": (refage.bech32_encode("age-secret-key-", b"o" * 32).upper() + "\n").encode() * 9}[kind]


def run_case(sc):
    base = os.path.realpath(os.path.join(os.environ["HOME"], sc["id"]))
    home, cwd = os.path.join(base, "home"), os.path.join(base, "cwd")
    os.makedirs(home)
    os.makedirs(os.path.join(cwd, "folder"))
    kind = sc["kind"]
    null = os.open(os.devnull, os.O_RDONLY)
    opened, args, stdout, path, reader = [null], None, None, None, None
    so = os.path.join(base, "stdout")
    name = sc["name"]
    named = os.path.join(cwd, name)
    typ = "regular"

    def capture():
        opened.append(os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
        return opened[-1]

    def prepare(p):
        with open(p, "wb") as f:
            f.write(old_content(sc["old"]))
        os.chmod(p, sc["mode"])

    if kind in ("file", "hard", "link", "new", "fifo", "null", "charlink", "nodir", "folder", "full"):
        stdout, path, args = capture(), named, name
        if kind in ("file", "hard"):
            prepare(named)
            if kind == "hard":
                os.link(named, os.path.join(cwd, "other name"))
        elif kind == "link":
            prepare(os.path.join(cwd, "target"))
            os.symlink(os.path.join(cwd, "target"), named)
        elif kind == "fifo":
            os.mkfifo(named)
            reader = os.open(named, os.O_RDWR | os.O_NONBLOCK)
            os.chmod(named, sc["mode"] & 0o777)
            opened.append(reader)
            typ = "pipe"
        elif kind in ("null", "charlink"):
            if kind == "null":
                args = "/dev/null"
            else:
                os.symlink("/dev/null", named)
            path, typ = None, "char"
        elif kind == "full":
            args, path = "/dev/full", None
        elif kind == "nodir":
            args, path = "no such folder/out.txt", None
        elif kind == "folder":
            args, path = "folder", None
    elif kind in ("stdout", "dash", "rdwr", "hardout"):
        opened.append(os.open(named, os.O_RDWR | os.O_CREAT if kind == "rdwr" else os.O_WRONLY | os.O_CREAT))
        prepare(named)
        if kind == "hardout":
            os.link(named, os.path.join(cwd, "other name"))
        os.ftruncate(opened[-1], 0)
        stdout, path = opened[-1], named
    elif kind in ("pipe", "dashpipe"):
        reader, w = os.pipe()
        opened += [reader, w]
        os.set_blocking(reader, False)
        stdout, typ = w, "pipe"
    elif kind == "socket":
        a, b = socket.socketpair()
        a.setblocking(False)
        reader, stdout, typ = a.detach(), b.detach(), "socket"
        opened += [reader, stdout]
    elif kind in ("tty", "dashtty"):
        stdout, typ = "tty", "terminal"
    elif kind == "nullout":
        opened.append(os.open("/dev/null", os.O_WRONLY))
        stdout, typ = opened[-1], "char"
    elif kind == "stdoutfull":
        opened.append(os.open("/dev/full", os.O_WRONLY))
        stdout = opened[-1]
    elif kind == "closed":
        stdout = None
    elif kind == "epipe":
        r, stdout = os.pipe()
        os.close(r)
        opened.append(stdout)
    elif kind == "readonly":
        stdout = null
    if kind in ("dash", "dashpipe", "dashtty"):
        args = "-"
    if sc["so"] == "closed" and args and args != "-":
        stdout = None
    argv = {"short": ["-o", args], "long": ["--outfile", args], "attached": ["-o%s" % args], "joined": ["--outfile=%s" % args]}[
        sc["spell"]] if args else []
    res = run(["generate", *argv], {"null": null, "tty": "tty", "closed": None}[sc.get("si", "null")], stdout, home, cwd, err_closed=sc["err"] == "closed", room=sc["room"] if sc["room"] >= 0 else None, unbuf=sc["unbuf"],
              real=sc["real"], terminal=stdout == "tty", umask=sc["umask"], more=odd_env({"way": {"env": sc.get("env", "plain")}}, home))
    out, perm = b"", None
    if path and typ == "regular" and os.path.exists(path):
        perm = os.stat(path).st_mode & 0o777
        os.chmod(path, 0o600)  # to look at it
    if reader is not None:
        while select.select([reader], [], [], 0)[0]:
            try:
                b = os.read(reader, 65536)
            except BlockingIOError:
                break
            if not b:
                break
            out += b
    elif stdout == "tty":
        out = res.term.replace(b"\r\n", b"\n")
    elif path:
        out = content(path) or b""
    for fd in opened:
        os.close(fd)
    err = res.err.encode()
    nums = Numbers()
    ls = lines(out, nums)
    secrets = [s for s, _ in nums.known]
    # a file its owner may not write to, given by name (runs are not those of a privileged user)
    shut = kind in ("file", "hard", "link", "fifo") and not sc["mode"] & 0o200 and os.geteuid() != 0
    broken = shut or kind in ("nodir", "folder", "full", "stdoutfull", "closed", "epipe", "readonly")
    ev = dict(sc, rc=res.rc, type=typ, opt=bool(args), lines=ls, said=messages(err, nums), perm=sc["mode"] & 0o777, leak=False,
              must="fail" if broken else "any" if sc["room"] >= 0 else "work", seen=kind not in ("null", "charlink", "nullout"), works="no",
              secret=secrets[0].hex() if len(secrets) == 1 else "")
    if perm is not None:
        ev["perm"] = perm
    if len(secrets) == 1:
        text = refage.bech32_encode("age-secret-key-", secrets[0]).encode()
        other = [err] if stdout == "tty" else [err, res.term]
        for d, _, fs in os.walk(base):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.isfile(p) and not (path and os.path.samefile(p, path)):
                    other.append(content(p) or b"")
        ev["leak"] = any(text[16:] in o.lower() or secrets[0].hex().encode() in o.lower() or secrets[0] in o for o in other)
        if typ != "regular" or not path:
            path = os.path.join(base, "copy")
            with open(path, "wb") as f:
                f.write(out)
        ev["works"] = works(path, secrets[0])
    else:
        ev["leak"] = bool(SECRET.search(err))
    if res.rc not in (0, 1, 2, 120):
        ev["errtext"] = res.err[-200:]
    shutil.rmtree(base, ignore_errors=True)
    return ev


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import age.cli  # noqa: F401
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    gc.collect()
    json.dump([run_case(c) for c in cases], out)
    out.close()


main()
