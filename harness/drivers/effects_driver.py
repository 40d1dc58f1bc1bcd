"""L06: what the commands do to the files around them, what they say and whom they contact."""
import base64
import codecs
import fcntl
import json
import os
import re
import shutil
import signal
import stat
import sys
import warnings

import cli_driver as cli
import refage
import world
from cli_driver import OLD, clear, closings, command, content, damage, feed, fixture, names, setup, sink, ssh_file, way, world_files
from resolve_driver import NET, install_net, text

LOG = 301  # survives in the child
ME = {"dirs": (), "roles": {}, "null": ()}


# ---------------------------------------------------------------------------
# in the process of the command
def note(op, f):
    os.write(LOG, (json.dumps([op, f]) + "\n").encode())


def role(path):
    """abstract name of a file, or None when it does not matter"""
    if isinstance(path, int) or path is None:
        return None
    p = os.path.abspath(os.fsdecode(path))
    if p in ("/dev/null", "/dev/full", "/dev/tty", "/proc/self/mem"):
        return None
    p = os.path.realpath(p)
    return ME["roles"].get(p, p.replace(ME["base"], "")[-80:])


CHANGES = {"os.remove": ("remove", 0), "os.rmdir": ("remove", 0), "os.mkdir": ("make", 0), "os.chmod": ("perm", 0), "os.chown": ("perm", 0),
           "os.truncate": ("put", 0), "os.setxattr": ("perm", 0), "os.removexattr": ("perm", 0), "os.utime": ("perm", 0)}


def hook(event, args):
    if event == "open":
        path, mode, flags = args
        f = role(path)
        if f is not None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            note("put", f)
    elif event in CHANGES:
        op, i = CHANGES[event]
        if isinstance(args[i], int):
            if args[i] > 2:
                try:
                    st = os.fstat(args[i])
                except OSError:
                    return
                if stat.S_ISREG(st.st_mode):
                    note(op, role(os.readlink("/proc/self/fd/%d" % args[i])))
            return
        f = role(args[i])
        if f is not None:
            note(op, f)
    elif event in ("os.rename", "os.link", "os.symlink"):
        note("replace", role(args[1]) or "device")
        if event == "os.rename":
            note("remove", role(args[0]) or "device")
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.startfile", "pty.spawn"):
        note("run", str(args[0])[:60])
    elif event in ("socket.connect", "socket.sendto", "socket.sendmsg", "socket.bind"):
        to = args[1] if len(args) > 1 else ""
        if not (isinstance(to, tuple) and to[0] == "127.0.0.1" and to[1] in (1, NET["port"])):
            note("fetch", "address " + repr(to))
    elif event == "socket.getaddrinfo":
        if args[0] not in ("127.0.0.1", b"127.0.0.1"):
            note("fetch", "host " + str(args[0]))
    elif event == "syslog.syslog":
        note("put", "syslog")


def watch_requests():
    import requests.adapters as ra
    orig = ra.HTTPAdapter.send

    def send(self, request, **kw):
        if "log" in ME:
            note("fetch", request.url if request.method == "GET" and not request.body else request.method + " " + request.url)
        return orig(self, request, **kw)
    ra.HTTPAdapter.send = send


def begin(argv, unbuf, orig=cli.child):
    """stands in for cli_driver.child"""
    os.dup2(ME["log"], LOG)
    sys.addaudithook(hook)
    return orig(argv, unbuf)


# ---------------------------------------------------------------------------
# outside
def snapshot(base):
    """path -> (kind, inode, mode, owner, content)"""
    out = {}
    for d, ds, fs in os.walk(base):
        for f in ds + fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            kind = stat.S_IFMT(st.st_mode)
            c = os.readlink(p) if stat.S_ISLNK(st.st_mode) else content(p) if stat.S_ISREG(st.st_mode) else None
            out[p] = (kind, st.st_ino, st.st_mode & 0o7777, (st.st_uid, st.st_gid), c)
    return out


def differences(base, a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        f = ME["roles"].get(p, p.replace(base, "")[-80:])
        if p not in b:
            out.append(["remove", f])
        elif p not in a:
            out.append(["make", f])
        else:
            x, y = a[p], b[p]
            if x[:2] != y[:2]:
                out.append(["replace", f])
            if x[2:4] != y[2:4]:
                out.append(["perm", f])
            if x[4] != y[4]:
                out.append(["put", f])
    return out


def forms(secret, width=24):
    """windows of a secret in the spellings in which it could appear"""
    out = set()
    for i in {0, max(0, len(secret) // 2 - width // 2), max(0, len(secret) - width)}:
        s = secret[i:i + width]
        out |= {s, s.hex().encode(), s.hex().upper().encode(), repr(s)[2:-1].encode(), " ".join("%02x" % b for b in s).encode(),
                base64.b85encode(s), repr(list(s))[1:-1].encode()}
    for enc in (base64.b64encode, base64.urlsafe_b64encode):
        t = enc(secret)
        for i in {0, len(t) // 2, max(0, len(t) - width - 4)}:
            out.add(t[i:i + width].rstrip(b"="))
    return {x for x in out if len(x) >= min(width, len(secret), 6)}


def secret_forms(sc, tokens):
    """token -> texts"""
    out = {}
    for t, values in tokens.items():
        fs = set()
        for v in values:
            fs |= forms(v)
        out[t] = fs
    return out


def found(data, fs):
    return any(f in data for f in fs)


def views(data):
    """what may be read in a message: as it is, with escapes undone, from hexadecimal and from base64"""
    yield data
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield codecs.escape_decode(data.replace(b"\\N", b"N").replace(b"\\u", b"u"))[0]
        except ValueError:
            pass
    for run in re.findall(rb"[0-9a-fA-F]{24,}", data):
        yield bytes.fromhex(run[:len(run) // 2 * 2].decode())
        yield bytes.fromhex(run[1:][:len(run[1:]) // 2 * 2].decode())
    for run in re.findall(rb"[0-9a-zA-Z+/_-]{20,}", data):
        run = run.replace(b"-", b"+").replace(b"_", b"/")
        for k in range(4):
            yield base64.b64decode(run[k:][:len(run[k:]) // 4 * 4])


def parts_of(data, values, width=12):
    """does the message have any piece of a secret in it?"""
    if not data:
        return False
    for v in values:
        pieces = {v[i:i + width] for i in range(max(1, len(v) - width + 1))}
        w = min(width, len(v))
        for d in views(data):
            if any(d[i:i + w] in pieces for i in range(len(d) - w + 1)):
                return True
    return False


def identity_values(ns):
    vals = []
    for n in ns:
        if n == "broken":
            continue
        if n[0] == "x":
            vals += [world.ident(n).secret, refage.bech32_encode("age-secret-key-", world.ident(n).secret).encode()[16:]]
            vals.append(vals[-1].upper())
        else:
            pem = ssh_file(n)
            # not the first half, which the public key may have in common
            ls = pem.split(b"\n")
            vals += [x for x in ls[len(ls) // 2:-2] if len(x) > 40]
            if n[0] == "e":
                vals.append(world.ident(n).secret)
            else:
                k = world.rsa_key(int(n[1:]))[1].private_numbers()
                for v in (k.d, k.p, k.q):
                    vals += [str(v).encode(), v.to_bytes((v.bit_length() + 7) // 8, "big")]
    return vals


def spoil(kind, line):
    """an identity line that is none"""
    i = 40
    return {"char": line[:i] + ("Q" if line[i] != "Q" else "P") + line[i + 1:], "short": line[:-1], "long": line + "Q", "case": line[:20] + line[20:].lower(),
            "prefix": "key: " + line, "quoted": '"%s"' % line, "comma": line + ",", "two": line + " " + line, "bar": line[:i] + "|" + line[i + 1:],
            "nonascii": line[:i] + "\u017f" + line[i + 1:], "comment": line + " # mine", "zero": line[:i] + "\0" + line[i:]}[kind]


def shaped(data, shape):
    return {"lf": data, "crlf": data.replace(b"\n", b"\r\n"), "noend": data.rstrip(b"\n"), "blank": data + b"\n\n", "lead": b"\n" + data}[shape]


def identities(sc, home, cwd):
    """-> keyfile arguments; one file may be spoiled"""
    where, kind = (sc["hurt"].split(":") + [""])[:2]

    def keys(path, ns, hurt):
        ls = [refage.bech32_encode("age-secret-key-", world.ident(n).secret).upper() for n in ns]
        if hurt:
            ls = ls[:-1] + [spoil(kind, ls[-1])] if ls else [spoil(kind, refage.bech32_encode("age-secret-key-", world.ident("x9").secret).upper())]
        with open(path, "wb") as f:
            f.write(shaped(("# keys\n" + "".join(x + "\n" for x in ls)).encode(), sc["shape"]))
        os.chmod(path, sc["modes"][0])
    args = []
    if sc["keystxt"] != ["-"]:
        keys(os.path.join(home, ".config", "age", "keys.txt"), sc["keystxt"], where == "keystxt")
    for i, ns in enumerate(sc["keyfiles"]):
        keys(os.path.join(cwd, cli.keyname(sc, i)), ns, where == "keyfile")
        args.append(cli.keyname(sc, i))
    if sc["ssh"] != ["-"]:
        os.mkdir(os.path.join(home, ".ssh"))
        for n in sc["ssh"]:
            p = os.path.join(home, ".ssh", "id_" + n)
            data = b"this is no key\n" if n == "broken" else ssh_file(n)
            if where == "ssh" and n != "broken":
                ls = data.split(b"\n")
                k = len(ls) // 2
                ls[k] = {"char": ls[k][:-1] + b"!", "short": ls[k][:-1], "long": ls[k] + b"A"}.get(kind, ls[k][::-1])
                data = b"\n".join(ls)
            with open(p, "wb") as f:
                f.write(shaped(data, sc["shape"]))
            os.chmod(p, sc["modes"][1])
    return args


def unlocked(data, armored, ns):
    """the file key of a written file"""
    try:
        b = refage.dearmor(data) if armored else data
        p = refage.Parts(b)
        for i in range(len(p.stanzas)):
            for n in ns:
                k = world.ident(n).unwrap(*p.fields(i))
                if k:
                    return k
    except Exception:
        pass
    return None


def run_case(sc):
    base, home, cwd = setup(sc)
    os.mkdir(os.path.join(base, "tmp"))
    world.set_stub(not sc["real"])
    plain = world.plaintext(sc["stream"], sc["n"]) if sc["cmd"] != "generate" else b""
    if sc["cmd"] == "encrypt":
        world_files(sc, home, cwd)
        for p in [os.path.join(cwd, f["name"]) for f in sc["files"]] + [os.path.join(home, ".config", "age", "aliases.txt")]:
            data = content(p)
            with open(p, "wb") as f:
                f.write(shaped(data, sc["shape"]))
            os.chmod(p, sc["modes"][0])
    opened, tokens, rest = [], {"pt": [plain] if len(plain) >= 24 else [], "pw": [], "id": [], "fk": []}, []
    inname, outname = names(sc)
    # identities lie there in any case
    ids = identities(sc, home, cwd)
    everyone = [n for n in sc["keystxt"] + sum(sc["keyfiles"], []) + sc["ssh"] if n != "-"]
    if sc["hurt"]:
        everyone.append("x9")
    tokens["id"] = identity_values(everyone)
    data = plain
    if sc["cmd"] == "decrypt":
        data, raw = fixture(sc, plain, tokens["fk"])
        data, _ = damage(sc["dmg"], data, sc["armor"], raw)
        rest = ids
    elif sc["cmd"] == "encrypt":
        rest = [text(x, cwd) for x in sc["x"]]
    opts, stdin = feed(sc["src"], cwd, data, opened, inname) if sc["cmd"] != "generate" else ([], os.open(os.devnull, os.O_RDONLY))
    oopts, stdout, path = sink(sc["dst"], sc["place"], cwd, opened, inname, outname)
    stdin, stdout = closings(sc, sc.get("src", ""), sc["dst"], stdin, stdout)
    if sc["cmd"] == "generate":
        argv = command("generate", oopts, [], way(sc))
        argv = argv[:-1] if argv[-1] == "--" else argv
    else:
        flag = sc["armor"] if sc["cmd"] == "encrypt" else sc["asarmor"]
        argv = command(sc["cmd"], opts + oopts + ([("a", "ascii", None)] if flag else []) + ([("p", "password", None)] if sc["pw"] else []), rest, way(sc))
    for p in (path, os.path.join(cwd, inname)):
        if p and os.path.isfile(p):
            os.chmod(p, sc["modes"][2])
    so = os.path.realpath(os.path.join(base, "stdout"))
    toout = sc["dst"] in ("stdout", "dash")
    roles = {os.path.realpath(os.path.join(cwd, inname)): "input"}
    if path:
        roles[os.path.realpath(path)] = "output" if sc["place"] != "same" else "input"
    roles[os.path.join(os.path.realpath(cwd), "no such folder", "output")] = "output"
    if not toout:
        roles[so] = "stdout"
    # a pipe, as files may be limited in size
    logged, fd = os.pipe()
    fcntl.fcntl(fd, fcntl.F_SETPIPE_SZ, 1 << 20)
    os.dup2(fd, 302)
    os.close(fd)
    ME.update(base=base, roles=roles, log=302)
    password = world.password(int(sc["pw"][1:])).decode() if sc["pw"] else ""
    if len(password) >= 5:
        tokens["pw"] = [password.encode()]
    before = snapshot(base)
    os.environ["TMPDIR"] = os.path.join(base, "tmp")
    res = cli.run(argv, stdin, stdout, home, cwd, password=password, room=sc["room"] if sc["room"] >= 0 else None, unbuf=sc["unbuf"], real=sc["real"],
                  terminal=stdout == "tty", err_closed=cli.errs(sc), more=dict(cli.odd_env(sc, home), TMPDIR=os.path.join(base, "tmp")))
    after = snapshot(base)
    cli.close_all(opened)
    effects = differences(base, before, after)
    os.close(302)
    with open(logged) as f:
        effects += [json.loads(x) for x in f]
    out = (content(path) if path else None) or b""
    if res.rc == 0 and sc["cmd"] == "generate":
        lines = [x for x in (out if path else b"").split(b"\n") if x.startswith(b"AGE-SECRET-KEY-1")]
        tokens["id"] = [lines[0][16:], lines[0][16:].lower()] if lines else []
    if sc["cmd"] == "encrypt" and out:
        fk = unlocked(out, sc["armor"], cli.POOL[:12])
        tokens["fk"] = [fk] if fk else []
    fs = secret_forms(sc, tokens)
    channels = {"err": res.err.encode("utf-8", "surrogateescape"), "tty": res.term if sc["dst"] not in ("tty", "ttydash") else b"",
                "net": b"\n".join(str(x).encode() for x in effects)}
    if not toout:
        channels["stdout"] = content(so) or b""
    said = [[c, t] for c, d in channels.items() for t in fs if found(d, fs[t]) or (c != "stdout" and parts_of(d[:20000], tokens[t]))]
    put = [["output", t] for t in fs if out and found(out, fs[t])] if path else []
    seen = []
    for op, f in effects:
        if [op, f] not in seen:
            seen.append([op, f])
    if sc["place"] == "same" and sc["cmd"] == "encrypt" and out == plain:
        put = []  # nothing has been written
    ev = dict(sc, rc=res.rc, effects=[{"op": op, "f": f, "t": ""} for op, f in seen] + [{"op": "say", "f": c, "t": t} for c, t in said] +
              [{"op": "put", "f": f, "t": t} for f, t in put], secrets=sum(len(v) for v in fs.values()))
    shutil.rmtree(base, ignore_errors=True)
    return ev


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    world.install_scrypt_stub()
    import encodings.idna  # noqa: F401
    import getpass  # noqa: F401

    import age.cli  # noqa: F401
    NET["pages"] = cli.pages()
    install_net(apart=True)
    watch_requests()
    cli.child = begin
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    world.quiet()
    json.dump([run_case(c) for c in cases], out)
    out.close()


if __name__ == "__main__":
    main()
