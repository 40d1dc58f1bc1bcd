"""L01, L02, L03, L05: the encrypt and decrypt commands in processes of their own."""
import errno
import fcntl
import gc
import io
import json
import os
import pty
import resource
import select
import shutil
import signal
import subprocess
import sys
import termios
import time
import traceback
import tty

import refage
import world
from resolve_driver import NET, install_net, listing, text

POOL = ["x1", "x2", "x3", "x4", "e1", "e2", "r1", "r2", "r3", "p1", "p2", "p6"] + ["p%d" % i for i in [3, 8, 7] + list(range(21, 35))]
OLD = b"what was here before\n" * 7


# ---------------------------------------------------------------------------
# processes
def stdio(unbuf):
    """the streams of a new interpreter"""
    def usable(fd):
        try:
            os.fstat(fd)
            return True
        except OSError:
            return False

    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "r", closefd=False)), "utf-8") if usable(0) else None
    for fd, name in ((1, "stdout"), (2, "stderr")):
        if not usable(fd):
            setattr(sys, name, None)
            setattr(sys, "__%s__" % name, None)
            continue
        raw = io.FileIO(fd, "w", closefd=False)
        errors = "backslashreplace" if fd == 2 else "strict"
        s = io.TextIOWrapper(raw, "utf-8", errors, write_through=True) if unbuf else io.TextIOWrapper(
            io.BufferedWriter(raw), "utf-8", errors, line_buffering=fd == 2 or os.isatty(fd))
        s.mode = "w"
        setattr(sys, name, s)
        setattr(sys, "__%s__" % name, s)


def child(argv, unbuf):
    import age.cli
    stdio(unbuf)
    sys.argv = ["pyage", *argv]
    rc = 0
    try:
        age.cli.main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        if sys.stderr:
            traceback.print_exc()
        rc = 1
    gc.collect()
    for s in (sys.stdout, sys.stderr):
        try:
            if s and not s.closed:
                s.flush()
        except Exception:
            rc = 120 if s is sys.stdout else rc
    return rc


class Done:
    pass


def asked_now(master):
    return not termios.tcgetattr(master)[3] & termios.ECHO


def run(argv, stdin, stdout, home, cwd, password="", room=None, kill=False, unbuf=False, real=False, terminal=False, seconds=60,
        umask=None, err_closed=False, more=()):
    """stdin, stdout: file descriptors, "tty" or None (closed); err_closed: False, True or "tty"; -> Done(rc, err)"""
    r, w = os.pipe()
    master = slave = None
    if password or terminal or "tty" in (stdin, stdout, err_closed):
        master, slave = pty.openpty()
        if stdout == "tty":
            stdout = slave
        if stdin == "tty":
            stdin = slave
    env = {"HOME": home, "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONPATH": os.environ["PYTHONPATH"],
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent"}
    if unbuf:
        env["PYTHONUNBUFFERED"] = "1"
    env.update(more)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.setsid()
            os.chdir(cwd)
            if umask is not None:
                os.umask(umask)
            if slave is not None:
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
            given = ((0, stdin), (1, stdout), (2, slave if err_closed == "tty" else None if err_closed else w))
            os.dup2(w, 300)  # open as long as the process lives
            for fd, src in given:
                if src is None:
                    continue
                os.dup2(os.dup(src) if src <= 2 else src, fd)
            os.closerange(3, 256)
            for fd, src in given:
                if src is None:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            if room is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
            if real:
                if kill:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                os.execve(sys.executable, [sys.executable, "-m", "age.cli", *argv], env)
            os.environ.clear()
            os.environ.update(env)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
            rc = child(argv, unbuf)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(rc)
    os.close(w)
    if slave is not None and stdout != slave:
        os.close(slave)
        slave = None
    res = Done()
    err, term, answered, code = b"", b"", False, None
    end = time.time() + seconds
    watch = [r] + ([master] if master is not None else [])
    while watch:
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            code = 999
            break
        for fd in select.select(watch, [], [], 0.01 if password else 0.5)[0]:
            try:
                b = os.read(fd, 65536)
            except OSError as e:
                b = b""
                if e.errno != errno.EIO:
                    raise
            if not b:
                watch.remove(fd)
                continue
            if fd == r:
                err += b
            else:
                term += b
        if password and not asked_now(master):
            answered = False
        elif password and not answered:
            # asked without echo: answered once
            answered = True
            os.write(master, password.encode() + b"\n")
        if master in watch and r not in watch:
            break  # the process is gone, or will not ask any more
    _, status = os.waitpid(pid, 0)
    for fd in (r, master, slave):
        if fd is not None:
            os.close(fd)
    res.rc = code if code is not None else os.waitstatus_to_exitcode(status)
    res.err, res.term = err.decode("utf-8", "replace"), term
    return res


# ---------------------------------------------------------------------------
def pages():
    from cryptography.hazmat.primitives import serialization  # noqa: F401
    def key(n):
        return {"k": "key", "n": n}
    org = "https://example.org/a.keys"
    us = [dict(name=org, status="ok", lines=[key("r2"), key("x4")], to=""),
          dict(name="https://github.com/octo.keys", status="ok", lines=[key("r3"), key("e2")], to=""),
          dict(name="http://example.net/b?x=1", status="404", lines=[key("x2")], to=""),
          dict(name="https://github.com/bob.keys", status="ok", lines=[], to=""),
          dict(name="https://example.org/moved", status="redirect", lines=[key("x1")], to=org),
          dict(name="https://github.com/Octo-Cat.keys", status="ok", lines=[key("x4")], to="")]
    return {u["name"]: dict(u, nl="lf", term=True, type="text/plain", chunked=False,
                            body=listing(dict(u, nl="lf", term=True), "/")) for u in us}


def setup(sc):
    base = os.path.realpath(os.path.join(os.environ["HOME"], sc["id"]))
    home, cwd = os.path.join(base, "home"), os.path.join(base, "cwd")
    os.makedirs(os.path.join(home, ".config", "age"))
    os.makedirs(os.path.join(cwd, "sub"))
    os.mkdir(os.path.join(cwd, "folder"))
    os.symlink("nowhere at all", os.path.join(cwd, "gone"))
    return base, home, cwd


def world_files(sc, home, cwd):
    for f in sc["files"]:
        with open(os.path.join(cwd, f["name"]), "wb") as h:
            h.write(listing(f, cwd))
    if sc["aliases"]:
        with open(os.path.join(home, ".config", "age", "aliases.txt"), "w") as h:
            for a in sc["aliases"]:
                h.write("%s: %s\n" % (a["label"], " ".join(text(v, cwd) for v in a["values"])))


WAY = {"err": "pipe", "so": "open", "si": "open", "spell": "short", "order": "before", "name": "plain"}
NAMES = {"plain": ("input", "output"), "space": ("my input", " output"), "uni": ("Eingäbe 文", "ausgabe ü.age"), "dash": ("-in", "-out"),
         "raw": (os.fsdecode(b"in\xff\n"), os.fsdecode(b"out\xfe")), "deep": ("sub/../sub/in", "./sub/out"), "dots": ("..in", "out.txt.age~"),
         "glob": ("in[1]*?", "out{a,b}"), "vars": ("$HOME%s", "~out$PWD"), "percent": ("in%20put", "out%%0.age")}
KEYNAMES = {"uni": "Schlüssel %d.txt", "dash": "-k%d", "raw": os.fsdecode(b"k%d\xff.txt"), "deep": "./sub/../keys%d", "dots": "..k%d", "glob": "k[%d]*.txt",
            "vars": "$HOME.%d.txt", "percent": "k%%20%d"}


def way(sc):
    return dict(WAY, **sc.get("way", {}))


def names(sc):
    """what the input and the output file are called"""
    return NAMES[way(sc)["name"]]


def keyname(sc, i):
    return KEYNAMES.get(way(sc)["name"], "keys %d.txt") % i


def command(what, opts, rest, w):
    """opts: [(short, long, value or None)]; one of the ways to spell a command line"""
    flags = [o for o in opts if o[2] is None]
    out = []
    for o in [o for o in opts if o[2] is not None]:
        s, lo, v = o
        out.append({"short": ["-" + s, v], "long": ["--" + lo, v], "attached": ["-" + s + v], "joined": ["--%s=%s" % (lo, v)]}[w["spell"]])
    if w["spell"] == "attached" and flags:
        out.append(["-" + "".join(o[0] for o in flags)])
    else:
        out += [["--" + o[1]] if w["spell"] in ("long", "joined") else ["-" + o[0]] for o in flags]
    if w["order"] == "reverse":
        out.reverse()
    plain = all(x and not x.startswith("-") for x in rest)
    if plain and w["order"] == "after":
        return [what, *rest, *sum(out, [])]
    if plain and w["order"] == "mixed":
        # names and options by turns
        mixed, out, rest = [], list(out), [[x] for x in rest]
        while out or rest:
            for q in (rest, out):
                if q:
                    mixed += q.pop(0)
        return [what, *mixed]
    return [what, *sum(out, []), "--", *rest]


PROC = "/proc/version"
BEFORE = b"a line that has been read\n"


def given(sc):
    """what is encrypted"""
    if sc["src"] == "proc":
        return content(PROC)
    return world.plaintext(sc["stream"], sc["n"])


def give_fifo(path, data):
    """wait for a reader, but not for ever"""
    try:
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        signal.alarm(70)
        os.closerange(3, 400)
        while True:
            try:
                fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError as e:
                if e.errno != errno.ENXIO:
                    os._exit(0)
                time.sleep(0.003)
        os.set_blocking(fd, True)
        for i in range(0, len(data), 5000):
            os.write(fd, data[i:i + 5000])
    finally:
        os._exit(0)


class Reader:
    """puts what comes out of a pipe, or what a terminal shows, into a file"""

    def __init__(self, path, terminal=False):
        if terminal:
            r, self.w = pty.openpty()
            tty.setraw(self.w)
        else:
            r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.dup2(r, 0)
                os.closerange(3, 400)
                with open(path, "wb") as f:
                    while True:
                        try:
                            b = os.read(0, 3000)
                        except OSError:
                            # the last one to use the terminal is gone
                            b = b""
                        if not b:
                            break
                        f.write(b)
            finally:
                os._exit(0)
        os.close(r)

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


class Typist:
    """types lines at a terminal, then says that this was all"""

    def __init__(self, data):
        m, self.s = pty.openpty()
        a = termios.tcgetattr(self.s)
        a[3] &= ~termios.ECHO
        a[0] &= ~(termios.ICRNL | termios.IXON)
        termios.tcsetattr(self.s, termios.TCSANOW, a)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(70)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.dup2(m, 0)
                os.closerange(3, 400)
                for line in data.splitlines(True):
                    while line:
                        line = line[os.write(0, line):]
                os.write(0, b"\x04")
                # a second time in case that somebody goes on reading
                time.sleep(0.3)
                os.write(0, b"\x04")
                time.sleep(69)
            finally:
                os._exit(0)
        os.close(m)

    def close(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        os.close(self.s)


def close_all(opened):
    for x in opened:
        os.close(x) if isinstance(x, int) else x.close()


def odd_env(sc, home):
    """variables that mean nothing to these commands"""
    if way(sc).get("env", "plain") == "plain":
        return {}
    other = os.path.join(os.path.dirname(home), "elsewhere")
    return {"XDG_CONFIG_HOME": other, "XDG_DATA_HOME": other, "XDG_CONFIG_DIRS": other, "XDG_RUNTIME_DIR": other, "APPDATA": other, "USERPROFILE": other,
            "AGE_CONFIG": other, "AGE_KEYS": other, "AGE_IDENTITY": other, "AGE_PASSWORD": "wrong", "AGE_PASSPHRASE": "wrong", "PYAGE_CONFIG": other,
            "SSH_AUTH_SOCK": other, "SSH_ASKPASS": "/bin/false", "SSH_ASKPASS_REQUIRE": "force", "USER": "somebody", "LOGNAME": "somebody", "PWD": "/",
            "OLDPWD": "/", "TERM": "dumb", "COLUMNS": "15", "LINES": "3", "NO_COLOR": "1", "FORCE_COLOR": "1", "CLICOLOR_FORCE": "1", "POSIXLY_CORRECT": "1",
            "DEBUG": "1", "VERBOSE": "1", "QUIET": "1", "CI": "true", "TZ": "Asia/Tokyo", "SOURCE_DATE_EPOCH": "0", "PAGER": "/bin/false", "EDITOR": "/bin/false"}


def feed(kind, cwd, data, opened, name="input"):
    """-> (options, stdin)"""
    null = os.open(os.devnull, os.O_RDONLY)
    opened.append(null)
    path = os.path.join(cwd, name)
    if kind == "missing":
        return [("i", "infile", "no such input")], null
    if kind == "dir":
        return [("i", "infile", "folder")], null
    if kind == "mem":
        return [("i", "infile", "/proc/self/mem")], null
    if kind == "closed":
        return [], None
    if kind == "stdindir":
        opened.append(os.open(cwd, os.O_RDONLY))
        return [], opened[-1]
    if kind == "eio":
        # a terminal whose other side hangs up after the data
        m, s = pty.openpty()
        tty.setraw(s)
        os.write(s, data[:2000])
        os.close(s)
        opened.append(m)
        return [], m
    if kind == "typed":
        opened.append(Typist(data))
        return [], opened[-1].s
    if kind == "proc":
        # a file that does not tell its size (its contents are what is encrypted)
        return [("i", "infile", PROC)], null
    if kind == "fifo":
        os.mkfifo(path)
        if os.fork() == 0:
            give_fifo(path, data)
        return [("i", "infile", name)], null
    with open(path, "wb") as f:
        f.write((BEFORE if kind == "offset" else b"") + data)
    if kind == "offset":
        # somebody has read the first part already
        opened.append(os.open(path, os.O_RDONLY))
        os.lseek(opened[-1], len(BEFORE), os.SEEK_SET)
        return [], opened[-1]
    if kind == "devin":
        opened.append(os.open(path, os.O_RDONLY))
        return [("i", "infile", "/dev/stdin")], opened[-1]
    if kind == "file":
        return [("i", "infile", name)], null
    if kind == "dash":
        opened.append(os.open(path, os.O_RDONLY))
        return [("i", "infile", "-")], opened[-1]
    if kind == "pipe":
        r, w = os.pipe()
        opened.append(r)
        if os.fork() == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGPIPE, signal.SIG_DFL)
                for i in range(0, len(data), 5000):
                    os.write(w, data[i:i + 5000])
            finally:
                os._exit(0)
        os.close(w)
        return [], r
    opened.append(os.open(path, os.O_RDONLY))
    return [], opened[-1]


def sink(kind, place, cwd, opened, inname="input", name="output"):
    """-> (options, stdout, path that receives the output)"""
    null = os.open(os.devnull, os.O_WRONLY)
    opened.append(null)
    so = os.path.join(cwd, "..", "stdout")
    path = os.path.join(cwd, name)
    if kind in ("file", "new", "link"):
        if place == "same":
            path = os.path.join(cwd, inname)
            if kind == "link":
                os.symlink(os.path.basename(inname), os.path.join(cwd, name))
            name = name if kind == "link" else inname
        else:
            if kind != "new":
                with open(path, "wb") as f:
                    f.write(OLD)
        opened.append(os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
        return [("o", "outfile", name)], opened[-1], path
    if kind == "full":
        opened.append(os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
        return [("o", "outfile", "/dev/full")], opened[-1], None
    if kind == "stdoutfull":
        opened.append(os.open("/dev/full", os.O_WRONLY))
        return [], opened[-1], None
    if kind == "nodir":
        opened.append(os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
        return [("o", "outfile", "no such folder/output")], opened[-1], None
    if kind == "epipe":
        r, w = os.pipe()
        os.close(r)
        opened.append(w)
        return [], w, None
    if kind == "closed":
        return [], None, None
    if kind == "pipeout":
        opened.append(Reader(so))
        return [], opened[-1].w, so
    if kind == "term":
        opened.append(Reader(so, True))
        return [], opened[-1].w, so
    if kind == "append":
        # something is in the file already, and stays there
        with open(so, "wb") as f:
            f.write(OLD)
        opened.append(os.open(so, os.O_WRONLY | (os.O_APPEND if sum(cwd.encode()) % 2 else 0)))
        os.lseek(opened[-1], 0, os.SEEK_END)
        return [], opened[-1], so
    if kind == "devout":
        opened.append(os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
        return [("o", "outfile", "/dev/stdout")], opened[-1], so
    if kind in ("tty", "ttydash"):
        return ([("o", "outfile", "-")] if kind == "ttydash" else []), "tty", None
    opened.append(os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
    return ([("o", "outfile", "-")] if kind == "dash" else []), opened[-1], so


def closings(sc, src, dst, stdin, stdout):
    """standard streams that are not needed may be closed"""
    w = way(sc)
    if w["si"] == "closed" and src == "file":
        stdin = None
    if w["si"] == "tty" and src in ("file", "missing", "dir", ""):
        stdin = "tty"
    if w["so"] == "closed" and dst in ("file", "new", "link"):
        stdout = None
    return stdin, stdout


def errs(sc):
    """standard error: a pipe, closed, or the terminal (unless that is looked at for output)"""
    e = way(sc)["err"]
    return e == "closed" or ("tty" if e == "tty" and sc.get("dst") not in ("tty", "ttydash") else False)


def clear(cwd, sc):
    for f in (*names(sc), "../stdout"):
        if os.path.lexists(os.path.join(cwd, f)):
            os.remove(os.path.join(cwd, f))


def content(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


TOOUT = ("stdout", "dash", "pipeout", "append", "devout", "term")


def produced(dst, path):
    """the output"""
    out = content(path) if path else None
    if dst == "append" and out is not None:
        return out[len(OLD):] if out.startswith(OLD) else b"what was there is gone: " + out
    return out


def reading(data, armored, names, plain):
    """what each identity gets out of a produced file, by the independent reader"""
    b = refage.dearmor(data) if armored else data
    out = {}
    for n in names:
        p = refage.read_file(b, [world.ident(n)]) if b is not None else None
        out[n] = "no" if p is None else "same" if p == plain else "other"
    return out


def own_reading(data, armored, names, plain):
    """and by the code itself"""
    from age.file import Decryptor
    from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput
    for n in names:
        try:
            s = io.BytesIO(data)
            got = Decryptor([world.private_key(n)], AsciiArmoredInput(AGE_PEM_LABEL, s) if armored else s).read()
        except Exception:
            continue
        if got != plain:
            return "other"
    return "fine"


def encrypt_once(sc, base, home, cwd, plain, room, kill, unbuf):
    opened = []
    clear(cwd, sc)
    inname, outname = names(sc)
    opts, stdin = feed(sc["src"], cwd, plain, opened, inname)
    oopts, stdout, path = sink(sc["dst"], sc["place"], cwd, opened, inname, outname)
    stdin, stdout = closings(sc, sc["src"], sc["dst"], stdin, stdout)
    argv = command("encrypt", opts + oopts + ([("a", "ascii", None)] if sc["armor"] else []) + ([("p", "password", None)] if sc["pw"] else []),
                   [text(x, cwd) for x in sc["x"]], way(sc))
    res = run(argv, stdin, stdout, home, cwd, password=world.password(int(sc["pw"][1:])).decode() if sc["pw"] else "",
              room=room, kill=kill, unbuf=unbuf, real=sc["real"], terminal=stdout == "tty", err_closed=errs(sc), more=odd_env(sc, home))
    close_all(opened)
    return res, path


def states(sc, base, cwd, res, path, plain, kept):
    """what is where afterwards"""
    so = content(os.path.join(base, "stdout"))
    toout = sc["dst"] in TOOUT
    out = produced(sc["dst"], path)
    return {"rc": res.rc, "stdout": "other" if toout else "empty" if not so and (
        "-----BEGIN" not in res.term.decode("latin1") and "age-encryption" not in res.term.decode("latin1")) else "data",
        "after": "absent" if out is None else "old" if out == kept else "empty" if not out else "data"}, out


def enc_case(sc):
    base, home, cwd = setup(sc)
    world_files(sc, home, cwd)
    world.set_stub(not sc["real"])
    plain = given(sc)
    ev = dict(sc, rc=-1, stdout="", after="", opens=[], own="fine", fits=True, total=-1, room=-1)
    room = None
    if sc["cut"] >= 0:
        # a run without faults says how long the output is
        res, path = encrypt_once(dict(sc, src="file" if sc["src"] == "eio" else sc["src"]), base, home, cwd, plain, None, False, False)
        total = len(produced(sc["dst"], path) or b"")
        ev["total"] = total
        room = max(0, min(total + 50, total * sc["cut"] // 1000 + sc["off"]))
        # the input is not made by the command; it only has to fit
        ev["room"], ev["fits"] = room, room >= total
        if res.rc != 0:
            ev["fits"] = True
            room = None
    res, path = encrypt_once(sc, base, home, cwd, plain, room, sc["kill"], sc["unbuf"])
    kept = plain if sc["place"] == "same" else b"" if sc["dst"] in TOOUT else OLD
    st, out = states(sc, base, cwd, res, path, plain, kept)
    ev.update(st)
    if out:
        armored = sc["armor"]
        names = sc.get("pool") or POOL
        opens = reading(out, armored, names, plain)
        ev["opens"] = [[n, opens[n]] for n in names]
        ev["own"] = own_reading(out, armored, names if sc["real"] is False else [n for n in names if n[0] != "p"], plain)
    if res.rc not in (0, 1, 2, 120):
        ev["err"] = res.err[-200:]
    shutil.rmtree(base, ignore_errors=True)
    return ev


# ---------------------------------------------------------------------------
def ssh_file(n):
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import ed25519
    if n[0] == "r":
        return world.rsa_key(int(n[1:]))[0]
    return ed25519.Ed25519PrivateKey.from_private_bytes(world.ident(n).secret).private_bytes(
        ser.Encoding.PEM, ser.PrivateFormat.OpenSSH, ser.NoEncryption())


def identities(sc, home, cwd):
    """-> keyfile arguments"""
    def keys(path, names):
        with open(path, "w") as f:
            f.write("# keys\n" + "".join(refage.bech32_encode("age-secret-key-", world.ident(n).secret).upper() + "\n" for n in names))
    if sc["keystxt"] != ["-"]:
        keys(os.path.join(home, ".config", "age", "keys.txt"), sc["keystxt"])
    args = []
    for i, names in enumerate(sc["keyfiles"]):
        keys(os.path.join(cwd, keyname(sc, i)), names)
        args.append(keyname(sc, i))
    if sc["ssh"] != ["-"]:
        os.mkdir(os.path.join(home, ".ssh"))
        for n in sc["ssh"]:
            with open(os.path.join(home, ".ssh", "id_" + n), "wb") as f:
                f.write(b"this is no key\n" if n == "broken" else ssh_file(n))
    return args


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def apart(a, b):
    """are these two files, and not one spelled in two ways?"""
    if a is None or len(a) != len(b):
        return True
    # unused bits of the last character of the authentication code
    last = refage.Parts(b).header_len - 2
    return [i for i in range(len(a)) if a[i] != b[i] and i != last] != []


def damage(d, data, armored, plainfile):
    """-> (bytes, must: is it no longer the file)"""
    op, a, b = d["op"], d["a"], d["b"]
    n = len(data)
    if op == "none":
        return data, "no"
    if op == "cut":
        i = max(0, min(n - 1, n * a // 1000 + b))
        # the last line end of armored text may be missing
        return data[:i], "text" if armored and i == n - 1 else "yes"
    if op == "end":
        i = max(0, n - b)
        return data[:i], "no" if i == n else "text" if armored and i == n - 1 else "yes"
    if op == "flip":
        i = min(n - 1, n * a // 1000)
        if armored:
            # another base64 character
            while data[i] not in B64 or data[data.rfind(b"\n", 0, i) + 1:][:1] == b"-":
                i = (i + 1) % n
            c = B64[(B64.index(data[i]) + 1 + b % 63) % 64]
            out = data[:i] + bytes([c]) + data[i + 1:]
            return out, "yes" if apart(refage.dearmor(out), plainfile) else "text"
        out = data[:i] + bytes([data[i] ^ (1 << b % 8)]) + data[i + 1:]
        return out, "yes" if apart(out, data) else "text"
    if op == "nonce":
        out = plainfile[:refage.Parts(plainfile).header_len + b]
        return (refage.armor(out) if armored else out), "yes"
    if op == "append":
        return data + (b"\n" if armored else b"x" * max(1, b)), "text" if armored else "yes"
    if op == "twice":
        return data + data, "yes"
    if op == "lines":
        ls = data.split(b"\n")
        i = 1 + a % max(1, len(ls) - 3) if armored else a % max(1, len(ls) - 1)
        if b == 0:
            del ls[i]
        else:
            ls.insert(i, ls[i])
        return b"\n".join(ls), "yes"
    if op == "lead":
        return b"x" * max(1, b) + data, "text" if armored else "yes"
    if op == "empty":
        return b"", "yes"
    if op == "junk":
        return world.prng("junk%d" % a, b), "yes"
    if op == "text":
        return b"Hello World!\n" * a, "yes"
    if op == "crlf":
        return data.replace(b"\n", b"\r\n"), "text" if armored else "yes"
    if op == "label":
        return data.replace(b"AGE ENCRYPTED FILE", b"AGE ENCRYPTED FILES"), "yes" if armored else "no"
    if op == "noend":
        return data[:data.rindex(b"-----END")] if armored else data[:-16], "yes"
    if op == "nobegin":
        return data[data.index(b"\n") + 1:], "yes"
    raise KeyError(op)


def fixture(sc, plain, known=None):
    """the encrypted file, made by the reference writer; its file key is added to known"""
    label = "fx" + sc["id"]
    count = [0]

    def rnd(n):
        count[0] += 1
        return world.prng("%s-%d" % (label, count[0]), n)
    key = rnd(16)
    if known is not None:
        known.append(key)
    data = refage.make_file([("unheard-of", ["of"], b"body") if n == "?" else world.ident(n).wrap(key, rnd, log_cost=10) for n in sc["rcpts"]],
                            key, rnd(16), plain)
    return (refage.armor(data) if sc["armor"] else data), data


def dec_case(sc):
    base, home, cwd = setup(sc)
    world.set_stub(not sc["real"])
    plain = world.plaintext(sc["stream"], sc["n"])
    ev = dict(sc, rc=-1, stdout="", after="", changed="no", fits=True)
    keyargs = identities(sc, home, cwd)
    data, raw = fixture(sc, plain)
    data, ev["changed"] = damage(sc["dmg"], data, sc["armor"], raw)
    opened = []
    inname, outname = names(sc)
    opts, stdin = feed(sc["src"], cwd, data, opened, inname)
    oopts, stdout, path = sink(sc["dst"], sc["place"], cwd, opened, inname, outname)
    stdin, stdout = closings(sc, sc["src"], sc["dst"], stdin, stdout)
    argv = command("decrypt", opts + oopts + ([("a", "ascii", None)] if sc["asarmor"] else []) + ([("p", "password", None)] if sc["pw"] else []),
                   keyargs, way(sc))
    room = None
    if sc["cut"] >= 0:
        room = max(0, min(len(plain) + 5, len(plain) * sc["cut"] // 1000 + sc["off"]))
        ev["fits"] = room >= len(plain)
    res = run(argv, stdin, stdout, home, cwd, password=world.password(int(sc["pw"][1:])).decode() if sc["pw"] else "",
              room=room, kill=False, unbuf=sc["unbuf"], real=sc["real"], terminal=stdout == "tty", err_closed=errs(sc), more=odd_env(sc, home))
    close_all(opened)
    kept = data if sc["place"] == "same" else b"" if sc["dst"] in TOOUT else OLD
    out = produced(sc["dst"], path)
    so = out if sc["dst"] == "append" else content(os.path.join(base, "stdout"))
    ev["rc"] = res.rc
    ev["stdout"] = "empty" if not so else "data"
    ev["after"] = ("absent" if out is None else "same" if out == plain and (plain or not kept) and res.rc == 0 else
                   "old" if out == kept else "same" if out == plain else "other")
    if sc["dst"] == "tty":
        ev["after"] = "absent" if not res.term.replace(b"\r", b"").strip() else "same" if plain.hex().encode()[:20] else "other"
    if res.rc not in (0, 1, 2, 120):
        ev["err"] = res.err[-200:]
    shutil.rmtree(base, ignore_errors=True)
    return ev


def round_case(sc):
    """both commands, one after the other"""
    base, home, cwd = setup(sc)
    world_files(sc, home, cwd)
    world.set_stub(not sc["real"])
    plain = given(sc)
    ev = dict(sc, rc=-1, rc2=-1, after="", stdout="")
    res, path = encrypt_once(sc, base, home, cwd, plain, None, False, sc["unbuf"])
    ev["rc"] = res.rc
    data = produced(sc["dst"], path) or b""
    keyargs = identities(sc, home, cwd)
    clear(cwd, sc)
    opened = []
    inname, outname = names(sc)
    opts, stdin = feed(sc["src2"], cwd, data or b"", opened, inname)
    oopts, stdout, path = sink(sc["dst2"], sc["place2"], cwd, opened, inname, outname)
    stdin, stdout = closings(sc, sc["src2"], sc["dst2"], stdin, stdout)
    argv = command("decrypt", opts + oopts + ([("a", "ascii", None)] if sc["armor"] else []) + ([("p", "password", None)] if sc["pw2"] else []),
                   keyargs, way(sc))
    res = run(argv, stdin, stdout, home, cwd, password=world.password(int(sc["pw2"][1:])).decode() if sc["pw2"] else "",
              unbuf=sc["unbuf"], real=sc["real"], err_closed=errs(sc), more=odd_env(sc, home))
    close_all(opened)
    ev["rc2"] = res.rc
    out = produced(sc["dst2"], path)
    so = content(os.path.join(base, "stdout"))
    ev["stdout"] = "data" if so and sc["dst2"] not in TOOUT else "empty"
    ev["after"] = "absent" if out is None else "same" if out == plain else "other"
    ev["err"] = res.err[-200:] if res.rc else ""
    shutil.rmtree(base, ignore_errors=True)
    return ev


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    world.install_scrypt_stub()
    import encodings.idna  # noqa: F401
    import getpass  # noqa: F401

    import age.cli  # noqa: F401
    NET["pages"] = pages()
    install_net(apart=True)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    world.quiet()
    kinds = {"enc": enc_case, "dec": dec_case, "round": round_case}
    json.dump([kinds[c["k"]](c) for c in cases], out)
    out.close()


if __name__ == "__main__":
    main()
