"""A01, A02: the armor streams of the code, histories and texts."""
import base64
import binascii
import io
import json
import os
import re
import sys
import tempfile
import threading

import world

NLS = {"lf": "\n", "crlf": "\r\n", "cr": "\r"}


class Sink:
    """underlying stream of a kind; text() = what has been delivered to it by now"""

    def __init__(self, kind):
        self.kind = kind
        if kind == "bytesio":
            self.stream = io.BytesIO()
        elif kind == "pipe":
            r, w = os.pipe()
            self.got = []
            self.stream = os.fdopen(w, "wb")
            self.thread = threading.Thread(target=self._pump, args=(r,), daemon=True)
            self.thread.start()
        else:
            fd, self.path = tempfile.mkstemp()
            self.stream = os.fdopen(fd, "wb") if kind == "file" else io.BufferedWriter(
                io.FileIO(fd, "w"), 100)

    def _pump(self, r):
        with os.fdopen(r, "rb") as f:
            while True:
                b = f.read1(65536)
                if not b:
                    return
                self.got.append(b)

    def data(self):
        """the owner closes its stream and looks at what is there"""
        if self.kind == "bytesio":
            return self.stream.getvalue()
        self.stream.close()
        if self.kind == "pipe":
            self.thread.join(20)
            return b"".join(self.got)
        with open(self.path, "rb") as f:
            return f.read()

    def drop(self):
        if self.kind in ("file", "buffered"):
            os.unlink(self.path)


def reading(stream, n, salt):
    """the next n bytes (all when negative), in one of the ways to ask for them"""
    if n < 0:
        return [lambda: stream.read(), lambda: stream.read(-1), lambda: b"".join(stream), lambda: b"".join(stream.readlines()), lambda: b"".join(iter(stream.readline, b"")),
                lambda: io.BufferedReader(Plain(stream)).read(), lambda: b"".join(iter(lambda: stream.readline(7), b""))][salt % 7]()
    if salt % 5 == 1 and n:
        # line by line, but not further
        got = b""
        while len(got) < n:
            x = stream.readline(n - len(got))
            if not x:
                break
            got += x
        return got
    return stream.read(n)


class Plain(io.RawIOBase):
    """for a BufferedReader"""

    def __init__(self, stream):
        self.stream = stream

    def readable(self):
        return True

    def readinto(self, b):
        x = self.stream.read(len(b))
        b[:len(x)] = x
        return len(x)


def hist(sc):
    from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput

    ev = dict(sc, res=[])
    sinks, objs, rds, off, data = {}, {}, {}, {1: 0, 2: 0}, {}
    final = {}
    total = {h: sum(o["n"] for o in sc["ops"] if o["op"] == "write" and o["h"] == h) for h in off}
    what = lambda h, n: world.plaintext(sc["text"] if h == 1 and sc["text"] else h, n, total[h])
    for o in sc["ops"]:
        h, n = o["h"], o["n"]
        res = dict(r="ok", **{"from": 0}, n=0)
        try:
            with world.limit(30):
                if o["op"] == "new":
                    sinks[h] = Sink(sc["sink"])
                    objs[h] = AsciiArmoredOutput(sc["label"], sinks[h].stream)
                elif o["op"] == "write":
                    d = what(h, off[h] + n)[off[h]:]
                    res["n"] = objs[h].write(d if n % 3 else bytearray(d))
                    off[h] += n
                elif o["op"] == "flush":
                    objs[h].flush()
                elif o["op"] == "close":
                    objs[h].close()
                    res["sinkopen"] = not sinks[h].stream.closed or h in final
                    if h not in final:
                        final[h] = sinks[h].data()
                        data[h] = what(h, off[h])
                    t = final[h].decode("ascii", "replace")
                    res["term"] = t.endswith("\n")
                    res["text"] = t.split("\n")[:-1] if res["term"] else t.split("\n")
                    res["b64"] = base64.b64encode(data[h]).decode()
                elif o["op"] == "open":
                    t = final[h].replace(b"\n", NLS[sc["nl"]].encode())
                    rds[h] = [AsciiArmoredInput(sc["label"], io.BytesIO(t)), 0]
                elif o["op"] == "read":
                    got = reading(rds[h][0], n, len(ev["res"]) + len(sc["ops"]) + total[h])
                    res["n"] = len(got)
                    if got:
                        res["from"] = rds[h][1] if data[h][rds[h][1]:rds[h][1] + len(got)] == got else -1
                    rds[h][1] += len(got)
        except Exception as e:
            res.update(r="error", err=repr(e)[:200])
        except world.CaseTimeout:
            res["r"] = "hang"
        if o["op"] == "close":
            for k, v in dict(sinkopen=False, term=False, text=[], b64="").items():
                res.setdefault(k, v)
        ev["res"].append(res)
    for s in sinks.values():
        s.drop()
    return ev


STRICT = re.compile(r"[A-Za-z0-9+/]*={0,2}")


def decode(lines):
    t = "".join(x.strip() for x in lines)
    if len(t) % 4 or not STRICT.fullmatch(t):
        return None
    try:
        return base64.b64decode(t)
    except (binascii.Error, ValueError):
        return None


def ranges(lines, data):
    """which begin..end line pairs enclose this data"""
    begins = [i for i, x in enumerate(lines) if x.startswith("-----BEGIN")]
    ends = [i for i, x in enumerate(lines) if x.startswith("-----END")]
    return [[i + 1, j + 1] for i in begins for j in ends if i < j and decode(lines[i + 1:j]) == data]


def edited(sc):
    t = base64.b64encode(world.plaintext(3, sc["n"])).decode()
    text = "-----BEGIN AGE ENCRYPTED FILE-----\n" + "".join(
        t[i:i + 64] + "\n" for i in range(0, len(t), 64)) + "-----END AGE ENCRYPTED FILE-----\n"
    at, e = sc["at"] % (len(text) + 1), sc["edit"]
    b = text.encode()
    if e == "cut":
        return b[:at]
    if e == "tail":
        return b[at:]
    x = b[at:at + 1]
    if e == "del":
        return b[:at] + b[at + 1:]
    if e == "dup":
        return b[:at] + x + b[at:]
    if e == "flip":
        return b[:at] + (bytes([x[0] ^ 1]) if x else b"") + b[at + 1:]
    if e == "case":
        return b[:at] + x.swapcase() + b[at + 1:]
    ins = {"nl": b"\n", "dash": b"-", "space": b" ", "eq": b"=", "nul": b"\0", "hi": b"\xe9", "bom": b"\xef\xbb\xbf"}[e]
    return b[:at] + ins + b[at:]


def doc(sc):
    from age.utils.asciiarmor import AsciiArmoredInput, read_ascii_armored

    ev = dict(sc, bytes=False, r="", hit=[], labels=[], hits=[], strange=False)
    if sc["kind"] == "bytes":
        raw = edited(sc)
        t = raw.decode("latin1")
        ev["strange"] = any(c not in "\n\r\t" and not " " <= c <= "~" and ord(c) < 128 for c in t)
        ev["bytes"] = any(ord(c) > 127 for c in t)
        ls = re.split("\r\n|\r|\n", t)
        ev["term"] = ls[-1] == ""
        if ls[-1] == "":
            ls.pop()
        ev["lines"] = ls = [re.sub(r"[^\t -~]", "?", x) for x in ls]
    else:
        ls, nl = sc["lines"], NLS[sc["nl"]]
        raw = nl.join(ls).encode() + (nl.encode() if ls and sc["term"] else b"")
        if ls and not sc["term"] and ls[-1] == "":
            ev["lines"], ev["term"] = ls[:-1], True
    try:
        with world.limit(30):
            if sc["mode"] == "input":
                got = AsciiArmoredInput("AGE ENCRYPTED FILE", io.BytesIO(raw)).read()
                ev["hit"] = ranges(ls, got)
            else:
                f = io.TextIOWrapper(io.BytesIO(raw), "utf-8")
                args = {} if sc["mode"] == "strict" else dict(strict_line_length=False)
                all_ = list(read_ascii_armored(f, **args))
                ev["labels"] = [x[0] for x in all_]
                ev["hits"] = [ranges(ls, x[1]) for x in all_]
        ev["r"] = "ok"
    except Exception as e:
        ev.update(r="error", err=repr(e)[:200])
    except world.CaseTimeout:
        ev["r"] = "hang"
    return ev


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import age.utils.asciiarmor  # noqa: F401
    world.quiet()
    json.dump([hist(c) if c["kind"] == "hist" else doc(c) for c in cases], out)
    out.close()


main()
