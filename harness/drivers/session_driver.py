"""Replays AgeSessions histories on real Encryptor/Decryptor objects.

case: {id, kind, ops:[{op,h,n,d,k}]} -> + ops[i].{r,src,from,cnt}, final:[{h,r,src,n}], secrets"""
import gc
import hashlib
import io
import json
import os
import queue
import shutil
import sys
import threading

from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

import refage
import world

RC = ["x1", "x2", "e1", "p1", "r4", "x3", "e2", "p6", "r1"]


# variables that mean nothing here (some other program, some other time, a test, a build)
ODD = {"SOURCE_DATE_EPOCH": "1", "PYTHONHASHSEED": "0", "TESTING": "1", "TEST": "1", "DEBUG": "1", "CI": "true", "SEED": "1", "RANDOM": "4",
       "RANDOM_SEED": "1", "AGE_SEED": "1", "AGE_DEBUG": "1", "AGE_TEST": "1", "PYAGE_DEBUG": "1", "PYAGE_TEST": "1", "FIPS": "1", "LIVE_DANGEROUSLY": "1",
       "PYTEST_CURRENT_TEST": "test_file.py::test (call)", "REPRODUCIBLE": "1", "DETERMINISTIC_BUILD": "1", "UNITTEST": "1", "ENVIRONMENT": "test"}


class FailingSink(io.RawIOBase):
    def __init__(self, after):
        self.left, self.data = after, b""

    def writable(self):
        return True

    def write(self, b):
        if len(b) > self.left:
            raise OSError("sink is full")
        self.left -= len(b)
        self.data += bytes(b)
        return len(b)


def used(key, payload, name):
    """with which nonces was this key used?"""
    size = 65536 + 16
    chunks = [payload[i:i + size] for i in range(0, len(payload), size)]
    if len(chunks) < 2:
        return []
    aead, res = ChaCha20Poly1305(key), []
    for i, c in enumerate(chunks):
        for j in [i] + list(range(len(chunks) + 1)):
            for last in ([0, 1] if i < len(chunks) - 1 else [1, 0]):
                nonce = j.to_bytes(11, "big") + bytes([last])
                try:
                    aead.decrypt(nonce, c, None)
                except InvalidTag:
                    continue
                break
            else:
                continue
            res.append(dict(p="chunk", v=hashlib.sha256(key + nonce).hexdigest()[:32]))
            break
        else:
            res.append(dict(p="unreadable", v="%s chunk %d" % (name, i)))
    return res


class Boom(Exception):
    pass


def pick(label, n):
    return int.from_bytes(hashlib.sha256(label.encode()).digest()[:4], "big") % n


class Worker:
    def __init__(self):
        self.q, self.a = queue.Queue(), queue.Queue()
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            self.a.put(f())

    def do(self, f):
        self.q.put(f)
        try:
            return self.a.get(timeout=40) if f else None
        except queue.Empty:
            return None


class Hist:
    def __init__(self, case, only_cheap=False):
        self.case = case
        self.w, self.sink, self.rc, self.off = {}, {}, {}, {}
        self.r, self.rh, self.pos = {}, {}, {}
        self.workers = {}

    def what(self, h, n):
        """the bytes written to h; those of the first writer may be special"""
        text = self.case.get("text", "") if h == 1 else ""
        return world.plaintext(text or h, n, self.total(h)) if text else world.plaintext(h, n)

    def total(self, h):
        """as much as will be written to h"""
        t = 0
        for o in self.case["ops"]:
            if o["h"] == h and o["op"] in ("close", "exit", "abort"):
                break
            t += o["n"] if o["h"] == h and o["op"] == "write" else 0
        return t

    def output(self, h):
        s = self.sink[h]
        return s.data if isinstance(s, FailingSink) else s.get()

    fixed = None

    def rcpts(self, h, n):
        return list(self.fixed) if self.fixed else [RC[pick("%s.%s.%s" % (self.case["id"], h, i), len(RC))] for i in range(n)]

    def call(self, o):
        from age.exceptions import NoIdentity  # noqa: F401
        from age.file import Decryptor, Encryptor
        from age.keys.base import EncryptionKey

        op, h, n, d, k = o["op"], o["h"], o["n"], o["d"], o["k"]
        if op in ("new", "newbad"):
            self.rc[h] = self.rcpts(h, n)
            keys = [world.public_key(x) for x in self.rc[h]]
            self.off[h] = 0
            sink = world.Sink(k if op == "new" else "bytes")
            self.sink[h] = sink
            if op == "newbad":
                if k == "key":
                    keys = keys + [EncryptionKey()]
                elif k == "first":
                    keys = [EncryptionKey()] + keys
                else:
                    self.sink[h] = FailingSink(pick(self.case["id"] + "sink", 60))
                    keys = keys or [world.public_key("x1")]
                if not self.rc[h]:
                    self.rc[h] = ["x1"]
            self.w[h] = None
            try:
                self.w[h] = Encryptor(world.collection(("list", "tuple", "values", "deque", "own")[pick("%s.c%s" % (self.case["id"], h), 5)], keys),
                                      sink.stream if self.sink[h] is sink else self.sink[h])
                self.w[h].__enter__()
            finally:
                gc.collect()
            return "ok", 0, 0, 0
        if op == "write":
            if self.w[h] is None:
                return "error", 0, 0, 0
            data = self.what(h, self.off[h] + n)[self.off[h]:]
            if k == "bytearray":
                data = bytearray(data)
            elif k == "view":
                back = bytearray(data)
                data = memoryview(back)
            got = self.give(self.w[h], data, k)
            # the caller goes on to use its own buffer for something else
            if k == "bytearray":
                data[:] = b"\xee" * len(data)
            elif k == "view":
                back[:] = b"\xee" * len(back)
            if isinstance(got, int) and got > 0:
                self.off[h] += got
            return "ok", 0, 0, got if isinstance(got, int) else -1
        if op in ("close", "exit", "abort"):
            if self.w[h] is None:
                return "ok", 0, 0, 0
            if op == "close":
                self.w[h].close()
                return "ok", 0, 0, 0
            if op == "exit":
                self.w[h].__exit__(None, None, None)
                return "ok", 0, 0, 0
            e = [Boom("boom"), KeyboardInterrupt(), OSError(28, "No space left")][
                pick(self.case["id"] + "exc", 3)]
            try:
                raise e
            except BaseException:
                swallowed = self.w[h].__exit__(*sys.exc_info())
            return ("swallowed" if swallowed else "ok"), 0, 0, 0
        if op == "open":
            ident = self.rc[h][pick("%s.open.%s" % (self.case["id"], d), len(self.rc[h]))]
            self.rh[d] = h
            self.r[d] = Decryptor([world.private_key(ident)], world.source(k, self.output(h)))
            return "ok", 0, 0, 0
        if op == "read":
            dec = self.r[d]
            if n < 0 and k in ("lines", "iter"):
                ls = dec.readlines() if k == "lines" else list(dec)
                got = b"".join(ls)
                if not all(x and b"\n" not in x[:-1] for x in ls) or not all(x.endswith(b"\n") for x in ls[:-1]):
                    return ("badlines",) + self.locate(d, got)
            elif n < 0 and k == "copy":
                out = io.BytesIO()
                shutil.copyfileobj(dec, out, 1 + pick(self.case["id"] + "copy", 70000))
                got = out.getvalue()
            elif n < 0:
                got = dec.readall() if k == "readall" else (dec.read() if d % 2 else dec.read(-1))
            else:
                got = dec.read(n)
            got = bytes(got or b"")
            return ("ok",) + self.locate(d, got)
        if op == "line":
            dec = self.r[d]
            got = bytes((next(dec, b"") if k == "next" else dec.readline() if n < 0 and d % 2 else dec.readline(n)) or b"")
            if k == "next":
                o["n"] = -1
            o["nl"] = got.find(b"\n") + 1
            return ("ok",) + self.locate(d, got)
        raise AssertionError(op)

    def give(self, w, data, k):
        """write, in one way or another; -> how many bytes were taken"""
        if k == "lines":
            m = len(data) // 2
            w.writelines([data[:m], data[m:]])
        elif k == "buffer":
            b = io.BufferedWriter(w, 1 + pick(self.case["id"] + "buffer", 9000))
            b.write(data)
            b.flush()
            b.detach()
        elif k == "copy" and data:
            shutil.copyfileobj(io.BytesIO(data), w, 1 + pick(self.case["id"] + "copy", 70000))
        else:
            return w.write(data)
        return len(data)

    def locate(self, d, got):
        """which stream and offset do these bytes come from?  (the place where reader d continues
        is tried first: short pieces occur in many places)"""
        if not got:
            return 0, 0, 0
        h, pos = self.rh[d], self.pos.get(d, 0)
        self.pos[d] = pos + len(got)
        if self.what(h, pos + len(got))[pos:] == got:
            return h, pos, len(got)
        for x in self.sink:
            p = self.what(x, 1600000).find(got)
            if p >= 0:
                return x, p, len(got)
        return -1, 0, len(got)

    def step(self, o):
        """one call, on the thread this history uses for it"""
        mode = self.case["mode"]
        if mode == "main":
            return self.guarded(o)
        if mode == "each":      # a new thread for every call
            box = []
            t = threading.Thread(target=lambda: box.append(self.guarded(o)), daemon=True)
            t.start()
            t.join(40)
            return box[0] if box else dict(o, r="hang", src=0, frm=0, cnt=0, nl=0)
        if mode == "own":       # one thread per object
            who = ("r", o["d"]) if o["op"] in ("open", "read") else ("w", o["h"])
            if who not in self.workers:
                self.workers[who] = Worker()
            res = self.workers[who].do(lambda: self.guarded(o))
            return res if res else dict(o, r="hang", src=0, frm=0, cnt=0, nl=0)
        raise AssertionError(mode)

    def guarded(self, o):
        try:
            with world.limit(30):
                r, src, frm, cnt = self.call(o)
        except Exception:
            r, src, frm, cnt = "error", 0, 0, 0
        except world.CaseTimeout:
            r, src, frm, cnt = "hang", 0, 0, 0
        except BaseException:
            r, src, frm, cnt = "exit", 0, 0, 0
        if o["op"] == "line":
            o = dict(dict(nl=0), **o)
        return dict(o, r=r, src=src, frm=frm, cnt=cnt)

    def run(self):
        ops = [self.step(o) for o in self.case["ops"]]
        for x in self.workers.values():
            x.do(None)
        final = []
        for h in sorted(self.sink):
            final.append(dict(h=h, **self.look(h)))
        return ops, final

    def look(self, h):
        """what can be read from the output of h now?"""
        from age.file import Decryptor

        data = self.output(h)
        try:
            with world.limit(30):
                got = Decryptor([world.private_key(x) for x in self.rc[h]],
                                io.BytesIO(data)).read()
            text = self.case.get("text", "")
            src, n = world.which(got, [h] + [x for x in self.sink if x != h], {1: text} if text else {}, {1: self.total(1)} if text else {})
            return dict(r="ok", src=src if n else 0, n=n)
        except Exception:
            return dict(r="error", src=0, n=0)
        except world.CaseTimeout:
            return dict(r="hang", src=0, n=0)

    def secrets(self):
        res = []
        for h in sorted(self.sink):
            data = self.output(h)
            try:
                p = refage.Parts(data)
            except ValueError:
                continue
            fk = None
            for i in range(len(p.stanzas)):
                typ, args, body = p.fields(i)
                if typ in ("X25519", "ssh-ed25519"):
                    res.append(dict(p="share", v=refage.unb64(args[-1]).hex()))
                elif typ == "scrypt":
                    res.append(dict(p="salt", v=refage.unb64(args[0]).hex()))
                else:
                    res.append(dict(p="oaep", v=body[:32].hex()))
                for name in self.rc[h]:
                    if fk is None:
                        fk = world.ident(name).unwrap(typ, args, body)
            if fk is not None:
                res.append(dict(p="fk", v=fk.hex()))
                if len(p.payload) >= 16:
                    res.append(dict(p="nonce", v=p.payload[:16].hex()))
                    key = refage.payload_key(fk, p.payload[:16])
                    res.append(dict(p="paykey", v=key.hex()))
                    res.extend(used(key, p.payload[16:], "%s-%s" % (self.case["id"], h)))
            else:
                res.append(dict(p="unreadable", v="%s-%s" % (self.case["id"], h)))
        return res


def run_case(case):
    hist = Hist(case)
    ops, final = hist.run()
    try:
        sec = hist.secrets()
    except Exception as e:
        sec = [dict(p="unreadable", v="%s %r" % (case["id"], e))]
    del hist
    gc.collect()
    return dict(case, ops=ops, final=final, secrets=sec)


def fork_case(case):
    """the same calls in this process and in two children which share its history"""
    import multiprocessing as mp

    res = []
    ctx = mp.get_context("fork")
    for n in range(2):
        rd, wr = ctx.Pipe(False)

        def child():
            c = dict(case, id="%s.child%d" % (case["id"], n), kind="hist", mode="main")
            wr.send(run_case(c))
            os._exit(0)

        p = ctx.Process(target=child)
        p.start()
        wr.close()
        res.append(rd.recv() if rd.poll(120) else None)
        p.join(10)
        if p.is_alive():
            p.kill()
    res.append(run_case(dict(case, kind="hist", mode="main")))
    return [r for r in res if r]


def free_case(case):
    """the same calls on several objects at the same time, one thread for each copy of the history"""
    old = sys.getswitchinterval()
    box, go = {}, threading.Barrier(4)

    def body(n):
        go.wait()
        box[n] = run_case(dict(case, id="%s.thread%d" % (case["id"], n), kind="hist", mode="main"))

    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(100)
    sys.setswitchinterval(old)
    hung = [dict(o, r="hang", src=0, frm=0, cnt=0, nl=0) for o in case["ops"]]
    return [box.get(n) or dict(case, kind="hist", ops=hung, final=[], secrets=[]) for n in range(4)]


def many_case(case):
    """a long life: many files one after the other, in one or several threads; only their secrets"""
    def life(m, n):
        secs = []
        for i in range(n):
            h = Hist(dict(id="%s.%s.%s" % (case["id"], m, i), mode="main", ops=[]))
            h.fixed = ["x1", "p1"] if i % 2 else ["x1"]
            try:
                h.call(dict(op="new", h=1, n=len(h.fixed), d=0, k="bytes"))
                h.call(dict(op="write", h=1, n=3, d=0, k="bytes"))
                h.call(dict(op="close", h=1, n=0, d=0, k=""))
                secs.extend(h.secrets())
            except Exception as e:
                secs.append(dict(p="unreadable", v="%s %r" % (i, e)))
        return secs

    box = {}
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if case["lives"] > 1 else old)
    ts = [threading.Thread(target=lambda m=m: box.update({m: life(m, case["files"])}), daemon=True) for m in range(case["lives"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(200)
    sys.setswitchinterval(old)
    secs = [s for m in range(case["lives"]) for s in box.get(m, [dict(p="unreadable", v="%s" % m)])]
    return dict(case, kind="hist", ops=[], final=[], secrets=secs)


def main():
    world.install_scrypt_stub()
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    if pick(cases[0]["id"] if cases else "", 4):
        os.environ.update(ODD)
    import age.file  # noqa: F401
    world.quiet()
    res = []
    for c in cases:
        if c["kind"] == "fork":
            res.extend(fork_case(c))
        elif c["kind"] == "free":
            res.extend(free_case(c))
        elif c["kind"] == "many":
            res.append(many_case(c))
        else:
            res.append(run_case(c))
    json.dump(res, out)
    out.close()


main()
