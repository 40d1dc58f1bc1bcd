"""Replays AgeFile scenarios: produce files, edit their bytes, decrypt, record what happened.

scenario: {id, files: [{rcpts, len, ref}], edits: [{op,i,j,g,w}], ids: [...], read: n}
event:    scenario + {r, src, n}"""
import json
import sys

import refage
import world


class Sym:
    """A file as a list of byte parts which the edit operations act on."""

    def __init__(self, data, k):
        p = refage.Parts(data)
        self.k = k
        self.intro, self.mac = p.intro, p.mac
        self.pre = []
        self.st = [[h, list(b)] for h, b in p.stanzas]
        self.nonce = p.payload[:16]
        body = p.payload[16:]
        self.pay = [body[i:i + 65552] for i in range(0, len(body), 65552)]
        self.rawhdr = None

    def head(self):
        out = [self.intro + b"\n"] + [x + b"\n" for x in self.pre]
        for h, b in self.st:
            out.append(h + b"\n")
            out.extend(x + b"\n" for x in b)
        return b"".join(out)

    def bytes(self):
        head = self.rawhdr if self.rawhdr is not None else self.head() + self.mac + b"\n"
        return head + self.nonce + b"".join(self.pay)


def flip(data, bit):
    if not data:
        return b"\x01"
    bit %= len(data) * 8
    b = bytearray(data)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)


ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def spare_bits(text, n):
    """same value, other text: change the unused bits of the last character"""
    free = {0: 0, 2: 4, 3: 2}.get(len(text) % 4, 0)
    if not text or not free or text[-1] not in ALPHA:
        return text + "="
    v = ALPHA.index(text[-1])
    return text[:-1] + ALPHA[v ^ (1 + n % 2)]


def b64flip(text, n):
    try:
        return refage.b64(flip(refage.unb64(text), 3 + 11 * n))
    except ValueError:
        return "A" + text + "AAAA"


def unknown(w, j):
    """a stanza nobody knows: (type, arguments, body)"""
    p = world.prng("grease%s%d" % (w, j), 200)
    return {"plain": ("grease", ["abc"], p[:30]), "noarg": ("joint-grease", [], p[:32]), "nobody": ("x-grease", ["1"], b""),
            "args": ("grease", ["a"] * 20, p[:7]), "long": ("g" * 300, ["h" * 300], p), "full": ("grease", ["abc"], p[:48]),
            "odd": ("!", ["~", "%00"], p[:1]), "dashes": ("--", ["--", "->"], p[:9]), "lower": ("x25519", [refage.b64(p[:32])], p[32:64]),
            "prefix": ("X25519-2", [refage.b64(p[:32])], p[32:64]), "suffix": ("my-ssh-ed25519", ["AAAA", refage.b64(p[:32])], p[32:64])}[w]


FOREIGN = {1: "plain", 2: "suffix", 3: "long", 4: "nobody", 5: "args"}


def edit(f, e, pool, n):
    """n: position of the edit in its list (makes repeated edits different)"""
    op, i, j, g, w = e["op"], e["i"], e["j"], e["g"], e["w"]
    st, pay = f.st, f.pay
    ok = 1 <= i <= len(st)
    okp = 1 <= i <= len(pay)
    src = pool.get(g)
    if op == "H.drop" and ok:
        del st[i - 1]
    elif op == "H.dup" and ok:
        st.insert(i - 1, [st[i - 1][0], list(st[i - 1][1])])
    elif op == "H.swap" and ok and 1 <= j <= len(st):
        st[i - 1], st[j - 1] = st[j - 1], st[i - 1]
    elif op in ("H.ins", "H.repl") and src and 1 <= i <= len(src.st):
        new = [src.st[i - 1][0], list(src.st[i - 1][1])]
        if op == "H.ins" and 1 <= j <= len(st) + 1:
            st.insert(j - 1, new)
        elif op == "H.repl" and 1 <= j <= len(st):
            st[j - 1] = new
    elif op == "H.new" and 1 <= i <= len(st) + 1:
        typ, args, body = unknown(w, j)
        text = refage.b64(body)
        st.insert(i - 1, [("-> " + " ".join([typ, *args])).encode(), [x.encode() for x in refage.wrap64(text)]])
    elif op in ("H.type", "H.arg", "H.body", "H.fmt") and ok:
        s = st[i - 1]
        if op == "H.fmt":
            h = s[0]
            if w == "trail":
                h += b" "
            elif w == "dbl":
                h = h[:3] + h[3:].replace(b" ", b"  ", 1)
            elif w == "tab":
                h = h[:3] + h[3:].replace(b" ", b"\t", 1)
            elif w == "lead":
                h = b"->  " + h[3:]
            elif w == "crlf":
                h += b"\r"
            elif w == "rewrap":
                text = b"".join(s[1])
                s[1] = [text[x:x + 40 + n] for x in range(0, len(text), 40 + n)]
            elif w == "blank":
                s[1].append(b"")
            s[0] = h
        else:
            typ, *args = s[0].decode("utf-8", "replace")[3:].split()
            body = b"".join(s[1]).decode("utf-8", "replace")
            if op == "H.type":
                if w == "unknown":
                    typ = "x-" + typ
                else:
                    typ = {"X25519": "ssh-rsa", "ssh-rsa": "X25519", "ssh-ed25519": "X25519",
                           "scrypt": "X25519"}.get(typ, "scrypt")
            elif op == "H.arg" and w == "add":
                args.append("AAAA")
            elif op == "H.arg" and args:
                a = j % len(args)
                if w == "drop":
                    del args[a]
                elif args[a].isdigit() and typ == "scrypt":
                    args[a] = {"flip": str(int(args[a]) + 1), "bits": "0" + args[a],
                               "pad": "+" + args[a]}[w]
                else:
                    args[a] = (b64flip(args[a], n) if w == "flip" else
                               spare_bits(args[a], n) if w == "bits" else args[a] + "=")
            elif op == "H.body":
                body = {"flip": lambda: b64flip(body, n), "cut": lambda: body[:-4],
                        "add": lambda: body + "AAAA", "empty": lambda: "",
                        "pad": lambda: body + "=", "noise": lambda: body[:5] + "!" + body[5:],
                        "bits": lambda: spare_bits(body, n)}[w]()
            s[0] = ("-> " + " ".join([typ, *args])).encode()
            if op == "H.body":
                s[1] = [x.encode() for x in refage.wrap64(body)]
    elif op == "H.merge" and ok and i + 1 <= len(st):
        st[i - 1][1].extend(st[i][1])
        del st[i]
    elif op == "H.pre":
        f.pre.append(b"" if w == "blank" else b"hello")
    elif op == "H.intro":
        t = f.intro
        f.intro = {"trail": t + b" ", "crlf": t + b"\r", "lead": b" " + t,
                   "v2": t[:-1] + b"2", "case": t.title(), "empty": b"",
                   "twice": t + b"\n" + t, "bom": b"\xef\xbb\xbf" + t, "nul": b"\0" + t, "vt": t + b"\x0b",
                   "tab": t.replace(b"/", b"/\t"), "dbl": t.replace(b"/", b"//"), "cut": t[:-1], "slash": t + b"/",
                   "v1b": t + b".1"}[w]
    elif op == "M.mac":
        text = f.mac[4:].decode("latin-1")
        f.mac = {"flip": lambda: b"--- " + flipped_mac(text, n), "cut": lambda: f.mac[:-4],
                 "empty": lambda: b"--- ", "long": lambda: b"--- " + refage.b64(raw_mac(text) + b"abc").encode(),
                 "long1": lambda: b"--- " + refage.b64(raw_mac(text) + b"\0").encode(), "twice": lambda: f.mac + text.encode(),
                 "half": lambda: b"--- " + refage.b64(raw_mac(text)[:16]).encode(), "word": lambda: f.mac + b" hello",
                 "words": lambda: f.mac + b" " + text.encode(), "front": lambda: b"--- hello " + text.encode(), "comma": lambda: b"--- x " + f.mac[4:] + b" y", "none": lambda: b"---",
                 "zero": lambda: b"--- " + refage.b64(b"\0" * 32).encode()}[w]()
    elif op == "M.other" and src:
        f.mac = src.mac
    elif op == "M.enc":
        text = f.mac[4:].decode("latin-1")
        f.mac = b"--- " + {"pad": text + "=", "bits": spare_bits(text, n),
                           "trail": text + " "}[w].encode("latin-1")
    elif op == "M.remac" and src:
        text = f.head() + b"---"
        f.mac = b"--- " + refage.b64(refage.header_mac(src.file_key, text)).encode()
    elif op == "N.flip":
        f.nonce = flip(f.nonce, j + n)
    elif op == "N.ins":
        f.nonce = bytes([j]) + f.nonce
    elif op == "N.cut":
        f.nonce, f.pay = f.nonce[:j], []
    elif op == "N.other" and src:
        f.nonce = src.nonce
    elif op == "P.drop" and okp:
        del pay[i - 1]
    elif op == "P.dup" and okp:
        pay.insert(i - 1, pay[i - 1])
    elif op == "P.swap" and okp and 1 <= j <= len(pay):
        pay[i - 1], pay[j - 1] = pay[j - 1], pay[i - 1]
    elif op in ("P.ins", "P.repl") and src and 1 <= i <= len(src.pay):
        if op == "P.ins" and 1 <= j <= len(pay) + 1:
            pay.insert(j - 1, src.pay[i - 1])
        elif op == "P.repl" and 1 <= j <= len(pay):
            pay[j - 1] = src.pay[i - 1]
    elif op == "P.all" and src:
        f.pay = list(src.pay)
    elif op == "P.edit" and okp:
        c = pay[i - 1]
        pay[i - 1] = {"flip": lambda: flip(c, j + n * 9), "cut": lambda: c[:-1],
                      "tagflip": lambda: c[:-16] + flip(c[-16:], 5 + n * 9),
                      "cuttag": lambda: c[:-16], "add": lambda: c + b"\0",
                      "zero": lambda: b"\0" * len(c)}[w]()
    elif op == "P.app":
        extra = {"": lambda: world.prng("junk%d" % j, j), "byte": lambda: bytes([j]), "crlf": lambda: b"\r\n", "nlnl": lambda: b"\n\n",
                 "eof": lambda: b"\x1a", "zeros16": lambda: bytes(16), "zeros512": lambda: bytes(-len(f.head() + f.mac + f.nonce + b"".join(pay)) % 512 or 512),
                 "blanks": lambda: b"   "}[e["w"]]()
        if pay:
            pay[-1] += extra
        else:
            f.pay = [extra]
    elif op == "P.none":
        f.pay = []
    elif op == "P.trunc" and 0 <= i < len(pay):
        f.pay = pay[:i] + ([pay[i][:j]] if j else [])
    elif op in ("H.rawflip", "H.rawdel", "H.rawins", "H.rawcut", "M.rawflip"):
        start = len(f.head())
        head = f.head() + f.mac + b"\n"
        pos = (start + 4 + i % 43 if op == "M.rawflip" else
               i % len(head) if op == "H.rawcut" else i % (start + 3))
        if op in ("H.rawflip", "M.rawflip"):
            head = flip(head[:pos + 1], pos * 8 + j) + head[pos + 1:]
        elif op == "H.rawdel":
            head = head[:pos] + head[pos + 1:]
        elif op == "H.rawins":
            head = head[:pos] + bytes([j]) + head[pos:]
        else:
            head = head[:pos]
            f.nonce, f.pay = b"", []
        f.rawhdr = head
    return f


def raw_mac(text):
    try:
        return refage.unb64(text)
    except ValueError:
        return bytes(32)


def flipped_mac(text, n):
    return b64flip(text, n).encode()


_made = {}


def name_of(k, via):
    """file 1 may hold something special"""
    return via["text"] if k == 1 and via["text"] else k


def which(sc, got):
    return world.which(got, range(1, len(sc["files"]) + 1), {1: name_of(1, sc["via"])}, {k: f["len"] for k, f in enumerate(sc["files"], 1)})


def produce(k, spec, via):
    """file k for spec = {rcpts, len}; returns bytes (with the code's Encryptor)"""
    from age.file import Encryptor

    if any(r[0] == "u" for r in spec["rcpts"]):
        # a file with stanzas of other programs comes from the reference writer
        count = [0]

        def rnd(n):
            count[0] += 1
            return world.prng("foreign-%d-%r-%d" % (k, spec, count[0]), n)
        key = rnd(16)
        return refage.make_file([unknown(FOREIGN[int(r[1:])], 1) if r[0] == "u" else world.ident(r).wrap(key, rnd, log_cost=10) for r in spec["rcpts"]],
                                key, rnd(16), world.plaintext(name_of(k, via), spec["len"]))
    out = world.Sink(via["out"])
    enc = Encryptor(world.collection(via["keys"], [world.public_key(r) for r in spec["rcpts"]]), out.stream)
    data = world.plaintext(name_of(k, via), spec["len"])
    cut = len(data) // 3
    enc.write(data[:cut])
    enc.write(data[cut:])
    enc.close()
    return out.get()


def file_key_of(data, rcpts):
    p = refage.Parts(data)
    for i, r in enumerate(rcpts):
        if r[0] == "u":
            continue
        try:
            fk = world.ident(r).unwrap(*p.fields(i))
        except Exception:
            fk = None
        if fk is not None:
            return fk
    return b"?" * 16


def decrypt(data, ids, read, via, held):
    from age.exceptions import NoIdentity
    from age.file import Decryptor

    got, dec = b"", None
    try:
        with world.limit(20):
            for x in ids:
                if x not in held:
                    # objects that come and go
                    held[x] = world.private_key(x, fresh=x[0] != "r" or len(data) % 8 == 0)
            dec = Decryptor(world.collection(via["ids"], [held[x] for x in ids]), world.source(via["inp"], data))
            if read == 0:
                got = dec.read()
            else:
                part = dec.read(read)
                while part:
                    got += part
                    part = dec.read(read)
            dec.close()
        return "ok", got
    except NoIdentity:
        r = "noid"
    except Exception:
        r = "fail"
    except world.CaseTimeout:
        r = "hang"
    except BaseException:
        r = "exit"
    # whatever was or still is handed out although decryption failed
    try:
        with world.limit(20):
            got += dec.read() if dec is not None else b""
    except BaseException:
        pass
    return ("leak" if got else r), b""


def run(sc):
    ev = dict(sc, same=0)
    pool = {}
    try:
        with world.limit(60):
            for k, spec in enumerate(sc["files"], 1):
                data = produce(k, spec, sc["via"])
                pool[k] = Sym(data, k)
                pool[k].data = data
                if any(e["op"] == "M.remac" and e["g"] == k for e in sc["edits"]):
                    pool[k].file_key = file_key_of(data, spec["rcpts"])
            f = Sym(pool[1].data, 1)
    except Exception as e:
        ev.update(r="unproduced", src=-1, n=0, err=repr(e)[:200])
        return [ev]
    except BaseException as e:
        ev.update(r="unproduced", src=-1, n=0, err=repr(e)[:200])
        return [ev]
    out, held = [], {}
    for i, t in enumerate(sc["before"]):
        r, got = decrypt(pool[t["f"]].data, t["ids"], 0, sc["via"], held)
        src, n = which(sc, got) if r == "ok" else (-1, 0)
        out.append(dict(sc, id="%s.%d" % (sc["id"], i), edits=[], ids=t["ids"], same=t["f"], r=r, src=src, n=n))
    for n, e in enumerate(sc["edits"]):
        f = edit(f, e, pool, n)
    data = f.bytes()
    if any(e["op"] == "M.enc" for e in sc["edits"]) and len(sc["edits"]) > 1:
        # the other edits may cancel out (what is left is another spelling of
        # the genuine MAC, which the code may take or refuse): then the
        # genuine file itself is read
        plain = Sym(pool[1].data, 1)
        for n, e in enumerate(sc["edits"]):
            if e["op"] != "M.enc":
                plain = edit(plain, e, pool, n)
        if any(pool[k].data == plain.bytes() for k in pool):
            data = plain.bytes()
    # edits may cancel out: then the file simply is the genuine one
    ev["same"] = next((k for k in pool if pool[k].data == data), 0)
    r, got = decrypt(data, sc["ids"], sc["read"], sc["via"], held)
    src, n = which(sc, got) if r == "ok" else (-1, 0)
    ev.update(r=r, src=src, n=n)
    return out + [ev]


def main():
    world.install_scrypt_stub()
    with open(sys.argv[1]) as f:
        scen = json.load(f)
    out = open(sys.argv[2], "w")
    import age.file  # noqa: F401  (an import failure is a failure of the driver)
    world.quiet()
    json.dump([e for s in scen for e in run(s)], out)
    out.close()


main()
