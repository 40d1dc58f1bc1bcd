"""C05: encrypt with the code, take the file apart with the reference reader.
C06: write files with the reference writer, decrypt with the code."""
import io
import json
import sys

import refage
import world


def text(data):
    """bytes -> printable text, one-to-one on ASCII"""
    return "".join(chr(b) if b == 10 or 32 <= b < 127 else "<%02x>" % b for b in data)


def wrote(sc):
    from age.file import Encryptor

    ev = dict(sc, dir="wrote", stanzas=[], header="", mac="", opens=[], onekey=False, keylen=0,
              macok=False, chunks=[], plain=False, modulus=[0] * len(sc["rcpts"]))
    try:
        with world.limit(60):
            out = io.BytesIO()
            enc = Encryptor([world.public_key(x) for x in sc["rcpts"]], out)
            data, k = world.plaintext(sc["text"], sc["len"]), sc["split"]
            step = {0: len(data) or 1, 1: max(1, len(data) // 7), 2: 65536, 3: 50021}[k]
            for i in range(0, len(data), step):
                enc.write(data[i:i + step])
            enc.close()
            raw = out.getvalue()
        ev["r"] = "ok"
    except Exception as e:
        ev.update(r="error", err=repr(e)[:200])
        return ev
    except world.CaseTimeout:
        ev["r"] = "hang"
        return ev
    try:
        p = refage.Parts(raw)
        ev["header"] = text(raw[:p.header_len])
        ev["mac"] = text(p.mac[4:])
        keys = []
        for i, (head, body) in enumerate(p.stanzas):
            typ, *args = text(head).split(" ")[1:]
            btext = text(b"".join(body))
            ev["stanzas"].append(dict(type=typ, args=args, body=btext))
            fk = None
            if i < len(sc["rcpts"]):
                ident = world.ident(sc["rcpts"][i])
                if ident.kind == "r":
                    ev["modulus"][i] = (ident.pub.key_size + 7) // 8
                try:
                    fk = ident.unwrap(typ, args, refage.unb64(btext))
                except Exception:
                    fk = None
            ev["opens"].append(fk is not None)
            if fk is not None:
                keys.append(fk)
        ev["onekey"] = len(set(keys)) == 1
        if keys:
            fk = keys[0]
            ev["keylen"] = len(fk)
            covered = raw[:p.header_len - len(p.mac) - 1] + b"---"
            ev["macok"] = refage.b64(refage.header_mac(fk, covered)) == ev["mac"]
            nonce, body = p.payload[:16], p.payload[16:]
            key = refage.payload_key(fk, nonce)
            plain = b""
            for i, o in enumerate(range(0, len(body), 65552)):
                c = body[o:o + 65552]
                for ctr, last in [(x, y) for x in [i, i + 1, i - 1, 0, i % 256] if x >= 0
                                  for y in (False, True)]:
                    got = refage.unseal(key, c, refage.chunk_nonce(ctr, last))
                    if got is not None:
                        ev["chunks"].append(dict(ctr=ctr, last=last, len=len(got)))
                        plain += got
                        break
                else:
                    ev["chunks"].append(dict(ctr=-1, last=False, len=len(c)))
            ev["plain"] = plain == data
    except Exception as e:
        ev["err"] = repr(e)[:200]
    return ev


def wrap(ident, edge, fk, rnd, cost):
    """a stanza; edge: one that has a certain byte in a certain place"""
    while True:
        typ, args, body = ident.wrap(fk, rnd, log_cost=cost)
        own = body if ident.kind == "r" else refage.unb64(args[1] if ident.kind == "e" else args[0])
        if edge == 0 or {1: own[0] == 0, 2: own[-1] == 0, 3: body[0] == 0, 4: body[-1] == 0, 5: own[0] == 10, 6: own[-1] == 10}[edge]:
            return typ, args, body


def read(sc):
    from age.exceptions import NoIdentity
    from age.file import Decryptor

    rnd = lambda n: world.prng("rnd %s %d" % (sc["id"], rnd.__dict__.setdefault("k", 0) + bump(rnd)), n)
    fk = rnd(16)
    st = []
    for s in sc["stanzas"]:
        if s["kind"] == "known":
            st.append(wrap(world.ident(s["type"]), s["n"], fk, rnd, 1 + len(sc["id"]) % 18))
        else:
            st.append((s["type"], s["args"], rnd(s["n"])))
    data = world.plaintext(sc["text"], sc["len"])
    raw = refage.make_file(st, fk, rnd(16), data)
    p = refage.Parts(raw)
    ev = dict(sc, dir="read", header=text(raw[:p.header_len]), mac=text(p.mac[4:]),
              fields=[dict(type=t, args=a, body=refage.b64(b)) for t, a, b in st], src=-1, n=0)
    try:
        with world.limit(60):
            dec = Decryptor([world.private_key(x) for x in sc["ids"]], io.BytesIO(raw))
            got = dec.read()
        ev["r"] = "ok"
        ev["src"], ev["n"] = world.which(got, [1], {1: sc["text"]}, {1: sc["len"]})
    except NoIdentity:
        ev["r"] = "noid"
    except Exception as e:
        ev.update(r="fail", err=repr(e)[:200])
    except world.CaseTimeout:
        ev["r"] = "hang"
    return ev


def bump(f):
    f.k = f.__dict__.get("k", 0) + 1
    return f.k


def main():
    world.install_scrypt_stub()
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import age.file  # noqa: F401
    world.quiet()
    json.dump([wrote(c) if "rcpts" in c else read(c) for c in cases], out)
    out.close()


main()
