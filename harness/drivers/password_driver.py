"""C09: password stanzas in the real reader and writer, with the work done recorded."""
import io
import json
import resource
import sys

import refage
import world

STUB = True


def texts(t):
    return t.encode("ascii").decode("unicode_escape") if "\\" in t else t


def log2(n):
    if not isinstance(n, int) or n <= 0:
        return -1
    k = n.bit_length() - 1
    return min(k, 900000) if n == 1 << k else -2


def work():
    w = [log2(n) if (r, p) == (8, 1) else -3 for n, r, p in world.SCRYPT_CALLS]
    world.SCRYPT_CALLS.clear()
    return w


def kdf_work(password, salt, made):
    if made < 0:
        made = 1
    return refage._scrypt(password, salt, made)


def case(sc):
    from age.exceptions import NoIdentity
    from age.file import Decryptor, Encryptor
    from age.keys.password import PasswordKey

    world.set_stub(not sc["real"])
    ev = dict(sc, made="", wwork=[], work=[], r="", plain=False, honest=True, idle=True)
    data = world.plaintext(1, 100)
    world.SCRYPT_CALLS.clear()
    if sc["kind"] == "own":
        ev["st"] = []
        try:
            with world.limit(60):
                out = io.BytesIO()
                with Encryptor([PasswordKey(bytes(p)) for p in sc["pws"]], out) as f:
                    f.write(data)
            raw = out.getvalue()
            ev["made"] = "ok"
            parts = refage.Parts(raw)
            ev["st"] = [dict(pw=p, wf=parts.fields(i)[1][1]) for i, p in enumerate(sc["pws"])]
        except (Exception, world.CaseTimeout) as e:
            ev.update(made="error", err=repr(e)[:200])
            return ev
        ev["wwork"] = work()
    else:
        fk = world.prng("fk" + sc["id"], 16)
        st = []
        for i, s in enumerate(sc["st"]):
            salt = world.prng("salt %d %s" % (i, sc["id"]), 16)
            k = kdf_work(bytes(s["pw"]), salt, s["made"])
            st.append(("scrypt", [refage.b64(salt), texts(s["wf"])], refage.seal(k, fk)))
            if str(s["made"]) != s["wf"]:
                ev["honest"] = False
        text = b"".join(render(*s) for s in st)
        text = refage.INTRO + b"\n" + text + b"---"
        raw = text + b" " + refage.b64(refage.header_mac(fk, text)).encode() + b"\n"
        raw += refage.seal_payload(fk, world.prng("n" + sc["id"], 16), data)
        world.SCRYPT_CALLS.clear()
    before = effort()
    try:
        with world.limit(60):
            got = Decryptor([PasswordKey(bytes(p)) for p in sc["ids"]], io.BytesIO(raw)).read()
        ev.update(r="ok", plain=got == data)
    except NoIdentity:
        ev["r"] = "noid"
    except Exception as e:
        ev.update(r="fail", err=repr(e)[:200])
    except world.CaseTimeout:
        ev["r"] = "hang"
    ev["work"] = work()
    after = effort()
    # deriving keys is cheap unless it is real
    ev["idle"] = sc["real"] or (after[0] - before[0] < 10 and after[1] - before[1] < 150 << 10)
    return ev


def effort():
    """processor seconds, and the most memory there ever was"""
    r = resource.getrusage(resource.RUSAGE_SELF)
    return r.ru_utime + r.ru_stime, r.ru_maxrss


def render(typ, args, body):
    return ("-> " + " ".join([typ, *args]) + "\n" +
            "".join(x + "\n" for x in refage.wrap64(refage.b64(body)))).encode("utf-8")


def main():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    world.install_scrypt_stub()
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import age.file  # noqa: F401
    world.quiet()
    done = {c["id"]: case(c) for c in sorted(cases, key=lambda c: c["real"])}
    json.dump([done[c["id"]] for c in cases], out)
    out.close()


main()
