"""K05: SSH keys read, identified and compared by the code."""
import hashlib
import io
import json
import os
import sys

import refage
import world

P = refage.P25519
D = -121665 * pow(121666, P - 2, P) % P
ORDER = 2 ** 252 + 27742317777372353535851937790883648493


def add(a, b):
    x1, y1, x2, y2 = *a, *b
    k = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + k, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - k, P - 2, P) % P)


def good_point(raw):
    """a point of prime order, written in the one proper way"""
    v = int.from_bytes(raw, "little")
    sign, y = v >> 255, v & (1 << 255) - 1
    if y >= P:
        return False
    xx = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(xx, (P + 3) // 8, P)
    if x * x % P != xx:
        x = x * pow(2, (P - 1) // 4, P) % P
    if x * x % P != xx or (x == 0 and sign):
        return False
    if x & 1 != sign:
        x = P - x
    q, acc, n = (x, y), (0, 1), ORDER
    if q == (0, 1):
        return False
    while n:
        if n & 1:
            acc = add(acc, q)
        q, n = add(q, q), n >> 1
    return acc == (0, 1)


def codes(t):
    return list(t.encode("utf-8") if isinstance(t, str) else t)


def kind(key):
    return {"RSAPublicKey": "rsa", "RSAPrivateKey": "rsa", "Ed25519PublicKey": "ed", "Ed25519PrivateKey": "ed"}.get(type(key).__name__, "other")


def read(line, want, how, home):
    from age.keyloader import resolve_public_key
    from age.keys.ed25519 import Ed25519PublicKey
    from age.keys.rsa import RSAPublicKey
    if how == "direct":
        return {"rsa": RSAPublicKey, "ed": Ed25519PublicKey}[want].from_ssh_public_key(line)
    if how == "file":
        path = os.path.join(home, "keys")
        with open(path, "wb") as f:
            f.write(line)
        got = resolve_public_key(path)
    else:
        got = resolve_public_key(line.decode("utf-8"))
    if len(got) != 1:
        raise ValueError("%d keys" % len(got))
    return got[0]


def line_case(sc):
    line = bytes(sc["line"])
    how = sc["how"]
    try:
        text = line.decode("utf-8")
    except UnicodeDecodeError:
        how = "direct"
    else:
        # other notions of lines and blanks than those of a key
        if how == "file" and (any(x in text for x in "\n\r") or not text.strip()):
            how = "resolve"
        if text != text.strip(" \t\n\r") or "\0" in text:
            how = "direct"
    ev = dict(sc, how=how, r="ok", type="", blob=[], md5=[], sha=[], fpm=[], fps=[], flm=[], fls=[], half="na", point=False,
              unknown=False, remark=codes(sc["comment"]))
    with world.limit(20):
        key = read(line, sc["want"], how, os.environ["HOME"])
        ev["type"] = kind(key)
        blob = key.binary_encoding()
        ev["blob"] = list(blob)
        # the digests are functions of the key that was loaded
        ev["md5"], ev["sha"] = list(hashlib.md5(blob).digest()), list(hashlib.sha256(blob).digest())
        ev["fpm"] = codes(key.fingerprint() if sc["comment"] else key.fingerprint("MD5"))
        ev["fps"] = codes(key.fingerprint("SHA256"))
        if sc["comment"] == "age":
            ev["flm"], ev["fls"] = codes(key.fingerprint_line()), codes(key.fingerprint_line("SHA256"))
        else:
            ev["flm"] = codes(key.fingerprint_line(comment=sc["comment"]))
            ev["fls"] = codes(key.fingerprint_line(algorithm="SHA256", comment=sc["comment"]))
        try:
            key.fingerprint("SHA1")
        except ValueError:
            ev["unknown"] = True
        if ev["type"] == "ed":
            raw = blob[-32:]
            ev["point"] = good_point(raw)
            try:
                got = bytes(key.to_age_public_key().public_bytes())
                ev["half"] = "same" if not ev["point"] or got == refage.ed_pub_to_x(raw) else "other"
            except Exception:
                ev["half"] = "none"
    return ev


def pair_case(sc):
    ev = dict(sc, r="ok", eq=False, ne=False, hash=False, stranger=False)
    with world.limit(20):
        a, b = (read(bytes(x), "rsa" if bytes(x).startswith(b"ssh-rsa") else "ed", "direct", "") for x in (sc["a"], sc["b"]))
        ev["eq"], ev["ne"] = bool(a == b), bool(a != b)
        ev["hash"] = hash(a) == hash(b)
        ev["stranger"] = any(a == x or x == a for x in (None, "x", a.fingerprint(), a.binary_encoding(), 1, object()))
        if (b in {a}) != ev["eq"] or (b in [a]) != ev["eq"]:
            ev["eq"] = not ev["eq"]
    return ev


# ---------------------------------------------------------------------------
def secret(name):
    from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed448, ed25519, x25519
    if name[0] == "r":
        return world.rsa_private(int(name[1:]))[1]
    if name == "ec1":
        return ec.generate_private_key(ec.SECP256R1())
    if name == "ec384":
        return ec.generate_private_key(ec.SECP384R1())
    if name == "dsa1":
        return dsa.generate_private_key(1024)
    if name == "x25519":
        return x25519.X25519PrivateKey.generate()
    if name == "ed448":
        return ed448.Ed448PrivateKey.generate()
    return ed25519.Ed25519PrivateKey.from_private_bytes(world.ident(name).secret)


def pem_text(sc):
    from cryptography.hazmat.primitives import serialization as s
    k = secret(sc["key"])
    f, _, enc = sc["fmt"].partition("-")
    fmt = {"pkcs1": s.PrivateFormat.TraditionalOpenSSL, "pkcs8": s.PrivateFormat.PKCS8, "openssh": s.PrivateFormat.OpenSSH}[f]
    e = s.BestAvailableEncryption(b"open sesame") if enc else s.NoEncryption()
    if enc and f == "openssh":
        e = s.PrivateFormat.OpenSSH.encryption_builder().kdf_rounds(1).build(b"open sesame")
    t = k.private_bytes(s.Encoding.PEM, fmt, e)
    if sc["cut"]:
        t = t[:len(t) * sc["cut"] // 100]
    d = sc["dress"]
    if d == "crlf":
        t = t.replace(b"\n", b"\r\n")
    elif d == "lead":
        t = b"a key\n" + t
    elif d == "trail":
        t += b"and more\n"
    elif d == "nofinal":
        t = t.rstrip(b"\n")
    elif d == "blank":
        t = b"\n\n" + t + b"\n\n"
    elif d == "indent":
        t = b"".join(b"  " + x + b"\n" for x in t.splitlines())
    elif d == "label":
        t = t.replace(b"PRIVATE KEY", b"PRIVATE KEYS")
    elif d == "public":
        t = k.public_key().public_bytes(s.Encoding.PEM, s.PublicFormat.SubjectPublicKeyInfo)
    return t


def works(key, ident):
    """does it open a file made for it?"""
    from age.file import Decryptor
    fk, nonce = b"k" * 16, b"n" * 16
    try:
        return "yes" if Decryptor([key], io.BytesIO(refage.make_file([ident.wrap(fk, os.urandom)], fk, nonce, b"hello"))).read() == b"hello" else "no"
    except Exception as e:
        return type(e).__name__


def half_of(key, ident):
    got = bytes(key.to_age_private_key().private_bytes())
    pub = bytes(key.public_key().to_age_public_key().public_bytes())
    want = refage.ed_pub_to_x(ident.pub)
    return "same" if refage.xbase(got) == want == pub else "other"


def pem_case(sc):
    from age.keyloader import load_ssh_private_key
    from age.keys.ed25519 import Ed25519PrivateKey
    from age.keys.rsa import RSAPrivateKey
    ev = dict(sc, r="ok", made=True, type="", same=False, works="", half="na")
    try:
        t = pem_text(sc)
    except Exception:
        ev["made"] = False
        return ev
    given = {"none": None, "right": b"open sesame", "wrong": b"open barley", "empty": b"", "trail": b"open sesame ", "lead": b" open sesame",
             "newline": b"open sesame\n", "case": b"Open Sesame", "prefix": b"open sesam", "longer": b"open sesamee", "twice": b"open sesame" * 2,
             "first": b"open", "nul": b"open sesame\0"}[sc["given"]]
    with world.limit(20):
        if sc["cls"] == "load":
            path = os.path.join(os.environ["HOME"], "id")
            with open(path, "wb") as f:
                f.write(t)
            key = load_ssh_private_key(path, given) if given is not None else load_ssh_private_key(path)
        else:
            cls = {"rsa": RSAPrivateKey, "ed": Ed25519PrivateKey}[sc["cls"]]
            key = cls.from_pem(t, given) if given is not None else cls.from_pem(t)
        if key is None:
            ev["r"] = "none"
            return ev
        ev["type"] = kind(key)
        blob = key.public_key().binary_encoding()
        if sc["key"][0] == "r":
            nums = world.rsa_private(int(sc["key"][1:]))[1].public_key().public_numbers()
            want = refage.ssh_string(b"ssh-rsa") + refage.mpint(nums.e) + refage.mpint(nums.n)
        else:
            want = refage.ssh_string(b"ssh-ed25519") + refage.ssh_string(world.ident(sc["key"]).pub)
        ev["same"] = blob == want
        ev["works"] = works(key, world.ident(sc["key"]))
        if ev["type"] == "ed":
            ev["half"] = half_of(key, world.ident(sc["key"]))
    return ev


def made_case(sc):
    from age.file import Decryptor, Encryptor
    from age.keys.ed25519 import Ed25519PrivateKey
    from age.keys.rsa import RSAPrivateKey
    ev = dict(sc, r="ok", blobs=[], sizes=[], works="yes")
    with world.limit(200):
        for _ in range(sc["n"]):
            key = Ed25519PrivateKey.generate() if sc["cls"] == "ed" else RSAPrivateKey.generate(sc["size"])
            ev["blobs"].append(key.public_key().binary_encoding().hex())
            ev["sizes"].append(int(key.public_key().fingerprint_line().split()[0]))
            s = io.BytesIO()
            s.close, s2 = lambda: None, None
            with Encryptor([key.public_key()], s) as e:
                e.write(b"to myself")
            s2 = io.BytesIO(s.getvalue())
            if Decryptor([key], s2).read() != b"to myself":
                ev["works"] = "no"
    return ev


def case(sc):
    try:
        return {"line": line_case, "pair": pair_case, "pem": pem_case, "made": made_case}[sc["k"]](sc)
    except world.CaseTimeout:
        r = "hang"
    except Exception as e:
        r, err = "error", repr(e)[:160]
    base = dict(sc, r=r, err=err if r == "error" else "")
    for k, v in dict(type="", blob=[], made=True, blobs=[], sizes=[], works="", eq=False, ne=False, hash=False, stranger=False).items():
        base.setdefault(k, v)
    return base


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import age.keyloader  # noqa: F401
    world.quiet()
    json.dump([case(c) for c in cases], out)
    out.close()


main()
