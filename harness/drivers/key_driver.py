"""K01, K02: key strings and identity files read and written by the code."""
import json
import os
import shutil
import sys

import world

NLS = {"lf": "\n", "crlf": "\r\n", "cr": "\r"}


SEPS = dict(vt="\x0b", ff="\x0c", fs="\x1c", gs="\x1d", rs="\x1e", us="\x1f", nel="\x85", ls="\u2028", ps="\u2029", nul="\0",
            sub="\x1a", bom="\ufeff", nbsp="\xa0", ideographic="\u3000", zwsp="\u200b",
            rawff="\udcff", rawe9="\udce9", rawc3="\udcc3", raw80="\udc80")

FIXED = {"kelvin": "\u212a", "longs": "\u017f", "dotless": "\u0131", "dottedi": "\u0130", "zwsp": "\u200b", "zwj": "\u200d", "nbsp": "\u00a0",
         "bom": "\ufeff", "softhyphen": "\u00ad", "combining": "\u0301", "surrogate": "\udcff", "nul": "\0", "rtl": "\u202e"}
CYRILLIC = dict(zip("aceopxysikmhtbAСEOPXYSIKMHTB", "асеорхуѕікмнтьАСЕОРХУЅІКМНТВ"))
GREEK = dict(zip("aeiokvnupxABEHIKMNOPTXYZ", "αειοκνηυρχΑΒΕΗΙΚΜΝΟΡΤΧΥΖ"))


def foreign(look, was):
    """a character that is not ASCII, in the place of was"""
    if look in FIXED:
        return FIXED[look]
    c = was
    if look == "fullwidth":
        c = chr(ord(was) + 0xfee0)
    elif look == "cyrillic":
        c = CYRILLIC.get(was, "ж")
    elif look == "greek":
        c = GREEK.get(was, "λ")
    elif look == "digit":
        c = chr(0x0660 + int(was)) if was.isdigit() else "²"
    elif look == "superscript":
        c = {"1": "¹", "2": "²", "3": "³"}.get(was, "ᵃ")
    elif look == "math":
        low = was.lower()
        c = chr(0x1d41a + ord(low) - 97) if low.isalpha() else chr(0x1d7ce + int(was)) if was.isdigit() else "\u2212"
    elif look == "enclosed":
        c = chr(0x24d0 + ord(was.lower()) - 97) if was.isalpha() else "①"
    return c if ord(c[0]) > 127 else "\u2212"


def text_case(sc):
    if sc.get("look"):
        # the specification sees a character of no alphabet
        real = dict(sc, text=sc["text"].replace("~", foreign(sc["look"], sc["was"])), look="")
        return dict(sc, **{k: v for k, v in text_case(real).items() if k in ("r", "bytes", "same", "err")})
    from age.keys.agekey import AgePrivateKey, AgePublicKey
    from age.primitives.bech32 import bech32_decode, bech32_encode

    ev = dict(sc, r="ok", same=True)
    kind = sc["kind"]
    try:
        with world.limit(30):
            if kind == "pub":
                ev["bytes"] = list(AgePublicKey.from_public_string(sc["text"]).public_bytes())
            elif kind == "priv":
                ev["bytes"] = list(AgePrivateKey.from_private_string(sc["text"]).private_bytes())
            elif kind == "writepub":
                k = AgePublicKey.from_public_bytes(bytes(sc["bytes"]))
                ev["text"] = k.public_string()
                back = AgePublicKey.from_public_string(ev["text"])
                ev["same"] = back == k and hash(back) == hash(k)
            elif kind == "writepriv":
                k = AgePrivateKey.from_private_bytes(bytes(sc["bytes"]))
                ev["text"] = k.private_string()
                back = AgePrivateKey.from_private_string(ev["text"])
                ev["same"] = back == k and back.public_key() == k.public_key()
            elif kind == "bech":
                ev["text"] = bech32_encode(sc["hrp"], bytes(sc["bytes"]))
            else:
                hrp, got = bech32_decode(sc["text"])
                ev["hrp"], ev["bytes"] = hrp, list(got)
    except Exception as e:
        ev.update(r="error", err=repr(e)[:200])
    except world.CaseTimeout:
        ev["r"] = "hang"
    return ev


def file_case(sc):
    from age.keyloader import load_keys_txt

    ev = dict(sc, r="ok", keys=[])
    # the same names again and again: what was read before must not matter
    again = sum(sc["id"].encode()) % 2
    home = os.path.join(os.environ["HOME"], "again" if again else sc["id"])
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(os.path.join(home, ".config", "age"))
    old = os.environ["HOME"]
    os.environ["HOME"] = home
    how = sc["how"]
    path = os.path.join(home, ".config", "age", "keys.txt") if how in ("home", "missinghome") else (
        os.path.join(home, "my keys"))
    nl = NLS[sc["nl"]]
    ls = [x.replace("~", SEPS[sc["sep"]]) for x in sc["lines"]]
    if how == "dir":
        os.mkdir(path)
    elif not how.startswith("missing"):
        with open(path, "wb") as f:
            f.write((nl.join(ls) + (nl if ls and sc["term"] else "")).encode("utf-8", "surrogateescape"))
        if again:
            os.utime(path, (1600000000, 1600000000))
    try:
        with world.limit(30):
            if how in ("home", "missinghome"):
                keys = load_keys_txt()
            elif how in ("tilde", "missingtilde"):
                keys = load_keys_txt("~/my keys")
            else:
                keys = load_keys_txt(path)
            ev["keys"] = [list(k.private_bytes()) for k in keys]
    except Exception as e:
        ev.update(r="error", err=repr(e)[:200])
    except world.CaseTimeout:
        ev["r"] = "hang"
    os.environ["HOME"] = old
    return ev


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import age.keyloader  # noqa: F401
    world.quiet()
    json.dump([file_case(c) if c["kind"] == "file" else text_case(c) for c in cases], out)
    out.close()


main()
