"""K03: AgeSshKeys."""
import random

MDEFS = dict(Magic="MMagic", RsaName="MRsa", EdName="MEd", DsaName="MDsa", EcPrefix="MEcPrefix", EcMiddle="MEcMiddle", Curves="MCurves",
             KnownCurves="MKnown", NoneName="MNone", BcryptName="MBcrypt", Ciphers="MCiphers")
TDEFS = {k: "N" + v[1:] for k, v in MDEFS.items()}
INV = ["NeverOther", "RoundTrip", "Framed", "MagicChecked", "CountChecked", "CheckIntsChecked", "BodyChecked", "PaddingChecked",
       "LengthsChecked"]


def model(weak=(), expect=None, edits=1, values=frozenset({0, 1, 2, 255}), few=False, workers=1, mem="2g"):
    return dict(module="MCAgeSshKeys", defs=MDEFS, inv=INV, expect=expect, workers=workers, mem=mem,
                consts=dict(Weak=frozenset(weak), MaxEdits=edits, Values=values, Few=few, EdLen=2))


def run(c):
    jobs = [model(workers=4, values=c.pick(frozenset({0, 1, 2, 255}), frozenset(range(256))), mem=c.pick("2g", "8g"))]
    jobs += [model(weak=[w], expect=[e], few=True) for w, e in (
        ("noMagic", "MagicChecked"), ("noCount", "CountChecked"), ("noLength", "Framed"), ("noCheck", "CheckIntsChecked"),
        ("noPadding", "PaddingChecked"), ("noPubMatch", "BodyChecked"), ("noGood", "NeverOther"), ("shortRead", "LengthsChecked"))]
    c.mc_all(jobs)
    scen = c.generate("GenAgeSshKeys", spec="GenSpec")
    for i, s in enumerate(scen):
        s["id"] = "K03-%d" % i
    random.Random(c.seed).shuffle(scen)
    cases = c.drive("ssh_driver.py", scen)
    c.validate("TraceAgeSshKeys", cases, consts=dict(Weak=frozenset(), EdLen=32), defs=TDEFS, mem="3g")
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample({k: v for k, v in x.items() if k not in ("dec", "orig", "got")})
    c.cover["accepted"] = sum(1 for x in cases if x["r"] == "ok")
    c.cover["refused"] = sum(1 for x in cases if x["r"] in ("error", "none"))
    c.assumptions = ["bcrypt and AES are ideal: a wrong passphrase makes equal check values with probability 2^-32",
                     "the outer public key, the comment and (for unencrypted keys) the KDF name and options may hold anything",
                     "padding longer or shorter than a writer makes, if it counts up from 1, may be accepted or refused",
                     "KDF rounds above 64 are not tried"]
