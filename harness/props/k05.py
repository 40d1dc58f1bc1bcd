"""K05: AgeSshPublic."""
import random

MDEFS = dict(RsaName="MRsa", EdName="MEd")
TDEFS = dict(RsaName="NRsa", EdName="NEd")
INV = ["Exact", "OneKey", "RoundTrip", "Equality", "Bijective", "FingerprintsDiffer"]


def model(weak=(), expect=None, edits=1, workers=1, mem="2g", values=frozenset({0, 1, 2, 3, 127, 128, 255})):
    return dict(module="MCAgeSshPublic", defs=MDEFS, inv=INV, expect=expect, workers=workers, mem=mem,
                consts=dict(Weak=frozenset(weak), MaxEdits=edits, Values=values,
                            Chars=frozenset({32, 65, 66, 69, 82, 61, 42, 47, 10, 9}), EdLen=2))


def run(c):
    c.mc_all([model(edits=c.pick(1, 2), workers=4, mem=c.pick("2g", "6g"))] +
             [model([w], e) for w, e in [
                 ("noType", ["Exact", "OneKey"]), ("noTrailing", ["Exact"]), ("noSize", ["Exact"]), ("padOk", ["Exact"]), ("shortRead", ["Exact"]),
                 ("lenientB64", ["Exact"]), ("noLineType", ["Exact", "OneKey"]), ("modulusOnly", ["Equality"]), ("anyType", ["Equality"])]])
    scen = c.generate("GenAgeSshPublic", spec="GenSpec", consts=dict(Weak=frozenset(), EdLen=32), defs=TDEFS)
    for i, s in enumerate(scen):
        s["id"] = "K05-%d" % i
    random.Random(c.seed).shuffle(scen)
    cases = c.drive("sshpub_driver.py", scen)
    c.validate("TraceAgeSshPublic", cases, consts=dict(Weak=frozenset(), EdLen=32), defs=TDEFS, mem="3g")
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample({k: v for k, v in x.items() if k not in ("line", "blob", "a", "b", "blobs")})
    c.cover["accepted"] = sum(1 for x in cases if x["r"] == "ok")
    c.cover["refused"] = sum(1 for x in cases if x["r"] in ("error", "none"))
    c.assumptions = ["MD5 and SHA-256 are functions of the encoding, computed by Python",
                     "Base64 with characters that do not belong there, and numbers written with superfluous zeros or an even modulus, may be refused or read",
                     "which 32 bytes are a proper Ed25519 point is decided by arithmetic of the driver's own"]
