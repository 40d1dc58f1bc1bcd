"""L06: AgeEffects."""

INV = ["OnlyOutputI", "SamePlaceI", "SilentI", "AskedI", "NothingI", "EachPermitted"]
WEAK = [("prefetch", ["AskedI"]), ("online", ["AskedI"]), ("quotePassword", ["SilentI"]), ("echo", ["SilentI"]), ("remember", ["OnlyOutputI", "SilentI"]),
        ("spool", ["OnlyOutputI", "SilentI"]), ("backup", ["OnlyOutputI"]), ("recreate", ["SamePlaceI"]), ("tellPlain", ["SilentI"]), ("clear", ["SilentI"]),
        ("unlink", ["SamePlaceI", "EachPermitted"]), ("rewriteKeys", ["OnlyOutputI", "SilentI", "EachPermitted"]), ("chmodKeys", ["OnlyOutputI"]), ("quoteKey", ["SilentI"]),
        ("debugKey", ["SilentI"]), ("pager", ["NothingI"]), ("consume", ["OnlyOutputI"]), ("register", ["OnlyOutputI", "SilentI"]),
        ("reportSecret", ["SilentI"])]


def model(weak=(), expect=None, names=1, workers=1):
    return dict(module="MCAgeEffects", consts=dict(Weak=frozenset(weak), MaxNames=names), inv=INV, props=[] if weak else ["Ends"],
                expect=expect and expect + ["EachPermitted"], workers=workers)


def run(c):
    c.mc_all([model(names=c.pick(3, 5), workers=4)] + [model([w], e) for w, e in WEAK])
    scen = c.generate("GenAgeCommand", spec="GenSpec", env={"PROP": "L06"}, consts=dict(Weak=frozenset()))
    for i, s in enumerate(scen):
        s["id"] = "L06-%d" % i
    cases = c.drive("effects_driver.py", scen)
    c.validate("TraceAgeEffects", cases, consts=dict(Weak=frozenset()))
    for x in cases[::max(1, len(cases) // 4)]:
        c.sample({k: v for k, v in x.items() if k not in ("aliases", "files", "urls")})
    c.cover["exit_zero"] = sum(1 for x in cases if x["rc"] == 0)
    c.cover["effects"] = sum(len(x["effects"]) for x in cases)
    c.cover["spellings_of_secrets_searched"] = sum(x["secrets"] for x in cases)
    c.assumptions = ["effects during a run are seen by the interpreter's audit events, effects left behind by comparing all files of a scratch home and working directory",
                     "a secret is recognised raw, in hexadecimal, base64, base85 and Python's notations, by windows of 24 bytes"]
