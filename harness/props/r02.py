from props.resolve import run as run_


def run(c):
    run_(c, [("aliasInAlias", ["Exact", "NeverMore", "Bounded", "temporal"]), ("aliasInList", ["Exact", "NeverMore", "Bounded"])] +
         [(w, ["NeverMore", "Exact"]) for w in ("fileInList", "urlInList", "githubInList")])
