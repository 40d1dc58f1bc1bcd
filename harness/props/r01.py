from props.resolve import run as run_


def run(c):
    run_(c, [(w, ["Exact"]) for w in ("lastLine", "firstLine", "emptyValue", "skipBad", "ignoreFailure")])
