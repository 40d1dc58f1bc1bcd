from props.wire import run as run_


def run(c):
    run_(c, [("noTerminator", ["TextOK"])])
