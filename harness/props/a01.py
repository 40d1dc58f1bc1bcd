from props.armor import run as run_


def run(c):
    run_(c, "A01")
