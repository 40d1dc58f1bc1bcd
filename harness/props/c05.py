from props.wire import run as run_


def run(c):
    run_(c, [("noEmptyChunk", ["LayoutOK", "LastExactlyAtEnd"]), ("extraEmptyChunk", ["LayoutOK"]),
             ("lastIfShort", ["LayoutOK", "LastExactlyAtEnd"]), ("noTerminator", ["TextOK"])])
