from props.keys import model, run as run_


def run(c):
    run_(c, [model("file", lines=c.pick(4, 6), workers=4)] +
         [model("file", weak=[w], expect=["FileOK"]) for w in
          ("lastKeyOnly", "newestFirst", "skipDamaged", "stopAtDamaged")])
    c.assumptions = ["lines end with LF, CR LF or CR; white space is space and tab",
                     "a directory in place of the file may be an error or yield no keys"]
