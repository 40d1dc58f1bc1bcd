from props.keys import model, run as run_


def run(c):
    run_(c, [model("text", alter=c.pick(1, 2), workers=4),
             model("code", code=c.pick(12, 58), mem=c.pick("2g", "8g"))] +
         [model("text", weak=[w], expect=["NeverOther"]) for w in
          ("noChecksum", "anyPrefix", "anyLength", "padIgnored")])
    c.assumptions = ["key strings that mix upper and lower case may be accepted or refused"]
