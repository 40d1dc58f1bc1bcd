import sys; sys.path.insert(0,'/verif/harness'); sys.dont_write_bytecode=True
import importlib, lib
def run(prop):
    m=importlib.import_module("props."+prop.lower())
    def r(c):
        orig=c.generate
        class Stop(Exception): pass
        def g(*a,**k): raise SystemExit(str([(x['constants'].get('Weak'),x['states'],x['result']) for x in c.mc_runs]))
        c.generate=g
        m.run(c)
        g()
    lib.main(prop, r)
run(sys.argv[1])
