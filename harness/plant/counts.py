import subprocess,sys,os,re
def counts(d):
    f=None; rem=[]; 
    for l in open(d+"/patch.diff"):
        if l.startswith("--- a/"): f=l[6:].strip(); orig=set(subprocess.run(["git","-C","/repo","show","dfc30c0:"+f],capture_output=True,text=True).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---"): rem.append(l[1:].rstrip("\n") in orig)
    return not rem or any(rem)
for x in sys.argv[1:]: print(x, counts(os.path.join(os.environ.get("SEEDS","/tmp/seed/stage"),x)))
