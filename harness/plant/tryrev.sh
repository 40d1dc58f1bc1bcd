# tryrev.sh PROP commit...: revert commit in scratch, run check
P=$1; shift
for c in "$@"; do
 wt=/tmp/seed/rev-$c-$P; rm -rf $wt; cp -a /repo $wt; 
 if ! git -C $wt -c user.name=x -c user.email=x@x revert --no-commit $c >/dev/null 2>&1; then echo "$c conflict"; git -C $wt revert --abort; rm -rf $wt; continue; fi
 vt=$wt-v; rsync -a --exclude .git --exclude seeded --exclude replay --exclude evidence /verif/ $vt/ 2>/dev/null || (mkdir $vt; cd /verif; tar cf - --exclude .git --exclude seeded --exclude replay . | tar xf - -C $vt)
 mkdir -p $vt/evidence $vt/replay
 (cd $vt; VERIF_REPO=$wt VERIF_SEED=1 timeout 600 python3 harness/check.py $P quick 2>&1 | cut -c1-200 | sed "s/^/$c $P: /")
 rm -rf $wt $vt
done
