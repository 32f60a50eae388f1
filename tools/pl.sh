# source; pl ID PROP FILE OLD NEW NEEDS BREAKS < demo.go : replace OLD by NEW (once) in /repo/FILE and plant that.
. /verif/tools/mk.sh
pl () {
  (cd /verif/seeded && mk "$1" "$2" "$6" "$7")
  python3 - "$3" "$4" "$5" <<'EOF' || return 1
import sys
p='/repo/'+sys.argv[1]; s=open(p).read(); o=sys.argv[2]; n=sys.argv[3]
if s.count(o)!=1: print('OLD occurs',s.count(o),'times'); sys.exit(1)
open(p,'w').write(s.replace(o,n))
EOF
  bash /verif/tools/plant.sh "$1" $PLCHECK
}
