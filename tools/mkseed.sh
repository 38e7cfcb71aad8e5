#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" [main.go]: records the change now in /tmp/sb as a planted bug
id=$1; p=$2
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sb diff > $d/patch.diff
[ -f $d/demo.sh ] || cp /verif/tools/seedlib/demo.sh $d/demo.sh
chmod +x $d/demo.sh
[ -n "$5" ] && cp $5 $d/main.go
python3 - "$d" "$p" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
