#!/bin/bash
# newbug.sh ID PROP "needs" "breaks" < python script editing files in cwd (a copy of /repo); demo.rs must be at /tmp/plant/ID.rs
set -e
W=/tmp/plant/w; rm -rf /tmp/plant/w; git clone -q /repo $W; cd $W
python3 -
git diff --stat
mkdir -p /verif/seeded/$1; git diff > /verif/seeded/$1/patch.diff
cp /tmp/plant/$1.rs /verif/seeded/$1/demo.rs
python3 -c "import json,sys; json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)" "$1" "$2" "$3" "$4"
cp /verif/tools/demo_template.sh /verif/seeded/$1/demo.sh; chmod +x /verif/seeded/$1/demo.sh; rm -rf /tmp/plant/w
