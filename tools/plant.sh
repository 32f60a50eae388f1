#!/bin/bash
# plant.sh ID [CHECK]: /repo holds uncommitted edits that plant a bug; saves them as
# /verif/seeded/ID/patch.diff, checks build, tests, demo and the property's check, and undoes them.
# With no edits, an existing patch is applied first.
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
if git -C /repo diff --quiet; then git -C /repo apply $d/patch.diff || exit 2; else git -C /repo diff > $d/patch.diff; fi
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/pb.log; git -C /repo checkout -- .; exit 1; }
echo "tests: $(bash /verif/tools/rt.sh)"
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/pb.demo 2>&1); echo "demo with patch: rc $? ($(tail -c 300 /tmp/pb.demo | tr '\n' ' '))"
(cd /verif && python3 run.py $prop > /tmp/pb.check 2>&1); echo "check $prop: rc $? $(grep -a VIOLATION /tmp/pb.check | head -3)"; grep -a '^FAILED' /tmp/pb.check | cut -c1-300; tail -n 1 /tmp/pb.check | cut -c1-300
git -C /repo checkout -- .
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/pb.demo 2>&1); echo "demo clean: rc $? ($(tail -c 200 /tmp/pb.demo | tr '\n' ' '))"
