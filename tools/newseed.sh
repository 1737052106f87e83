#!/bin/bash
# newseed.sh <id> <property> <qld 0/1> "<needs>" "<breaks>": takes the patch from the diff of /tmp/seedrepo and the demo from /tmp/demo.cpp
set -e
H=$(cd "$(dirname "$0")/.." && pwd); S=$H/seeded/$1; mkdir -p $S
git -C /tmp/seedrepo diff > $S/patch.diff
git -C /tmp/seedrepo checkout -q .
cp /tmp/demo.cpp $S/demo.cpp
( [ "$3" = 1 ] && echo -e '#!/bin/bash\nQLD=1' || echo '#!/bin/bash'; tail -n +2 $H/tools/demokit/demo_lib.sh ) > $S/demo.sh
[ "$3" = 1 ] && cp -r $H/tools/demokit/eigen-qld $S/
python3 - "$S" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
wc -l $S/patch.diff
