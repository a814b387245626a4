#!/bin/bash
# run.sh HARNESS|PROPERTY [tier] [flags]: development helper, verbose.
. /verif/env.sh
bash /verif/build.sh || exit 2
x=$1; t=${2:-quick}; shift; shift
if [[ $x =~ ^C[0-9]+$ ]]; then
 exec /verif/.build/engine check -prop $x -tier $t -replay /verif/.build/replay -v "$@"
fi
p=$(/verif/.build/replay -list | python3 -c "
import sys,json
for l in sys.stdin:
    h=json.loads(l)
    if h['Name']=='$x': print(h['Prop'])" | head -1)
exec /verif/.build/engine check -prop $p -only $x -tier $t -replay /verif/.build/replay -v "$@"
