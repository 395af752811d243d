#!/bin/sh
# tlc.sh MODULE CONFIG [extra args] : run TLC in a scratch metadir
d=$(mktemp -d)
java -XX:+UseParallelGC -Xss32m -Xmx${TLC_MEM:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -deadlock -metadir $d -workers ${TLC_WORKERS:-8} -config $2 $3 $4 $5 $6 $1
r=$?
rm -r "$d"
exit $r
