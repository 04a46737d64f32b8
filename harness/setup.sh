#!/bin/bash
# Parses every specification once; nothing else has to be built.
cd "$(dirname "$0")/../specs" || exit 2
mkdir -p ../evidence
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
rc=0
for f in *.tla; do
  java -cp $CP tla2sany.SANY "$f" > /tmp/vf_sany.$$ 2>&1 || { cat /tmp/vf_sany.$$; rc=1; }
done
rm -f /tmp/vf_sany.$$
[ $rc = 0 ] && echo "specifications parsed"
exit $rc
