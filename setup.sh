#!/bin/sh
# everything the checks need is committed; verify that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, 'harness'); import registry, blosc, numpy; print(len(registry.CHECKS), 'checks')"
cd spec
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY -error-codes "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok
