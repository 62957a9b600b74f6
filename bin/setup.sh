#!/bin/bash
# Nothing to build ahead: every check rebuilds its drivers from /repo. Verifies that the toolchains are there
# and that every specification parses.
set -e
cd "$(dirname "$0")/.."
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
go version
java -version 2>&1 | head -1
chmod +x bin/check
for f in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename $f)") > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
echo "setup ok"
