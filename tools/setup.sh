#!/bin/bash
# Nothing is kept between runs: every check builds its harness from /repo's working tree.
# This only makes sure the tools the checks need are there and the specifications parse.
set -e
cd "$(dirname "$0")/../specs"
java -version >/dev/null 2>&1
cargo --version >/dev/null
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
unlink /tmp/sany.$$
echo setup ok
