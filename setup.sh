#!/bin/bash
# Nothing is installed: check that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
cd spec
for f in *.tla; do
  java -cp "$(printf '%s:' /opt/veriftools/tla/*.jar)" tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "setup ok"
