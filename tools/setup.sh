#!/bin/bash
# Builds the framework: everything is interpreted (TLA+, Python) or built by each check from
# /repo's current tree, so this only verifies that the specifications parse.
cd "$(dirname "$0")/.." || exit 1
fail=0
for f in specs/*.tla; do
  if ! (cd specs && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1); then
    echo "specification $f does not parse"; cat /tmp/sany.$$; fail=1
  fi
done
rm -f /tmp/sany.$$
exit $fail
