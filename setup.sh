#!/bin/bash
# Nothing to install: every check builds what it needs. This only verifies that the tools are there
# and that the specifications parse.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
clang++ --version | head -1
python3 --version
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" > ../.build/sany.log 2>&1) || { cat .build/sany.log; exit 1; }
done
echo "specifications parsed"
