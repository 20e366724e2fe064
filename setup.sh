#!/usr/bin/env bash
# Builds the harness in its three variants against /repo's working tree. Each check builds what it needs again,
# so a variant that does not compile now is not fatal here.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
rc=1
for v in pub hooks asan; do ./check.sh build $v && rc=0; done
exit $rc
