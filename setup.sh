#!/bin/bash
# Builds the MIR driver and warms the two build directories used by the checks.
cd "$(dirname "$0")" || exit 1
exec python3-vt -c "
import check
check.build_driver(); check.dump('P02'); check.build_runner()
"
