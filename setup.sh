#!/bin/sh
# Builds the MIR dumping driver and warms the analysis cache (both are rebuilt by any check that needs them).
cd "$(dirname "$0")" || exit 2
exec python3 -c "from vlib import dump; dump.shipped(); print('ready')"
