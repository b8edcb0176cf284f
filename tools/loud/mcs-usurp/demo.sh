#!/bin/bash
DEMO_FLAGS=""
DEMO_LD="-Wl,--wrap=synchResched"
. "$(dirname "$0")/build.sh"
timeout 280 "$T/demo"
