#!/bin/bash
DEMO_FLAGS=""
. "$(dirname "$0")/build.sh"
timeout 280 "$T/demo"
