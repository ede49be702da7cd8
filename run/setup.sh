#!/bin/bash
# Checks that the tools the checks need are present and warms the build.
set -e
cd "$(dirname "$0")/.."
. ./env.sh
command -v tlc >/dev/null && command -v cargo >/dev/null && command -v python3 >/dev/null
python3 -c "
import sys; sys.path.insert(0,'run')
import lib; lib.load_env(); lib.build()"
