#!/bin/sh
# compile the arithmetic override used by TLC
set -e
d=$(cd "$(dirname "$0")" && pwd)
"$d/py.sh" -c "import sys; sys.path.insert(0,'$d/harness'); import core; core.build_java()"
