#!/bin/bash
# replay.sh FILE: re-executes a replay file on /repo's working tree.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
exec ./driver.sh replay "$f"
