#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
exec ./driver.sh check "$@"
