#!/bin/bash
# check.sh <property id>: decides one property of /repo's current working tree
cd "$(dirname "$0")" && exec python3 driver/check.py "$@"
