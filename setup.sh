#!/bin/bash
# builds every instrumented variant the checks use from /repo's working tree
cd "$(dirname "$0")" || exit 1
exec python3 check.py --build
