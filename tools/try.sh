#!/bin/sh
# tools/try.sh IDs...: run checks one after another
for p in "$@"; do python3 /verif/check.py $p; echo "$p exit $?"; done
