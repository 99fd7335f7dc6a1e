#!/bin/sh
cd /verif && python3 tools/mkdocs.py && git add -A && git commit -qm "$1"
