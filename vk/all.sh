#!/bin/bash
# all.sh [--thorough] ID...: runs checks one after another, prints the last line of each
cd "$(dirname "$0")/.."
opt=; [ "$1" = --thorough ] && { opt=$1; shift; }
for p in "$@"; do python3 check.py $p $opt >/tmp/chk.$p 2>&1; rc=$?; echo "rc=$rc $(tail -1 /tmp/chk.$p)"; done
