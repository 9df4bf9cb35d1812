#!/bin/bash
# developer aid: symbolize the sanitizer frames of a replayed failure.  usage: sym.sh ID REPLAY
B=/verif/build/bin/$1
$B --replay $2 2>&1 | grep -o '^ *#[0-9]* .*+0x[0-9a-f]*\|^==.*ERROR.*\|.*runtime error.*\|freed by.*\|.*allocated by.*' | while read -r l; do
 case "$l" in \#*) a=${l##*+}; echo "${l%% *} $(llvm-symbolizer-18 --obj=$B -f -C -s -p $a 2>/dev/null | head -3 | cut -c1-140 | tr '\n' '~')";; *) echo "$l";; esac; done
