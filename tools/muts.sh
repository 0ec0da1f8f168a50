#!/bin/bash
# muts.sh UNIT < lines FILE@@regex@@replacement : several mutations
while IFS= read -r l; do [ -z "$l" ] && continue; f="${l%%@@*}"; r="${l#*@@}"; a="${r%%@@*}"; b="${r#*@@}"; echo "== $l"; bash /verif/tools/mut.sh "$1" "$f" "$a" "$b" 2>&1 | grep -E "replaced 0|verified|^error|bpextract|lost" | sort -u | head -${K:-3}; done
