#!/bin/bash
# mut.sh PROPS < lines "file|old|new": runs tools/mutate.py for each
while IFS='|' read -r f a b; do [ -z "$f" ] && continue; echo "--- $f: $a -> $b"; python3 /verif/tools/mutate.py "$1" "$f" "$(printf "$a")" "$(printf "$b")"; done
