#!/bin/bash
# replay.sh SCRIPT: runs a history against the code in /repo and prints it with the verdict of the specification
D=$(cd "$(dirname "$0")/.." && pwd); T=$(mktemp -d); S=$(realpath "$1")
(cd "$D/harness" && cargo build --offline --quiet --bins) || exit 2
B=noodle-harness; grep -q '^wsetup' "$S" && B=worker-harness
"$D/harness/target/debug/$B" run "$S" "$T/t.nd"
ID=$(grep -m1 '^== ' "$S" | cut -c4-)
python3 "$D/tools/show.py" "$T/t.nd" "${ID:-script}"
python3 "$D/tools/tv.py" $([ $B = worker-harness ] && echo "-m WorkerTrace") "$T/t.nd"
rm -r "$T"
