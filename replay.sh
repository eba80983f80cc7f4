#!/bin/bash
# replay.sh FILE: rebuilds the simulator and repeats the execution of a replay
# file; exit 1 when it shows the violation again.
. "$(dirname "$0")/tools/env.sh"
race=; grep -q '^ "race": true' "$1" && race=race
build $race || { echo "replay.sh: the simulator cannot be built" >&2; exit 2; }
exec "$VERIF/.build/simcheck" replay -in "$1" -verif "$VERIF"
