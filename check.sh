#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the simulator from the working
# tree of /repo and searches for an execution that breaks the property.
. "$(dirname "$0")/tools/env.sh"
race=; [ "$1" = C16 ] && race=race
build $race || { echo "check.sh: the simulator cannot be built" >&2; exit 2; }
exec "$VERIF/.build/simcheck" check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$VERIF" ${SECONDS_TO_SEARCH:+-seconds $SECONDS_TO_SEARCH}
