#!/bin/bash
# setup.sh: builds the simulator once, to see that everything is there.
. "$(dirname "$0")/tools/env.sh"
build race
