#!/bin/bash
# builds the simulator once, so that missing parts show up early
V=$(dirname "$(readlink -f "$0")")
exec "$V/sim/build.sh"
