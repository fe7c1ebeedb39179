#!/bin/bash
# tools/plant_all.sh NAME...  with the full tests, one after another
for n in "$@"; do bash "$(dirname "$0")/plant.sh" $n; done
