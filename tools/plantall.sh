#!/bin/bash
# Maintenance: plant.sh for every (or the given) planted bug.
cd /verif/seeded && for i in ${@:-*}; do bash /verif/tools/plant.sh $i; done
