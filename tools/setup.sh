#!/bin/bash
# Build the checker once.
cd /verif || exit 2
bash /verif/tools/build.sh
