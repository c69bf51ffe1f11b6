#!/bin/bash
# development helper: violations of a run, grouped by key kind
VERIF_ALL=9999 timeout 1800 ./run.sh "$@" 2>&1 | grep -v "^VIOLATION" > /tmp/groups.txt; tail -1 /tmp/groups.txt
