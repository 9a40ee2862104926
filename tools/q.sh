#!/bin/bash
# short summary of a check run: q.sh C02 [args]
p=$1; shift
/verif/check.py --property $p --keep-going --no-minimise "$@" 2>&1 | cut -c1-${W:-330} | tail -${N:-14}
