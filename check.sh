#!/bin/bash
# usage: check.sh <property id>   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" && exec python3 "checks/$1.py"
