#!/bin/bash
# check.sh <property> [options]: run one check (tier and seed from the environment)
cd "$(dirname "$0")" && exec python3 -m pv "$@"
