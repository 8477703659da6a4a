#!/bin/bash
# check.sh <property> : run one check from /verif
cd "$(dirname "$0")" && . ./env.sh && export PYTHONDONTWRITEBYTECODE=1 && exec /opt/veriftools/pyvenv/bin/python3 -m vt.run "$@"
