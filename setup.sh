#!/bin/bash
# builds the harness from the committed files and /repo's working tree
cd "$(dirname "$0")" && . ./env.sh && export PYTHONDONTWRITEBYTECODE=1 && exec /opt/veriftools/pyvenv/bin/python3 -c 'from vt.driver import build; build()'
