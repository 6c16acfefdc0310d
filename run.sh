#!/bin/bash
# developer helper: run a check verbosely, keep the output short
cd /verif && DPV_VERBOSE=1 timeout 900 /opt/venv/bin/python check.py "$@" 2>/dev/null | cut -c1-${W:-260} | tail -${N:-60}
