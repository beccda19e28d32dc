#!/bin/bash
# run one check, brief
cd /verif && timeout 20000 python3 check.py "$@" 2>&1 | tail -25
