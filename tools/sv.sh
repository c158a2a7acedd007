#!/bin/bash
cd /verif; . ./env.sh
time $PY -W ignore tools/survey.py "$@" 2>/dev/null
