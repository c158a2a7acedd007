#!/bin/bash
# usage: replay.sh <file written by a failing check>   re-executes exactly that case
P=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
$PY -W ignore -m mc replay "$P"
