#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
. ./env.sh
$PY -W ignore -m mc "$1" "${2:-${VERIF_TIER:-quick}}"
