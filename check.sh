#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 1
exec python3-vt -W ignore cpv/run.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
