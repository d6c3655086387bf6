#!/bin/bash
# usage: check.sh ID [quick|thorough] [runner options]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
id="$1"; shift; shift
exec python3-vt -W ignore -m symx.runner "$id" "$@"
