#!/bin/sh
# check.sh <property> [quick|thorough]: run one check (tier from VERIF_TIER unless given)
cd "$(dirname "$0")" || exit 2
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vf "$@"
