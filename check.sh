#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" && exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m fv.runner "$1" --tier "$2" "${@:3}"
