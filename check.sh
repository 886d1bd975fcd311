#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay file]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -m mc.core "$@"
