#!/bin/bash
# usage: run.sh <check module> [--tier quick|thorough] | run.sh --replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m fsim.core "$@"
