#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")/harness" || exit 2
. ./env.sh
exec /opt/venv/bin/python -W ignore check.py "$@"
