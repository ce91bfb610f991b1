#!/bin/bash
# bash bin/check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--explore] ...
cd "$(dirname "$0")/.." || exit 2
exec /opt/vp/venv/bin/python rpv/run.py "$@"
