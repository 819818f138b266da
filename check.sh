#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [-v]
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
exec python check.py "$@"
