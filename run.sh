#!/bin/bash
# run.sh <property> <quick|thorough>: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 HOME=${HOME:-/root}
export PATH=/opt/venv/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPATH=$PWD/lib
export PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION=${PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION:-}
[ -z "$PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION" ] && unset PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION
tier=${2:-quick}
VERIF_TIER=$tier exec /opt/venv/bin/python checks/$(echo "$1" | tr A-Z a-z).py "$tier"
