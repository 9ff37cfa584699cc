#!/bin/bash
# developer helper: run a check, show a summary
id=$1; shift
cd "$(dirname "$0")"
/opt/venv/bin/python check.py $id "$@" > /tmp/log.$id 2>&1; echo "exit $?"; grep -v '^{' /tmp/log.$id | tail -14 | cut -c1-400
