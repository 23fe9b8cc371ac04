#!/bin/bash
# Run with cwd /repo: exit 0 if the property holds here, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/demo.py"
