#!/bin/bash
# run with cwd at the repository
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
