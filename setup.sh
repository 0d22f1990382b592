#!/bin/bash
# Nothing to build: pure Python, run by the interpreter of the project.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
/opt/venv/bin/python -P -c 'import numpy, channelpack; print(numpy.__version__, channelpack.__file__)'
