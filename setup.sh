#!/bin/bash
# nothing to build: verify that both interpreters and the code under test are usable
set -e
/opt/veriftools/pyvenv/bin/python -c 'import hypothesis'
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pytracer'
