#!/bin/bash
# Nothing to build: only confirms that what the checks import is there.
cd "$(dirname "$0")/.." && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pbt, edk2toollib; print("ready")'
