#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree.  Verifies that the interpreter can run them.
cd "$(dirname "$0")" && mkdir -p evidence && . /opt/vp/env.sh && PYTHONPATH="$PWD" /opt/venv/bin/python -c "import mc.core" && echo ready
