#!/bin/bash
# Nothing to build (pure Python): only verify that the interpreter and the package under test can be used.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" QT_QPA_PLATFORM=offscreen /opt/venv/bin/python -c "import zmq, msgpack, numpy, psutil, teleprox, vf.core; print('ok')"
