#!/bin/bash
# Unpacks the Hypothesis wheel next to the checks (the checks also do this by themselves if it is missing).
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import vp, hypothesis; print('hypothesis', hypothesis.__version__)"
