#!/bin/bash
# Unpacks the pre-installed hypothesis wheel next to the framework (also done lazily by pbt/bootstrap.py).
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
import pbt.bootstrap as b
b.ensure_hypothesis()
import hypothesis
print('hypothesis', hypothesis.__version__)
"
