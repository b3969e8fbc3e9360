#!/bin/sh
# Compiles the arithmetic override of spec/Flt.tla; the checks do it themselves if it is missing.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'harness')
import kit; print(kit.java_classes())"
