#!/bin/bash
# Nothing to compile: check that the interpreter, pipit's working tree and Hypothesis are importable.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c 'from vk import core; import pipit, hypothesis, otf2, stumpy; print("ready:", pipit.__file__)'
