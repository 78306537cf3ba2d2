#!/bin/bash
# nothing to build: pure Python over the installed venv; fail early if the tools are missing
cd "$(dirname "$0")" && PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import fv, z3, jax; print('z3', z3.get_version_string(), 'jax', jax.__version__)"
