#!/bin/bash
# nothing to build: check that the tools the checks use are present
cd "$(dirname "$0")" || exit 1
python3-vt -c "import z3, sys; sys.path.insert(0, '.'); import engine.symrun" || exit 1
/opt/venv/bin/python -c "import torch, numpy" || exit 1
command -v cvc5 >/dev/null || exit 1
chmod +x check
