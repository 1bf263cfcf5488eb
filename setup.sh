#!/bin/bash
# Installs the one dependency of the checks (hypothesis) from the offline wheelhouse
# into /verif/.deps (git-ignored). Everything else is pure Python run from /verif and /repo.
set -e
cd "$(dirname "$0")"
if ! PYTHONPATH=.deps /opt/venv/bin/python -c 'import hypothesis' 2>/dev/null; then
  mkdir -p .deps
  /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels \
      --target .deps --upgrade hypothesis 2>/dev/null \
  || for w in hypothesis sortedcontainers attrs; do
       /opt/venv/bin/python -m zipfile -e "$(ls /opt/veriftools/wheels/${w}-*.whl | grep -E 'cp312|any' | head -1)" .deps
     done
fi
PYTHONPATH=.deps /opt/venv/bin/python -c 'import hypothesis; print("hypothesis", hypothesis.__version__)'
