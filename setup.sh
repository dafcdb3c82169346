#!/bin/bash
# MANIFEST setup_cmd: make sure the extensions are built and the library and harness import.
. "$(dirname "$0")/env.sh"
rebuild || exit 1
cd "$VERIF" && "$PY" -c "import pygsti, mc.core; print('setup ok: pygsti from', pygsti.__file__)"
