#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree directly. This only
# verifies that the interpreter, JAX and the harness load.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD:/repo" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
mkdir -p evidence replays
/opt/venv/bin/python -c "
import haiku, jax, numpy, hkmon.main
assert haiku.__file__.startswith('/repo/'), haiku.__file__
print('setup ok: haiku from', haiku.__file__, 'jax', jax.__version__)
"
