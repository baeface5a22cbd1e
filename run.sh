#!/bin/bash
# bash run.sh <PROPERTY> [quick|thorough]      run one check
# bash run.sh <PROPERTY> replay <file>         re-run the case recorded in a replay file
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:/repo" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore
unset JAX_ENABLE_X64 JAX_DISABLE_JIT
exec /opt/venv/bin/python -m hkmon.main "$@"
