#!/bin/bash
# run.sh ID [quick|thorough]     decide one property
# run.sh ID replay FILE          run the one case a VIOLATION line points at
# run.sh setup                   check the tools the checks use are there
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
PY=${NXT_VERIF_PY:-/opt/venv/bin/python}
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export NXT_VERIF_REPO=${NXT_VERIF_REPO:-/repo}
unset NXT_FILE_ROOTS NXT_SITE_DIR NXT_VERBOSE NXT_DCC NXT_CONTEXT PYTHONSTARTUP
if [ "$1" = setup ]; then
    exec "$PY" -W ignore "$HERE/harness/driver.py" --setup
fi
exec "$PY" -W ignore "$HERE/harness/driver.py" "$@"
