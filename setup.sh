#!/bin/bash
# nothing has to be built in advance - checks copy /repo's working tree and
# generate schema repositories on their own
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/lib:$PWD
/opt/venv/bin/python -c 'import hv.registry, hat.aio, lmdb' && java -version 2>&1 | head -1
