#!/bin/bash
# p.sh ID [FILTER]: proves and shows
cd /verif && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYVC_SHOW=${SHOW:-600} python3-vt -B pyvc/prove.py "$1" /tmp/p_$1.json ${W:-8} quick ${2:+"$2"}
