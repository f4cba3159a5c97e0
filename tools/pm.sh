#!/bin/bash
# pm.sh ID SEED [FILTER]: proves ID on a scratch copy of /repo with a planted bug applied
rm -rf "/tmp/pm_$1"; cp -a /repo "/tmp/pm_$1" && git -C "/tmp/pm_$1" apply "/verif/seeded/$2/patch.diff" && VERIF_REPO="/tmp/pm_$1" SHOW=${SHOW:-200} bash /verif/tools/p.sh "$1" ${3:+"$3"}
rm -rf "/tmp/pm_$1"
