#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's current tree by simulation.
# exit 0 held on everything explored, 1 violated (VIOLATION line), 2 error of the check
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
mkdir -p evidence replays || exit 2
if ! sim/build.sh >build.log 2>&1; then cat build.log; echo "ERROR the simulator does not build against the current tree"; exit 2; fi
if [ "$TIER" = thorough ]; then RUNS=${RUNS:-20000000}; WALL=${WALL:-600}; else RUNS=${RUNS:-400000}; WALL=${WALL:-20}; fi
exec build/simcheck --prop "$ID" --seed "$SEED" --tier "$TIER" --runs "$RUNS" --wall "$WALL" --jobs "${JOBS:-8}" --replays replays --evidence "evidence/$ID.json"
