# Sourced by setup.sh and check.sh: environment, and rebuild of pyGSTi's compiled extensions from /repo's working tree
# (only when their sources changed since the last build; everything written there is git-ignored).
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF REPO=${REPO:-/repo}
mkdir -p "$VERIF/out" "$VERIF/evidence"
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
. /opt/vp/ext.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$REPO:$VERIF" OMP_NUM_THREADS=1
rebuild() {
    exec 9>"$VERIF/out/.buildlock"
    flock 9
    (cd "$REPO" && build_ext)
    local rc=$?
    flock -u 9
    exec 9>&-
    return $rc
}
