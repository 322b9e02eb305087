# Sourced by check and replay: environment of every simulated process.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1
shmbase=/dev/shm; [ -w "$shmbase" ] || shmbase=${TMPDIR:-/tmp}
# the scratch path is fixed (paths are part of a run); a second check of the same
# property at the same time gets one of its own
scratch=$shmbase/vsim
mkdir -p "$scratch"
exec 9>"$scratch/.lock.$prop"
if ! flock -n 9; then scratch=$shmbase/vsim.$$; mkdir -p "$scratch"; fi
priv=$(mktemp -d "$shmbase/vsimp.XXXXXX")
trap 'rm -rf "$priv"; [ "$scratch" = "$shmbase/vsim" ] || rm -rf "$scratch"' EXIT
shim=$priv/faultio.so
gcc -O2 -w -shared -fPIC -o "$shim" "$here/sim/faultio.c" -ldl || exit 2
run_sim() {
  env -i PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin HOME="$priv" LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC \
    PYTHONPATH="${VSIM_REPO:-/repo}:$here" PYTHONPYCACHEPREFIX="$priv/pyc" \
    PYTHONHASHSEED="${VSIM_HASHSEED:-0}" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 \
    NUMEXPR_NUM_THREADS=1 BLOSC_NTHREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$priv/mpl" QT_QPA_PLATFORM=offscreen \
    XDG_CACHE_HOME="$priv/xdg" HTTP_PROXY=http://127.0.0.1:9 HTTPS_PROXY=http://127.0.0.1:9 \
    http_proxy=http://127.0.0.1:9 https_proxy=http://127.0.0.1:9 \
    VSIM_SHIM="$shim" VSIM_REPO="${VSIM_REPO:-/repo}" VSIM_SCRATCH="$scratch" VSIM_TRACE="${VSIM_TRACE:-}" \
    VSIM_WORKERS="${VSIM_WORKERS:-8}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" \
    LD_PRELOAD="$shim" /opt/venv/bin/python -W ignore -m sim.runner "$@"
}
