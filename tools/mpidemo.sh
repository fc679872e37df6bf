#!/bin/bash
# Runs prog.py (beside this file) under MPI and judges by the verdict it writes.
# The exit status of mpiexec is not looked at: MPI_Finalize may hang in this sandbox by itself.
D=$(cd "$(dirname "$0")" && pwd)
LIMIT=${LIMIT:-50}
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_tcp_if_include=lo
export OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated
export UNIDIST_BACKEND=mpi UNIDIST_CPUS=${CPUS:-3} UNIDIST_MPI_SHARED_OBJECT_STORE=${SHARED:-False}
[ "$SHARED" = True ] && export UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY=20000000 UNIDIST_MPI_SHARED_SERVICE_MEMORY=100000
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
S=$(mktemp -d)
rc=1
for attempt in 1 2 3; do
    rm -f "$S/verdict"
    setsid mpiexec -n 1 --oversubscribe /opt/venv/bin/python "$D/prog.py" "$S/verdict" >"$S/log" 2>&1 &
    P=$!
    for _ in $(seq $((LIMIT * 5))); do
        [ -s "$S/verdict" ] && break
        kill -0 $P 2>/dev/null || break
        sleep 0.2
    done
    kill -TERM $P 2>/dev/null; sleep 1; kill -KILL -- -$P 2>/dev/null
    pkill -KILL -f "python.*-c import unidist" 2>/dev/null
    wait $P 2>/dev/null
    if [ -s "$S/verdict" ]; then
        cat "$S/verdict"
        grep -q '^PASS' "$S/verdict" && rc=0
        break
    fi
    echo "attempt $attempt: no verdict within ${LIMIT}s"; tail -5 "$S/log"
done
rm -rf "$S"
exit $rc
