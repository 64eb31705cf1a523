#!/bin/bash
# drv.sh ID [shard nshards tier]: run only the driver of a property, profile
cd /verif; eval $(python3 - "$1" <<'P'
import sys; sys.path.insert(0,'/verif')
from checks_registry import PROPS
print("D="+PROPS[sys.argv[1]]["driver"])
P
)
export JAX_PLATFORMS=cpu XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_disable_hlo_passes=constant_folding intra_op_parallelism_threads=1" PYTHONPATH=/repo:/verif/harness PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1
cd /tmp/w; time /opt/venv/bin/python $PROF /verif/harness/$D.py /tmp/w/tr.ndjson ${2:-0} ${3:-8} ${4:-quick} ${SEED:-1} ${GENF:--}
