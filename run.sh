#!/bin/bash
# run.sh ID [tier]        -- run the check of one property
# run.sh --replay FILE    -- run one recorded failing case again
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
export PYTHONPATH=/repo:$HERE:$HERE/vendor PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -X faulthandler -m rnv.main "$@"
