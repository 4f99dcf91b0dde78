"""Process environment of every harness process: single threaded numerics, quiet
libraries, and the package under test imported from /repo's working tree."""
import os
import sys

ENV = dict(
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), TF_ENABLE_ONEDNN_OPTS="0",
)
os.environ.update(ENV)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load_sv():
    """Import smote_variants from the working tree, silenced."""
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    import smote_variants as sv

    assert os.path.realpath(sv.__file__).startswith(os.path.realpath(REPO)), sv.__file__
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    return sv
