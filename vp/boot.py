"""Process set-up shared by every check: environment, Hypothesis, import path.

Must be imported before torch / transformers / mergekit.
"""
import glob
import os
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WHEELS = "/opt/veriftools/wheels"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "HF_HUB_OFFLINE": "1",
    "TRANSFORMERS_OFFLINE": "1",
    "HF_DATASETS_OFFLINE": "1",
    "HF_HUB_DISABLE_TELEMETRY": "1",
    "HF_HOME": "/opt/hf",
    "CUDA_VISIBLE_DEVICES": "",
    "TOKENIZERS_PARALLELISM": "false",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TQDM_DISABLE": "1",
    "TRANSFORMERS_VERBOSITY": "error",
    "HF_HUB_DISABLE_PROGRESS_BARS": "1",
}


def prepare_env():
    os.environ.update(ENV)
    sys.dont_write_bytecode = True


def _ensure_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    deps = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(deps, "hypothesis")):
        deps = tempfile.mkdtemp(prefix="vp-deps-")
        import atexit
        import shutil

        owner = os.getpid()

        def _clean():
            if os.getpid() == owner:
                shutil.rmtree(deps, ignore_errors=True)

        atexit.register(_clean)
        install_deps(deps)
    sys.path.append(deps)
    import hypothesis  # noqa: F401


def install_deps(target):
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    for pat in (f"hypothesis-*-{tag}-{tag}-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError(f"no wheel matches {pat} in {WHEELS}")
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(target)


def boot():
    prepare_env()
    # the tree under test always wins over any installed copy
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    _ensure_hypothesis()
    private_progress_lock()


def private_progress_lock():
    """tqdm's default lock is shared with forked processes, and a child which is
    killed (on purpose, here) while holding it would hang every other one."""
    try:
        import threading

        import tqdm
    except ImportError:
        return
    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(threading.RLock())
    # a fork can also happen while another thread holds the lock
    os.register_at_fork(after_in_child=lambda: tqdm.tqdm.set_lock(threading.RLock()))


if __name__ == "__main__":
    # setup_cmd: unpack the generator library next to the checks
    t = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(t, "hypothesis")):
        os.makedirs(t, exist_ok=True)
        install_deps(t)
    boot()
    import hypothesis

    print("hypothesis", hypothesis.__version__, "from", os.path.dirname(hypothesis.__file__))
