"""Environment set-up: locate hypothesis (offline) and the code under test (/repo)."""
import glob, os, pathlib, sys, zipfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("PBT_REPO", "/repo"))


def ensure_hypothesis():
    """Make ``import hypothesis`` work in the interpreter that has torch."""
    deps = VERIF / ".deps"
    if not (deps / "hypothesis" / "__init__.py").exists():
        wheels = sorted(glob.glob("/opt/veriftools/wheels/hypothesis-*cp312*.whl"))
        try:
            if not wheels:
                raise OSError("no wheel")
            tmp = VERIF / f".deps.{os.getpid()}"
            for wheel in wheels[-1:] + sorted(
                glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl")
            )[-1:]:
                with zipfile.ZipFile(wheel) as z:
                    z.extractall(tmp)
            try:
                os.rename(tmp, deps)
            except OSError:
                import shutil
                shutil.rmtree(tmp, ignore_errors=True)
        except OSError:
            # read-only folder or missing wheel: use the copy in the tools environment.
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            return
    if str(deps) not in sys.path:
        sys.path.insert(0, str(deps))


def use_repo():
    """Put the working tree of the code under test first on the path."""
    sys.path.insert(0, str(REPO))
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import artist.raytracing  # noqa: F401  (resolves the package's circular imports)
    import artist
    where = pathlib.Path(artist.__file__).resolve()
    if not str(where).startswith(str(REPO.resolve()) + os.sep):
        raise RuntimeError(f"artist imported from {where}, not from {REPO}")
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")
