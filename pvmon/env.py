"""Process environment: deterministic, single-threaded numerics, and pypfopt imported
from /repo's current source text (cached bytecode is ignored)."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get("PVMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _SourceLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pypfopt" and not fullname.startswith("pypfopt."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_SourceLoader(fullname, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_SourceLoader(fullname, base + ".py"))
        return None


def setup():
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    if os.path.isdir("/opt/mplconfig"):
        os.environ.setdefault("MPLCONFIGDIR", "/opt/mplconfig")
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")

    import osqp

    _setup = osqp.OSQP.setup

    def fixed_interval(self, *args, **settings):
        # OSQP's default adapts rho by wall-clock time, which makes runs irreproducible
        settings.setdefault("adaptive_rho_interval", 100)
        return _setup(self, *args, **settings)

    osqp.OSQP.setup = fixed_interval

    import pypfopt

    assert os.path.realpath(pypfopt.__file__).startswith(os.path.realpath(REPO) + os.sep), pypfopt.__file__
    warnings.simplefilter("ignore")
    return pypfopt
