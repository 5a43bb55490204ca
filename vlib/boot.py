"""Process set-up shared by every check: quiet logging, the compat shim the test
suite itself uses, and Hypothesis taken from the tooling venv without exposing
anything else that lives there."""
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import sys
import warnings

TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_EXPOSED = ("hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
            "_hypothesis_globals", "sortedcontainers")


class _ToolFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is None and name in _EXPOSED:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def boot():
    warnings.simplefilter("ignore")
    sys.meta_path.append(_ToolFinder())
    try:
        import reagent_compat  # noqa: F401  (the shim /opt/vp/test.sh loads)
    except ImportError:
        pass
    import torch

    torch.set_num_threads(1)
    # the repository configures root logging at import time; the checks are quiet
    logging.disable(logging.CRITICAL)
    # fb-only modules that some files import without using
    import types

    for n in ("torch.fb", "torch.fb.rendezvous", "torch.fb.rendezvous.zeus"):
        if n not in sys.modules:
            sys.modules[n] = types.ModuleType(n)


class silence:
    """Swallow the chatter that the code under test prints (fd level)."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self._o, self._e = os.dup(1), os.dup(2)
        self._n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self._n, 1)
        os.dup2(self._n, 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self._o, 1)
        os.dup2(self._e, 2)
        for fd in (self._o, self._e, self._n):
            os.close(fd)
