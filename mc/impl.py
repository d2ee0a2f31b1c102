"""Access to the implementation under test (the working tree of /repo).

Only the public surface is used: ``load_params``, ``MIMOSA(params)``, the
concrete Pyomo model it builds (whose variable/parameter names are the exported
ones), ``solve`` and ``save``.  The one seam is pyomo's own ``Transformation``
base class: while a *raw* model is requested, pyomo transformations are
recorded and skipped, so that the equations can be seen before preprocessing.
"""
import contextlib
import copy
import io
import logging
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("MC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import yaml  # noqa: E402

if getattr(yaml, "__with_libyaml__", False):
    # same constructor, libyaml scanner: only makes the enumeration faster
    yaml.safe_load = lambda stream: yaml.load(stream, Loader=yaml.CSafeLoader)

logging.disable(logging.NOTSET)
logging.getLogger("pyomo").setLevel(logging.CRITICAL)

import mimosa as _mimosa  # noqa: E402
from mimosa import MIMOSA, load_params  # noqa: E402

assert os.path.realpath(_mimosa.__file__).startswith(os.path.realpath(REPO) + os.sep), _mimosa.__file__

_log = logging.getLogger("MIMOSA")
LOG_PROPAGATES = _log.propagate  # as shipped; silenced here, see checks/c28.py
_log.propagate = False
_log.addHandler(logging.NullHandler())

import pyomo.environ as pyo  # noqa: E402
from pyomo.core.base.transformation import Transformation  # noqa: E402

PKG = os.path.dirname(os.path.realpath(_mimosa.__file__))
DATA = os.path.join(PKG, "inputdata")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def default_tree():
    """The configuration declaration (data file, not code)."""
    with open(os.path.join(DATA, "config", "config_default.yaml"), encoding="utf8") as fh:
        return yaml.safe_load(fh)


def params_from(overrides=(), base=None):
    """Fresh default params with [(path tuple, value), ...] set."""
    with quiet():
        p = load_params() if base is None else copy.deepcopy(base)
    for path, val in overrides:
        d = p
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = copy.deepcopy(val)
    return p


@contextlib.contextmanager
def no_transformations(record=None):
    orig = Transformation.apply_to

    def skip(self, model, **kwds):
        if record is not None:
            record.append(type(self).__name__)

    Transformation.apply_to = skip
    try:
        yield
    finally:
        Transformation.apply_to = orig


def build(params, raw=True):
    """MIMOSA object from params (raw: before preprocessing)."""
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if raw:
            with no_transformations():
                return MIMOSA(params)
        return MIMOSA(params)


def regions_dict(names):
    return {r: {} for r in names}


@contextlib.contextmanager
def scratch_dir():
    with tempfile.TemporaryDirectory(prefix="mc_mimosa_") as d:
        yield d


@contextlib.contextmanager
def in_dir(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)
