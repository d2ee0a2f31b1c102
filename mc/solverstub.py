"""A scripted solver in place of the ipopt executable / the NEOS service.

The implementation writes a real .nl problem, calls `ipopt` found on PATH, and
reads a real .sol answer: everything between MIMOSA.solve and the operating
system is the code as shipped.  Only the numbers in the answer are scripted.
"""
import contextlib
import json
import os

from pyomo.opt.base import solvers as _solvers

from mc import impl

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub")


class Local:
    """with Local() as s: s.plan([...]); mimosa.solve(); s.calls()"""

    def __enter__(self):
        self._cm = impl.scratch_dir()
        self.dir = self._cm.__enter__()
        self._env = {k: os.environ.get(k) for k in ("PATH", "STUB_DIR", "NEOS_EMAIL")}
        os.environ["PATH"] = STUB + os.pathsep + os.environ.get("PATH", "")
        os.environ["STUB_DIR"] = self.dir
        os.environ.pop("NEOS_EMAIL", None)
        # names of the variables are always passed along, so that an answer can be given by name
        self._solve = _solvers.OptSolver.solve

        def solve(obj, *args, **kwds):
            kwds.setdefault("symbolic_solver_labels", True)
            return self._solve(obj, *args, **kwds)

        _solvers.OptSolver.solve = solve
        from pyomo.common import Executable
        Executable("ipopt").rehash()
        return self

    def __exit__(self, *exc):
        _solvers.OptSolver.solve = self._solve
        for k, v in self._env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        from pyomo.common import Executable
        Executable("ipopt").rehash()
        self._cm.__exit__(*exc)

    def plan(self, actions):
        with open(os.path.join(self.dir, "plan.json"), "w") as fh:
            json.dump(actions, fh)
        with contextlib.suppress(FileNotFoundError):
            os.remove(os.path.join(self.dir, "calls.jsonl"))

    def calls(self):
        try:
            with open(os.path.join(self.dir, "calls.jsonl")) as fh:
                return [json.loads(x) for x in fh]
        except FileNotFoundError:
            return []
