"""python -m mc.run C10 [--tier quick|thorough] [--replay file]"""
import importlib
import os
import sys
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")


def main():
    pid = sys.argv[1]
    try:
        from mc import report
        check = importlib.import_module(f"mc.checks.{pid.lower()}")
        rc = report.main(check, sys.argv[2:])
    except Exception as exc:
        # the implementation cannot even be imported/used: the property is not upheld
        traceback.print_exc()
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replays")
        os.makedirs(path, exist_ok=True)
        f = os.path.join(path, f"{pid}-crash.txt")
        with open(f, "w") as fh:
            fh.write(traceback.format_exc())
        print(f"VIOLATION property={pid} replay={f} :: check could not run: {type(exc).__name__}: {exc}"[:500])
        rc = 1
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
