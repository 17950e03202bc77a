"""A degraded interpreter: runs cases and writes their outcomes (used by C11)."""
import json
import os
import pickle
import sys
import traceback


def _case(case, shake):
    from . import cases, catalog, engine
    import numpy as np
    engine.quiet()
    call = catalog.build(tuple(case))
    if shake:
        rng = np.random.default_rng(shake)

        def sh(x):
            if isinstance(x, np.ndarray) and x.dtype.kind in "fc" and x.size:
                return np.array(x * (1 + 1e-13 * rng.uniform(-1, 1, x.shape))).astype(x.dtype)
            if isinstance(x, float):
                return x * (1 + 1e-13 * rng.uniform(-1, 1))
            return x
        call.args = [sh(x) for x in call.args]
        call.kwargs = {k: sh(x) for k, x in call.kwargs.items()}
    return cases.outcome(call)


def safe(fn, *args):
    """Outcome of a case that may fail while its inputs are prepared, or die."""
    from . import engine
    try:
        return engine.in_child(fn, *args)
    except engine.ChildProblem as e:
        last = e.text.strip().splitlines()[-1] if e.text.strip() else ""
        return ("died", e.kind, last)


def main():
    job = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    try:
        from . import engine
        try:
            engine.start(job["variant"])
        except Exception:          # noqa: BLE001
            pickle.dump(("import", traceback.format_exc()), out)
            return
        res = [safe(_case, c, job.get("shake", 0)) for c in job["cases"]]
        pickle.dump(("ok", res), out, protocol=4)
    finally:
        out.close()


if __name__ == "__main__":
    main()
