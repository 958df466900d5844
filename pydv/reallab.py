"""Bounded experiments on the real code (interpreter of the repository), per property: replay of failed obligations and
labelled bounded stand-ins.  reads a JSON job from argv[1], writes a JSON result to argv[2]."""
import contextlib
import io
import json
import math
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("MIMOSA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, REPO)

LAB = {}


def lab(*props):
    def deco(f):
        for p in props:
            LAB.setdefault(p, []).append(f)
        return f
    return deco


class Res(dict):
    def __init__(self, job):
        super().__init__(findings=[], notes=[], evaluations=0, samples=[], errors=[])
        self.job = job
        self.t0 = time.time()
        self.limit = float(job.get("limit", 10))
        self.until = self.t0 + self.limit
        self.rng = random.Random(int(job.get("seed", 1)))
        self.quick = job.get("tier", "quick") == "quick"

    def left(self):
        """seconds left of the share of the running experiment"""
        return self.until - time.time()

    def share(self, n):
        """the next of n experiments that are still to run starts"""
        now = time.time()
        self.until = now + max(1.0, (self.t0 + self.limit - now) / n)

    def finding(self, what, **data):
        if len(self["findings"]) < 12:
            self["findings"].append(dict(data, what=str(what)[:1500]))

    def ran(self, n=1, sample=None):
        self["evaluations"] += n
        if sample is not None and len(self["samples"]) < 6:
            self["samples"].append(sample)


def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    return contextlib.ExitStack()


@contextlib.contextmanager
def silent():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def plain(x, depth=0):
    """something json can write"""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): plain(v, depth + 1) for k, v in x.items()} if depth < 40 else "..."
    if isinstance(x, (list, tuple, set)):
        return [plain(v, depth + 1) for v in x] if depth < 40 else "..."
    return x if x is None or isinstance(x, (bool, int, float, str)) else str(x)


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    res = Res(job)
    todo = LAB.get(job["property"], [])
    for k, f in enumerate(todo):
        res.share(len(todo) - k)
        try:
            f(job, res)
        except Exception as e:   # noqa: BLE001  an error of the experiment itself is a note, never a violation
            res["errors"].append(f"{f.__name__}: {type(e).__name__}: {str(e)[:300]} {traceback.format_exc()[-600:]}")
    res["wall"] = time.time() - res.t0
    with open(sys.argv[2], "w") as f:
        json.dump(plain(dict(res)), f, indent=1, default=str)


from importlib import util as _u  # noqa: E402


def load(name):
    spec = _u.spec_from_file_location("vc_" + name, os.path.join(HERE, name + ".py"))
    mod = _u.module_from_spec(spec)
    sys.modules["vc_" + name] = mod
    spec.loader.exec_module(mod)
    return mod


if __name__ == "__main__":
    sys.modules["reallab"] = sys.modules["__main__"]
    job_ = json.load(open(sys.argv[1]))
    for m_ in job_.get("modules", []):
        load(m_)
    main()
