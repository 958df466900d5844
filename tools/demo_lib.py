"""helpers of the demonstrations: build real models in the current directory's package and look at what they impose"""
import contextlib
import io
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")


@contextlib.contextmanager
def silent():
    import logging
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def deep(d, path, v):
    ks = path.split("/")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = v


def params(regions=("USA", "CHN"), time=(2020, 2140, 20), damage="nodamage", trade="notrade", transfer="notransfer",
           welfare="welfare_loss_minimising", objective="utility", **kv):
    p = {"model": {"damage module": damage, "emissiontrade module": trade, "financialtransfer module": transfer,
                   "welfare module": welfare, "objective module": objective},
         "time": {"start": time[0], "end": time[1], "dt": time[2]},
         "regions": {r: {} for r in regions}}
    for k, v in kv.items():
        deep(p, k.replace("__", " "), v)
    return p


def build(p):
    """the instance MIMOSA builds (no solver involved)"""
    with silent():
        import mimosa.mimosa as mm

        class M(mm.MIMOSA):
            def preprocessing(self):
                pass
        return M(p)


def concrete(p):
    return build(p).concrete_model


def imposed(m, x):
    """values that the equality constraints impose on the variable x, given the values of all other variables"""
    import pyomo.environ as pe
    from pyomo.core.expr.visitor import identify_variables
    out = []
    for c in m.component_data_objects(pe.Constraint, active=True):
        vs = list(identify_variables(c.body))
        if not any(v is x for v in vs) or not c.equality or any(v.value is None for v in vs if v is not x):
            continue
        old = x.value
        f = []
        for z in (0.0, 1.0):
            x.set_value(z, skip_validation=True)
            f.append(pe.value(c.body) - pe.value(c.upper))
        x.set_value(old, skip_validation=True)
        if f[1] != f[0]:
            out.append((c.name, -f[0] / (f[1] - f[0])))
    return out


def clear(m):
    import pyomo.environ as pe
    for v in m.component_data_objects(pe.Var):
        v.set_value(None, skip_validation=True)


def violated(m, tol=1e-9, only=None):
    """names of constraints broken at the current values (those whose variables all have values)"""
    import pyomo.environ as pe
    from pyomo.core.expr.visitor import identify_variables
    out = []
    for c in m.component_data_objects(pe.Constraint, active=True):
        vs = list(identify_variables(c.body))
        if any(v.value is None for v in vs) or not vs:
            continue
        b = pe.value(c.body)
        if c.lower is not None and b < pe.value(c.lower) - tol or c.upper is not None and b > pe.value(c.upper) + tol:
            out.append(c.name)
    for v in m.component_data_objects(pe.Var):
        if v.value is not None and (v.lb is not None and v.value < v.lb - tol or v.ub is not None and v.value > v.ub + tol):
            out.append("bound of " + v.name)
    return out


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * (1 + abs(b))


def check(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)
