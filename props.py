PROPS = {}
def P(id, runs, assumptions=()):
    PROPS[id] = {"runs": runs, "assumptions": list(assumptions)}
def R(name, harness, pkgs, bounds, **kw):
    return dict(name=name, harness=harness, pkgs=pkgs, bounds=bounds, **kw)
import propdefs
propdefs.define(P, R)
