"""What the parent needs to know of a property module (loaded without importing
the code under test: property modules reach it lazily through support.nk)."""
import engine


def subs(pid):
    mod = engine.load_prop(pid)
    return [dict(name=s.name, quick=s.quick, thorough=s.thorough, shards=s.shards,
                 tshards=s.tshards) for s in mod.SUBS]


def describe(pid):
    mod = engine.load_prop(pid)
    return {'rule': mod.RULE, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', []))}
