"""Rule registry: CHECKS[id] = function(World, Report)."""
CHECKS = {}


def check(cid):
    def deco(f):
        CHECKS[cid] = f
        return f
    return deco


from . import effects, insert, locks, maps, misc, persist, wio, panics, search, ffi, explore, select  # noqa: E402,F401
