"""z3's python patterns do not keep their terms alive (z3-solver 5.3.2: a crash in mk_quantifier)"""
import z3
import z3.z3 as _z

_multi = _z.MultiPattern


def _keeping(*args):
    r = _multi(*args)
    r._terms = args
    return r


_z.MultiPattern = z3.MultiPattern = _keeping
