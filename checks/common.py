"""Shared by the check modules."""
REAL = 'floating-point tensors are modelled as real-number tensors (rounding is outside the claim)'


def registry():
    props = {}

    def prop(pid, bounds, outside='', assumptions=()):
        def deco(f):
            props[pid] = dict(cases=f, bounds=bounds, outside=outside, assumptions=list(assumptions))
            return f
        return deco
    return props, prop


def sh(s):
    return 'x'.join(map(str, s))
