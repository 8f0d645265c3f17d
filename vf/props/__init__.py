def modules():
    from . import (change, control, engine, io, query, refuse, relational,
                   scalar, talk, api, fuzz, special, given, size, made)
    return [query, scalar, relational, change, control, engine, refuse,
            io, talk, api, fuzz, special, given, size, made]


def generators(prop):
    for m in modules():
        if prop in m.GENS:
            return m.GENS[prop]
    raise KeyError(prop)


def zygotes(prop):
    for m in modules():
        if prop in m.ZYG:
            return m.ZYG[prop]
    return ("plain", "asan")
