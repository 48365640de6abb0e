"""Documented tables, written down independently of the repository. Never run: the interpreter summarises it."""


def mapping(pairs):
    states = [k[0] for k in pairs.keys()]
    actions = [k[1] for k in pairs.keys()]
    rfstates = [v[0] for v in pairs.values()]
    rfactions = [v[1] for v in pairs.values()]
    return states, actions, rfstates, rfactions
