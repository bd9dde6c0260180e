"""Scenario registry (CPython side).  A scenario is one contract at the level
of the public API: inputs, preconditions, the call on the real code and the
postconditions.  The verifier executes the same text symbolically."""
REGISTRY = []


def scenario(*props, sym=True, conc=True, n=120, budget=100, bounded=None, uses=(), loops=()):
    def d(f):
        f.props, f.sym, f.conc, f.n, f.budget, f.bounded = props, sym, conc, n, budget, bounded
        REGISTRY.append(f)
        return f
    return d


def contract(target, pure=False):
    """the contract of a repository function, used at its call sites by the
    scenarios that name it in uses=; only the verifier executes it.  pure: the
    result is a function of the arguments"""
    return lambda f: f


def invariant(target, index, variables):
    """the invariant of loop number `index` of a repository function: NAME_holds
    lists its clauses, NAME_state an arbitrary state of the variables (and ghosts),
    NAME_start the ghosts on entry, NAME_step the ghosts after an iteration"""
    return lambda f: f
