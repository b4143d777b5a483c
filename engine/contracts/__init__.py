"""Registry of contracts: name -> (function(X, **variant), variants, properties, function verified, public?)"""
REG = []


class C:
    def __init__(self, name, fn, variants, props, target, public, conc):
        self.name, self.fn, self.variants, self.props, self.target, self.public, self.conc = name, fn, variants, props, target, public, conc


def contract(name, props, target, variants=({},), public=False, conc=True):
    def d(fn):
        REG.append(C(name, fn, list(variants), list(props), target, public, conc))
        return fn
    return d


def product(**kw):
    import itertools
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


def load():
    from . import mathscr, assemble, coeffs, eigen, subs, pyd, lemmas  # noqa
    return REG
