"""C44: what a record is, as a mapping and as an object (package_* run the package's classes, the others say what must come out)."""


def package_use(cls, a, b, c):
    r = cls(alpha=a, beta=b)
    before = [r.alpha, r['alpha'], r.beta, 'gamma' in r, r.get('gamma'), r.get('alpha'), len(r)]
    r.alpha = c
    r['beta'] = a
    r.gamma = b
    return before, [r.alpha, r['alpha'], r.beta, r['beta'], r.gamma, r['gamma'], len(r), sorted(r.keys())], dict(r)


def use(a, b, c):
    return ([a, a, b, False, None, a, 2], [c, c, a, a, b, b, 3, ['alpha', 'beta', 'gamma']],
            {'alpha': c, 'beta': a, 'gamma': b})


def package_again(cls, a, b):
    r = cls({'alpha': a, 'delta': b}, beta=b)
    r.gamma = a
    r['gamma'] = b
    r.alpha = b
    r['alpha'] = a
    return r.alpha, r.beta, r.gamma, dict(r)


def again(a, b):
    return a, b, b, {'alpha': a, 'beta': b, 'gamma': b, 'delta': b}


def package_probe(cls, a, names):
    r = cls(alpha=a)
    return [(hasattr(r, n), getattr(r, n, a)) for n in names], hasattr(r, 'alpha'), getattr(r, 'alpha', None), dict(r)


def probe(a, names):
    return [(False, a) for n in names], True, a, {'alpha': a}


def package_attribute(cls, a):
    return cls(alpha=a).beta


def attribute(a):
    raise AttributeError('beta')


def package_item(cls, a):
    return cls(alpha=a)['beta']


def item(a):
    raise KeyError('beta')


def package_two(cls, a, b):
    r, s = cls(alpha=a), cls(alpha=b)
    r.beta = b
    s.gamma = a
    return dict(r), dict(s)


def two(a, b):
    return {'alpha': a, 'beta': b}, {'alpha': b, 'gamma': a}


def package_fields(cls, names, values):
    made = cls(**dict(zip(names, values)))
    later = cls()
    for n, v in zip(names, values):
        setattr(later, n, v)
    return [getattr(made, n) for n in names], [getattr(later, n) for n in names], [later[n] for n in names]


def fields(names, values):
    return values, values, values


def package_header(header, index, a, b, c):
    i = index(a, b)
    h = header(a, b, [i])
    return dict(i), i.record_count, i.start_index, h.version_code, h.record_count, h.day_indexes[0].start_index, h['version_code']


def header(a, b):
    return {'record_count': a, 'start_index': b}, a, b, a, b, b, a
