"""P10: copying and pickling."""
import copy
import pickle
from symex.runner import Task

BOUNDS = ('containers of up to 4 objects (2 variables, 2 functions of them with arbitrary coefficients), every pickle protocol, '
          'copy and deepcopy, before/after the derivatives have been queried, tags, sigma >= 0; one later change of sigma; lists, tuples, dictionaries and arrays of them; chains of up to 5000 operations')
ASSUMPTIONS = ['symbolic floats pass through pickle by reference (the float codec itself is CPython)']


def build(E):
    tag = E.choice('tag', [None, 'a tag', ''])
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True), tag)
    y = E.u.ufloat(E.real('y'), E.real('sy', pos=True))
    a, b, c, v, w = [E.real(n) for n in 'abcvw']

    def f(p, q):
        return v

    def g(p, q):
        return w
    u = E.core.wrap(f, [lambda p, q: a, lambda p, q: b])(x, y)
    z = E.core.wrap(g, [lambda p, q: c, lambda p, q: 1.0])(u, x)
    if E.flag('expanded'):
        z.derivatives, u.std_dev
    return x, y, u, z


def pickled(E):
    x, y, u, z = build(E)
    proto = E.p['proto']
    cx, cy, cu, cz = pickle.loads(pickle.dumps([x, y, u, z], proto))
    for orig, new in ((x, cx), (y, cy), (u, cu), (z, cz)):
        E.check(type(new) is type(orig), 'same type')
        E.close(new.nominal_value, orig.nominal_value, 'nominal value survives')
        E.close(new.std_dev, orig.std_dev, 'std_dev survives')
    E.check(cx.tag == x.tag and cy.tag == y.tag, 'tag survives')
    # correlations inside the pickle survive, and are cut from the originals
    for orig, new in ((u, cu), (z, cz)):
        for (v, w) in ((x, cx), (y, cy)):
            E.close(E.get_deriv(new, w), E.get_deriv(orig, v), 'derivative wrt the unpickled variable')
            E.check(v not in new.derivatives, 'unpickled objects do not depend on the originals')
    s = cx.std_dev
    x.std_dev = E.real('news', nonneg=True)
    E.close(cx.std_dev, s, 'unpickled variable is independent of the original')
    E.close((cu - cu).std_dev, 0.0, 'unpickled value is correlated with itself')
    k = E.real('k')
    E.close(E.get_deriv(cu * k + cx, cx), E.get_deriv(u, x) * k + 1, 'unpickled values can be used')


def pickled_single(E):
    x, y, u, z = build(E)
    o = E.choice('o', ['x', 'u'])
    orig = {'x': x, 'u': u}[o]
    new = pickle.loads(pickle.dumps(orig, E.p['proto']))
    E.close(new.nominal_value, orig.nominal_value, 'nominal value survives')
    E.close(new.std_dev, orig.std_dev, 'std_dev survives')
    E.close((new - orig).std_dev * (new - orig).std_dev, 2 * orig.std_dev * orig.std_dev,
            'separately pickled value is independent of the original')
    E.close(orig.nominal_value, {'x': E.real('x'), 'u': E.real('v')}[o], 'original untouched')


def copied_var(E):
    """The copy of a variable is a new, independent variable."""
    x, y, u, z = build(E)
    how = E.choice('how', ['copy', 'deepcopy', 'deeplist'])
    c = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'deeplist': lambda v: copy.deepcopy([v, v])}[how](x)
    if how == 'deeplist':
        c = c[0]
    E.close(c.nominal_value, x.nominal_value, 'same nominal value')
    E.close(c.std_dev, x.std_dev, 'same sigma')
    E.check(c.tag == x.tag, 'same tag')
    d = c - x
    E.close(E.get_deriv(d, c), 1.0, 'new variable')
    E.close(E.get_deriv(d, x), -1.0, 'independent of the original')
    if E.flag('which'):
        old = x.std_dev
        c.std_dev = E.real('news', nonneg=True)
        E.close(x.std_dev, old, 'changing the copy leaves the original')
    else:
        old = c.std_dev
        x.std_dev = E.real('news', nonneg=True)
        E.close(c.std_dev, old, 'changing the original leaves the copy')
    E.close(E.get_deriv(u, x), E.real('a'), 'functions of the original still depend on it')


def copied_func(E):
    """A shallow copy depends on the same variables; a deep copy on new ones, with the same uncertainty."""
    x, y, u, z = build(E)
    how = E.choice('how', ['copy', 'deepcopy', 'deeplist'])
    o = E.choice('o', ['u', 'z', 'fresh'])
    orig = {'u': u, 'z': z, 'fresh': u * 2 + x}[o]
    c = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'deeplist': lambda v: copy.deepcopy([v])[0]}[how](orig)
    E.check(c is not orig, 'a new object')
    E.close(c.nominal_value, orig.nominal_value, 'same nominal value')
    s0 = orig.std_dev
    E.close(c.std_dev * c.std_dev, s0 * s0, 'same std_dev')
    E.close((c - c).std_dev, 0.0, 'correlated with itself')
    d = c - orig
    if how == 'copy':
        for v in (x, y):
            E.close(E.get_deriv(c, v), E.get_deriv(orig, v), 'same derivatives')
        E.close(d.std_dev, 0.0, 'fully correlated with the original')
        x.std_dev = E.real('news', nonneg=True)
        E.close(c.std_dev * c.std_dev, orig.std_dev * orig.std_dev, 'follows the shared variable')
        # each can be combined without affecting the other
        t = c + x
        E.close(E.get_deriv(t, x), E.get_deriv(orig, x) + 1, 'use of the copy')
        E.close(E.get_deriv(orig, x), E.get_deriv(c, x), 'original unaffected')
    else:
        E.check(x not in c.derivatives and y not in c.derivatives, 'independent of the original variables')
        E.check(len(c.derivatives) == len(orig.derivatives), 'one new variable per original variable')
        E.close(d.std_dev * d.std_dev, 2 * s0 * s0, 'independent of the original')
        x.std_dev = E.real('news', nonneg=True)
        E.close(c.std_dev * c.std_dev, s0 * s0, 'does not follow the original variable')
    E.check(x in orig.derivatives, 'the original still depends on its variables')


def subclass(E):
    """Extra attributes of subclasses survive pickling."""
    class Sub(E.core.Variable):
        pass
    import sys
    me = sys.modules[__name__]
    Sub.__module__, Sub.__qualname__ = __name__, 'Sub'
    me.Sub = Sub
    s = Sub(E.real('x'), E.real('sx', nonneg=True), 't')
    s.extra = 'attr'
    c = pickle.loads(pickle.dumps(s, E.p['proto']))
    E.check(c.extra == 'attr' and c.tag == 't', 'attributes survive')
    E.close(c.nominal_value, s.nominal_value, 'nominal value')
    E.close(c.std_dev, s.std_dev, 'std_dev')

    class Sub2(Sub):
        __slots__ = ('more',)
    Sub2.__module__, Sub2.__qualname__ = __name__, 'Sub2'
    me.Sub2 = Sub2
    s = Sub2(E.real('x'), E.real('sx', nonneg=True))
    s.more, s.extra = E.real('m'), 3
    c = pickle.loads(pickle.dumps(s, E.p['proto']))
    E.close(c.more, s.more, 'slot attribute survives')
    E.check(c.extra == 3, 'dict attribute survives')

    # no __dict__ at all, several levels
    class Slots1(E.core.Variable):
        __slots__ = 'one'

    class Slots2(Slots1):
        __slots__ = ('two',)

    class Slots3(Slots2):
        __slots__ = ('three', 'unset')
    for cls in (Slots1, Slots2, Slots3):
        cls.__module__, cls.__qualname__ = __name__, cls.__name__
        setattr(me, cls.__name__, cls)
    s = Slots3(E.real('x'), E.real('sx', nonneg=True), 't')
    s.one, s.two, s.three = 1, E.real('m'), [3]
    c = pickle.loads(pickle.dumps(s, E.p['proto']))
    E.close(c.nominal_value, s.nominal_value, 'nominal value')
    E.close(c.std_dev, s.std_dev, 'std_dev')
    E.close(c.two, s.two, 'slot attribute survives')
    E.check(c.tag == 't' and c.one == 1 and c.three == [3] and not hasattr(c, 'unset'), 'slot attributes survive')
    E.close(E.get_deriv(c + c, c), 2.0, 'usable')


DUP = {'deepcopy': copy.deepcopy, 'pickle': lambda o: pickle.loads(pickle.dumps(o)), 'pickle1': lambda o: pickle.loads(pickle.dumps(o, 1)),
       'twice': lambda o: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o, 0))))}


def collection(E):
    """Larger collections, of any kind: pickles keep the correlations inside, deep copies are independent."""
    how = E.choice('dup', sorted(DUP))
    dup = DUP[how]
    form = E.choice('form', ['list', 'tuple', 'dict', 'nested', 'array', 'matrix', 'object', 'frozen'])
    n, m = E.choice('size', [(1, 2), (3, 4), (7, 30)])
    vs = [E.u.ufloat(E.real('x%d' % (i % 3)), E.real('s%d' % (i % 2), nonneg=True), 'tag%d' % i if i % 2 else None) for i in range(n)]
    k = E.real('k')
    rows = [[((i * j + 2 * i + j) % 5 - 1) * 0.5 for j in range(n)] for i in range(m)]
    us = [sum([c * v for c, v in zip(r, vs)], 0.0) * (k if i % 2 else 1) for i, r in enumerate(rows)]
    fs = [k if i % 2 else 1.0 for i in range(m)]
    if E.flag('queried'):
        us[0].std_dev, us[-1].derivatives
    items = vs + us
    if form == 'dict':
        new = dup({str(i): t for i, t in enumerate(items)})
        new = [new[str(i)] for i in range(n + m)]
    elif form == 'nested':
        a, (b, c) = dup([items[0], (items[1], [items[2:]])])
        new = [a, b] + c[0]
    elif form in ('array', 'matrix'):
        a = E.np.array(items, dtype=object).reshape(1, n + m)
        b = dup(a.view(E.unumpy.matrix) if form == 'matrix' else a)
        E.check(isinstance(b, E.unumpy.matrix) == (form == 'matrix') and b.shape == (1, n + m), 'array type')
        new = list(b.flat) if form == 'array' else [b[0, i] for i in range(n + m)]
    elif form == 'object':
        h = Holder()
        h.a, h.b, h.c = items[0], items, items[0]
        g = dup(h)
        new = g.b
        E.check(g.a is new[0] and g.c is new[0], 'identity')
    elif form == 'frozen':
        s = dup(frozenset(vs))
        E.check(len(s) == n, 'set')
        E.check(sorted(w.tag or '' for w in s) == sorted(v.tag or '' for v in vs), 'tags')
        E.check(all(w in s for w in s) and not any(v in s for v in vs), 'new variables')
        return
    else:
        new = dup(list(items) if form == 'list' else tuple(items))
        E.check(type(new) is (list if form == 'list' else tuple), 'type')
    ws, ts = new[:n], new[n:]
    for v, w in zip(vs, ws):
        E.check(type(w) is type(v) and w.tag == v.tag and w is not v, 'variable')
        E.close(w.nominal_value, v.nominal_value, 'nominal value')
        E.close(w.std_dev, v.std_dev, 'sigma')
    for u, t, r, f in zip(us, ts, rows, fs):
        E.close(t.nominal_value, u.nominal_value, 'nominal value')
        d = t.derivatives
        if how == 'deepcopy':
            E.check(not any(v in d for v in vs), 'independent of the originals')
            E.close(t.std_dev ** 2, sum(((c * f * v.std_dev) ** 2 for c, v in zip(r, vs)), 0.0), 'sigma')
            continue
        E.check(all(any(x is w for w in ws) for x in d), 'depends on the copied variables only')
        for w, c in zip(ws, r):
            E.close(d.get(w, 0.0), c * f, 'derivative')
    for u, r, f in zip(us, rows, fs):
        for v, c in zip(vs, r):
            E.close(E.get_deriv(u, v), c * f, 'original untouched')


class Holder(object):
    pass


def chain(E):
    """Long calculations, queried or not, can be copied."""
    x, y = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True)), E.u.ufloat(E.real('y'), E.real('sy', nonneg=True))
    n = E.choice('n', [10, 600, 5000])
    k = E.real('k')
    t = x * k
    for i in range(n):
        t = t + y if i % 3 else t + 1.0
    ny = sum(1 for i in range(n) if i % 3)
    other = E.u.ufloat(1, 1)
    if E.flag('queried'):
        t.std_dev
    dup = E.choice('dup', ['copy'] + sorted(DUP))
    c, cx, cy = (copy.copy(t), x, y) if dup == 'copy' else DUP[dup]([t, x, y])
    for u, vx, vy in ((c, cx, cy), (t, x, y)):
        E.close(u.nominal_value, t.nominal_value, 'nominal value')
        if dup == 'deepcopy' and u is c:
            E.check(not any(v in c.derivatives for v in (x, y)), 'independent of the originals')
            continue
        E.close(E.get_deriv(u, vx), k, 'derivative')
        E.close(E.get_deriv(u, vy), float(ny), 'derivative')
        E.check(len(u.derivatives) == 2, 'variables')
        E.raises(KeyError, lambda: u.derivatives[other], 'unrelated variable')
    E.close(c.std_dev ** 2, k * k * x.std_dev ** 2 + ny * ny * y.std_dev ** 2, 'sigma')


def tasks(tier):
    T = []
    for p in range(0, pickle.HIGHEST_PROTOCOL + 1):
        T.append(Task(pickled, {'proto': p}))
        T.append(Task(pickled_single, {'proto': p}))
        T.append(Task(subclass, {'proto': p}))
    T += [Task(collection), Task(chain), Task(copied_var), Task(copied_func)]
    return T
