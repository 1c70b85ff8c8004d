"""Representations: every way this library can hold one abstract value.
Abstract values are plain hashable Python values (numbers, strings, None,
tuples) and lib.Bits."""
import itertools

from checks import lib
import pointless as P

ISNUM = (int, float)


def fits(tc, items):
    if tc == 'f':
        return all(type(x) is float for x in items)
    lo, hi = lib.PRIM_RANGE[tc]
    return all(type(x) is int and lo <= x <= hi for x in items)


def has_bits(d):
    return isinstance(d, lib.Bits) or (isinstance(d, tuple) and any(has_bits(x) for x in d))


def big(d):
    """holds an integer that only 64-bit primitive vectors can hold"""
    if isinstance(d, tuple):
        return any(big(x) for x in d)
    return type(d) is int and not -2**31 <= d < 2**32


def listify(d):
    return [listify(x) for x in d] if isinstance(d, tuple) else d


def primify(d):
    """tuples of numbers become primitive vectors, inside out"""
    if isinstance(d, tuple):
        for tc in ('u64', 'i64', 'f'):
            if d and fits(tc, d):
                return lib.Prim(tc, d)
        return tuple(primify(x) for x in d)
    return d


def read(x):
    return P.Pointless(P.serialize_to_bytearray(x)).GetRoot()


PADS = ((), (70000, -1), ('x',), (1.5,), (None, 2**32 - 1), (300,), (-1,))


def reps(d, live=True, nested=True, pads=PADS):
    """[(name, object)]; objects are alive or read, all of value d"""
    out = []
    r = lib.realise
    if not isinstance(d, tuple):
        out.append(('live', r(d)))
        if big(d):
            return out
        out.append(('read', read(r(d))))
        out.append(('read item', read([r(d), 'x'])[0]))
        out.append(('read item of tuple', read((None, r(d)))[1]))
        if isinstance(d, lib.Bits):
            n = r(d)
            out.append(('read from map', read({'k': n})['k']))
            # the same bits reached by mutation: spare capacity holds ones
            m = P.PointlessBitvector(sequence=list(d.bits) + [True] * 40)
            for _ in range(40):
                m.pop()
            out.append(('shrunk', m))
            out.append(('shrunk read', read(m)))
            out.append(('copy', P.PointlessBitvector(sequence=list(d.bits)).copy() if hasattr(n, 'copy') else n))
            m = P.PointlessBitvector(0)
            for b in d.bits:
                m.append(b)
            out.append(('appended', m))
        return out
    if live and not big(d):
        out.append(('live', r(d)))
    for tc in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f'):
        if fits(tc, d):
            pv = lib.Prim(tc, d).make()
            out.append((tc, pv))
            out.append(('read ' + tc, read(pv)))
            out.append(('read item ' + tc, read(['x', pv])[1]))
            w = lib.Prim(tc, d + d + d[:1]).make() if d else lib.Prim(tc, [1.0] if tc == 'f' else [1]).make()
            s = read(w)
            out.append(('slice ' + tc, s[len(d):2 * len(d)]))
            out.append(('pv slice ' + tc, w[len(d):2 * len(d)]))
    if big(d):
        if nested and any(isinstance(x, tuple) for x in d):
            out.append(('prim inside', tuple(r(primify(x)) for x in d)))
            out.append(('read prim inside', read(tuple(r(primify(x)) for x in d))))
        return out
    out.append(('read tuple', read(r(d))))
    out.append(('read list', read(list(r(d)))))
    out.append(('read item', read([r(d), 'x'])[0]))
    if not has_bits(d):
        k = next(iter(read({r(d): 0})))
        out.append(('read key', k))
        out.append(('read set item', next(iter(read({r(d)})))))
    for p in pads:
        if not p:
            continue
        for a, b in ((p, p), (p, ()), ((), p)):
            v = read(r(a + d + b))
            out.append(('slice %r %r' % (a, b), v[len(a):len(a) + len(d)]))
    v = read(r(('x',) + d + d + (7,)))
    out.append(('slice of slice', v[1:][len(d):][:len(d)]))
    if nested and any(isinstance(x, tuple) for x in d):
        out.append(('prim inside', tuple(r(primify(x)) for x in d)))
        out.append(('read prim inside', read(tuple(r(primify(x)) for x in d))))
        v = read(r(d))
        out.append(('live of read', tuple(x for x in v)))
        out.append(('list inside', tuple(read(listify(r(x))) if isinstance(x, tuple) else r(x) for x in d)))
    return out
