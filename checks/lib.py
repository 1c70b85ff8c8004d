"""Shared reference model: plain-Python normal form of values, and the same
normal form of whatever an opened file returns, read through the public API
only. Normal form:
  scalars       ('n',) ('b', 0/1) ('i', int) ('f', float32 bits) ('s', text)
  vectors       ('v', [..])     bitvectors ('B', bits)
  sets          ('S', [..])     maps ('M', [(k, v), ..])      unordered
"""
import itertools
import os
import struct

import pointless as P

PV, PS, PM, PB, PPV = P.PointlessVector, P.PointlessSet, P.PointlessMap, P.PointlessBitvector, P.PointlessPrimVector

PRIM_RANGE = {
    'i8': (-2**7, 2**7 - 1), 'u8': (0, 2**8 - 1), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1),
    'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1),
}
PRIM_SIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f': 4}


class Unsupported(Exception):
    """the value is outside the domain that serialisation supports"""


def f32bits(x):
    """bits of x narrowed to a 32-bit float; every NaN is one value"""
    if x != x:
        return 0x7fc00000
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def f32(x):
    return struct.unpack('<f', struct.pack('<I', f32bits(x)))[0]


class Bits:
    """description of a bitvector: a list of booleans"""
    def __init__(self, bits):
        self.bits = tuple(bool(b) for b in bits)

    def make(self):
        return PB(sequence=list(self.bits))

    def __repr__(self):
        return 'Bits(%r)' % ''.join('01'[b] for b in self.bits)


class Prim:
    """description of a primitive vector"""
    def __init__(self, tc, items):
        self.tc, self.items = tc, tuple(items)

    def make(self):
        return PPV(self.tc, sequence=list(self.items))

    def __repr__(self):
        return 'Prim(%r, %r)' % (self.tc, list(self.items))


def bits_of(bv):
    return tuple(1 if bv[i] else 0 for i in range(len(bv)))


def realise(d, memo=None):
    """description -> live object (Bits and Prim become the extension's types)"""
    if isinstance(d, (Bits, Prim)):
        return d.make()
    if type(d) is list:
        return [realise(x) for x in d]
    if type(d) is tuple:
        return tuple(realise(x) for x in d)
    if type(d) is dict:
        return {realise(k): realise(v) for k, v in d.items()}
    return d


def norm(v):
    """expected normal form of a description / live Python value"""
    if v is None:
        return ('n',)
    if isinstance(v, bool):
        return ('b', int(v))
    if isinstance(v, int):
        if not -2**31 <= v < 2**32:
            raise Unsupported(v)
        return ('i', int(v))
    if isinstance(v, float):
        return ('f', f32bits(v))
    if isinstance(v, str):
        if '\0' in v:
            raise Unsupported(v)
        return ('s', v)
    if isinstance(v, (list, tuple)):
        return ('v', [norm(x) for x in v])
    if isinstance(v, dict):
        return ('M', [(norm(a), norm(b)) for a, b in v.items()])
    if isinstance(v, (set, frozenset)):
        return ('S', [norm(x) for x in v])
    if isinstance(v, bytearray):
        return ('v', [('i', x) for x in v])
    if isinstance(v, Prim):
        return ('v', [('f', f32bits(x)) if v.tc == 'f' else ('i', x) for x in v.items])
    if isinstance(v, Bits):
        return ('B', tuple(int(b) for b in v.bits))
    if isinstance(v, PPV):
        return ('v', [('f', f32bits(x)) if v.typecode == 'f' else ('i', x) for x in v])
    if isinstance(v, PB):
        return ('B', bits_of(v))
    raise Unsupported(type(v))


def got(v):
    """normal form of a value read from an opened file"""
    if v is None:
        return ('n',)
    t = type(v)
    if t is bool:
        return ('b', int(v))
    if t is int:
        return ('i', v)
    if t is float:
        return ('f', f32bits(v))
    if t is str:
        return ('s', v)
    if t is PV:
        a = [got(x) for x in v]
        if len(a) != len(v):
            return ('?', 'vector length %d, %d items iterated' % (len(v), len(a)))
        return ('v', a)
    if t is PM:
        a = [(got(k), got(x)) for k, x in v.items()]
        if len(a) != len(v):
            return ('?', 'map length %d, %d items iterated' % (len(v), len(a)))
        return ('M', a)
    if t is PS:
        a = [got(x) for x in v]
        if len(a) != len(v):
            return ('?', 'set length %d, %d items iterated' % (len(v), len(a)))
        return ('S', a)
    if t is PB:
        return ('B', bits_of(v))
    return ('?', 'unexpected type %s' % t)


def canon(n):
    """order-free hashable form"""
    k = n[0]
    if k == 'v':
        return ('v', tuple(canon(x) for x in n[1]))
    if k == 'S':
        return ('S', tuple(sorted((canon(x) for x in n[1]), key=repr)))
    if k == 'M':
        return ('M', tuple(sorted(((canon(a), canon(b)) for a, b in n[1]), key=repr)))
    return n


def same(a, b):
    return canon(a) == canon(b)


def show(n, limit=500):
    s = repr(n)
    return s if len(s) <= limit else s[:limit] + '...'


def raises(fn, *a, **k):
    """-> (True, exception) or (False, value). A SystemError is the
    interpreter reporting that the extension broke its calling rules."""
    try:
        return False, fn(*a, **k)
    except Exception as e:
        return True, e.with_traceback(None)


def tmpdir():
    d = os.environ.get('MC_TMP') or '/tmp'
    # file routes do not need a real disk
    return d


ASCII = ['', 'a', 'ab', 'zz~']
LATIN = ['\xe9', 'a\xff']
UCS2 = ['\u0100', 'a\u4e2d\uffff']
UCS4 = ['\U0001f600', 'a\xe9\u4e2d\U0010ffff']
STRINGS = ASCII + LATIN + UCS2 + UCS4
INTS = [0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
        2**31 - 1, 2**31, -2**31, 2**32 - 1]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e300, float('inf'), float('-inf'), float('nan'), 16777217.0, 1e-46]


def bit_forms():
    """bit patterns on both sides of every boundary between stored forms"""
    out = []
    for s in ['', '0', '1', '00', '11', '01', '10', '010', '101', '0110', '00111', '11100', '1101', '10110']:
        out.append(Bits([c == '1' for c in s]))
    for n in (27, 28, 32, 33, 64, 65):
        out.append(Bits([0] * n))
        out.append(Bits([1] * n))
        out.append(Bits([1] + [0] * (n - 1)))
        out.append(Bits([0] * (n - 1) + [1]))
        out.append(Bits([i % 2 for i in range(n)]))
        out.append(Bits([i % 3 == 0 for i in range(n)]))
    return out
