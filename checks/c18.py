"""C18: the lookup and iteration helpers of the C interface."""

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of small sets and maps over a pool of keys with prefix, sign, width, type and hash-collision variants, each probed with every key of the pool and every integer variant through every helper, on the real code'
NOTE = 'Each container is built through the creation interface, opened with validation, and compared entry by entry with a reference model that knows only values; strings of one hash are found by search, integers are taken from the hashes of other keys.'
RULE = 'a case is one container with all probes, or one container against all others; non-trivial when it could be built'
BOUNDS = {
    'quick': 'about 43 storable keys, 59 probes, about 230 integers: all sets and maps of up to 3 keys in one of 3 styles; tables of 4 kinds of every size to 130; 64 values under 4 keys for the typed helpers; all pairs of 116 containers for has_same_keys',
    'thorough': 'as quick, with all sets and maps of up to 4 keys and every size to 400',
}
NEEDS = ['c:lookup:asan']
ASSUMPTIONS = ['whether the integer helpers find an equal float or boolean key, and whether string_to_vector accepts a vector of values, is not specified: both answers pass']


def tasks(tier):
    full = tier == 'thorough'
    v = 'c:lookup:asan'
    t = []
    n = 32
    for i in range(n):
        t.append(('subsets', dict(variant=v, argv=[4 if full else 3, i, n], case_cpu_s=20)))
    t.append(('sizes', dict(variant=v, argv=[int(full)], case_cpu_s=20)))
    t.append(('values', dict(variant=v, argv=[], case_cpu_s=20)))
    for i in range(4):
        t.append(('pairs', dict(variant=v, argv=[i, 4], case_cpu_s=20)))
    return t


def run(name, args, rec):
    raise AssertionError('no Python tasks')
