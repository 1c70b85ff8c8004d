"""C23: any sequence of C creation calls yields the described file."""

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all creation programs up to a length, each executed on the real code and its output compared with a model of the handles (content, sharing, cycles, refusals, memory)'
NOTE = 'The model is a table of handles, built by the same calls; every program is executed with every container as root, opened with validation and compared as a graph. All memory is accounted for after every execution.'
RULE = 'a case is one program with all its roots, or one scenario; all are non-trivial'
BOUNDS = {
    'quick': 'programs of 5 container calls (vector, set, map, append, add, put, store) over 2 leaves and up to 3 containers, two leaf sets; all pairs of 97 leaf calls in 7 programs; all triples of 30; every typed vector, string and bitvector of up to 20 items among neighbours; all integers -700..5000; 1,600 bitvectors with stray bits and long runs; refused calls; tables of up to 150 entries; a sample of the pairs also to files',
    'thorough': 'programs of 6 calls, of 5 over 3 leaves, all triples of 60 leaves, sizes up to 70, tables to 600, all pairs to files',
}
NEEDS = ['c:create:asan']
ASSUMPTIONS = ['a set or map with equal or unhashable keys which the root does not reach may make output fail or not', 'the 32-bit offset format may be refused', 'strings beyond the width a call documents are outside the domain']


def tasks(tier):
    full = tier == 'thorough'
    v = 'c:create:asan'
    t = []
    n = 8
    for s in (0, 1):
        for i in range(n):
            t.append(('programs', dict(variant=v, argv=[6 if full else 5, i, n, s], case_cpu_s=20)))
    if full:
        for i in range(n):
            t.append(('programs', dict(variant=v, argv=[5, i, n, 2], case_cpu_s=20)))
    for i in range(8):
        t.append(('pairs', dict(variant=v, argv=[i, 8], case_cpu_s=20)))
    for i in range(8):
        t.append(('triples', dict(variant=v, argv=[i, 8, 60 if full else 30], case_cpu_s=20)))
    if full:
        for i in range(16):
            t.append(('files', dict(variant=v, argv=[i, 16], case_cpu_s=20)))
    else:
        t.append(('files', dict(variant=v, argv=[13, 97], case_cpu_s=20)))
    t.append(('sizes', dict(variant=v, argv=[70 if full else 20], case_cpu_s=20)))
    t.append(('ints', dict(variant=v, argv=[], case_cpu_s=20)))
    t.append(('misuse', dict(variant=v, argv=[], case_cpu_s=20)))
    t.append(('counts', dict(variant=v, argv=[600 if full else 150], case_cpu_s=20)))
    return t


def run(name, args, rec):
    raise AssertionError('no Python tasks')
