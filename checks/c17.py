"""C17: path expressions of the C interface."""

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of token words, of paths over every kind of index, of byte changes and truncations and of placeholder arguments, executed on the real evaluator and compared with a reference'
NOTE = 'The evaluator runs on texts in exactly sized allocations under AddressSanitizer; the reference walks a plain tree. Every typed variant is called for every expression.'
RULE = 'a case is one expression text on one root with all combinations of its arguments; non-trivial when it addresses a value'
BOUNDS = {
    'quick': 'words of up to 5 of 14 tokens and 4 of 27 on 3 roots; paths of up to 2 of 76 indices on 11 roots with all argument combinations of 9 integers or 7 strings, 3 separators; every byte over and into every place of 10 texts on 11 roots; all 5^1..5^6 sequences of placeholders',
    'thorough': 'words of up to 6 of 12 tokens, 5 of 20, 4 of 27; paths of up to 3 indices on 3 roots; as quick otherwise, with sequences of 8 placeholders',
}
NEEDS = ['c:eval:asan']
ASSUMPTIONS = ['double quotes and blanks before an index are not specified: both answers pass',
               'an integer beyond 32 bits in a 64-bit vector cannot be returned and is refused',
               'whether as_u32 accepts a non-negative value stored as signed is not specified']


def tasks(tier):
    v = 'c:eval:asan'
    t = []

    def c(name, *argv):
        t.append((name, dict(variant=v, argv=list(argv), case_cpu_s=20)))
    full = tier == 'thorough'
    for r in range(3):
        if full:
            c('words', 6, 12, r)
            c('words', 5, 20, r)
        c('words', 5, 14, r)
        c('words', 4, 27, r)
    for r in range(11):
        c('paths', 2, r, r + 1)
    if full:
        for r in range(3):
            c('paths', 3, r, r + 1)
    c('bytes')
    c('order', 8 if full else 6)
    return t


def run(name, args, rec):
    raise AssertionError('no Python tasks')
