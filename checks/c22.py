"""C22: checked arithmetic and the arithmetic expression evaluator."""

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of operands at every overflow boundary, of expression texts, trees and histories of a context, executed on the real code and compared with a reference evaluator on 128-bit integers'
NOTE = 'Overflow marks are monotone in each operand, so each first operand is checked at the two sides of its boundary; for 32 bits all first operands are. Expressions: all token words, all chains and trees of bounded size, and all pairs of texts compiled in one context.'
RULE = 'a case is one expression text, one first operand with all second operands, or one history followed by every short text; non-trivial when an expression of it is well-formed with a value'
BOUNDS = {
    'quick': 'operations: all pairs of about 700 boundary values with all marks, all 2^32 first operands of 32 bits at both boundaries of sum and product, chains of 4; texts of up to 5 of 14 tokens, 6 of 9; chains of 3 operators over 8 values and 4 over 4; trees of 3 operators over 6 values; all pairs of texts of up to 3 of 9 tokens in one context, 256+11 contents of the context; texts at the limits',
    'thorough': 'as quick, with texts of 6 of 14 tokens and 7 of 9, chains of 4 operators over 8 values and 5 over 4, trees of 4 operators over 5 values',
}
NEEDS = ['c:ops:asan', 'c:ops:fast']
ASSUMPTIONS = ['refusals of texts of 512 or more tokens or of numbers of more than 30 digits are within the declared limits of the evaluator',
               'variables are documented as not supported yet: texts with one are refused']


def tasks(tier):
    t = []

    def c(*argv, **kw):
        t.append((argv[0], dict(variant='c:ops:' + kw.get('v', 'asan'), argv=list(argv[1:]), case_cpu_s=kw.get('cpu', 20))))
    full = tier == 'thorough'
    c('words', 7 if full else 6, 9)
    c('words', 6 if full else 5, 14)
    c('flat', 4 if full else 3, 8, 0)
    c('flat', 5 if full else 4, 4, 0)
    c('flat', 3, 6, 1)
    c('trees', 3, 6)
    if full:
        c('trees', 4, 5)
    c('ops')
    c('history', 3)
    c('limits')
    for i in range(16):
        c('sweep', i, 16, v='fast')
    return t


def run(name, args, rec):
    raise AssertionError('no Python tasks')
