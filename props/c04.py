from props import codes
from props.codes import parse, scope, from_, super_, subs, excl
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR including its exception edges; the throwing overload against its code-reporting twin'
NOTE = 'Texts are word classes (every valid/invalid shape of C06-C09 plus malformed code units); addresses are unknown bits with the stated host-bit pattern; prefixes all 0..width plus out-of-range values; the supernet/subnets/exclude arguments a grid. Unlisted grid points are not covered.'
RULE = ('Entry: the code-reporting call; on failure its result is compared with the default object (neutral), and the throwing twin is called on the same input: it throws exactly when a failure was stored, parse_error or logic_error as documented for the code, with the same code, else it returns the same object.')
ASSUME = ['operator new does not fail']


def cells(tier):
    yield from codes.cells(tier, (2, 3), ['cpp20', 'cpp11'] if tier == 'quick' else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'nospace', 'utf8char', 'scope0'])
    yield from codes.cells(tier, (2,), ['noexc20'] if tier == 'quick' else ['noexc11', 'noexc20'])
