from props import codes
from props.codes import parse, blind, scope, from_, super_, subs, excl
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR with the previous code as an unknown (noninterference of the stale value), bit-level and affine value domain'
NOTE = 'The previous code is an unconstrained unknown, so independence from it is shown for all values; the inputs are the shared grid of C04, plus completely unknown characters up to 7 (a code is always stored). A few of the longest unknown-character cells are undecided and counted.'
RULE = ('Entry: the call twice, with two different unknown values left in the code variable; both must end with the same documented code and the same object, on every path.')
ASSUME = ['operator new does not fail']


def cells(tier):
    return codes.cells(tier, (1,), ['cpp20', 'cpp11', 'noexc20'] if tier == 'quick' else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc11', 'noexc20', 'nospace', 'utf8char', 'scope0'])
