"""Finite enumerations of grammars and texts."""
import itertools

A = ('t', 'a')
B = ('t', 'b')
C = ('t', 'c')

UNARY = (
    ('opt', False), ('opt', True),
    ('rep', 0, 0, False), ('rep', 0, 0, True),
    ('rep', 2, 0, False), ('rep', 0, 2, False),
    ('rep', 2, 3, False), ('rep', 0, 2, True),
)
UNARY_MORE = UNARY + (
    ('rep', 1, 0, False), ('rep', 2, 0, True), ('rep', 1, 1, False),
    ('rep', 0, 3, False), ('rep', 2, 2, False), ('rep', 2, 3, True),
    ('rep', 1, 2, True), ('rep', 0, 1, False),
)


def wrap(unary, ast):
    return (unary[0], ast) + tuple(unary[1:])


def words(alphabet, low, high):
    for size in range(low, high + 1):
        for word in itertools.product(alphabet, repeat=size):
            yield ''.join(word)


def asts(size, leafs=(A, B), unary=UNARY, memo=None):
    """All ASTs with exactly `size` nodes (terminals, unary, binary)."""
    if memo is None:
        memo = {}
    if size in memo:
        return memo[size]
    if size == 1:
        result = list(leafs)
    else:
        result = [
            wrap(_, item)
            for item in asts(size - 1, leafs, unary, memo)
            for _ in unary
        ]
        for left in range(1, size - 1):
            for first in asts(left, leafs, unary, memo):
                for second in asts(size - 1 - left, leafs, unary, memo):
                    result.append(('seq', (first, second)))
                    result.append(('or', (first, second)))
    memo[size] = result
    return result


def first_letter(ast):
    while ast[0] != 't':
        if ast[0] in ('seq', 'or'):
            ast = ast[1][0]
        elif ast[0] in ('opt', 'rep', 'named'):
            ast = ast[1]
        else:
            return None
    return ast[1]


def canonical_asts(low, high, **kwargs):
    """Up to renaming a <-> b."""
    memo = {}
    for size in range(low, high + 1):
        for ast in asts(size, memo=memo, **kwargs):
            if first_letter(ast) == 'a':
                yield ast


def towers(depth, base, unary):
    """Chains of extensions over a base rule."""
    for chain in itertools.product(unary, repeat=depth):
        ast = base
        for item in reversed(chain):
            ast = wrap(item, ast)
        yield ast


def wide(items, low, high):
    """Sequences and choices of more than two items."""
    for size in range(low, high + 1):
        for chosen in itertools.product(items, repeat=size):
            yield ('seq', chosen)
            yield ('or', chosen)


def nest(ast, depth):
    """Names keep the levels from being flattened."""
    for level in range(depth):
        ast = ('named', ('seq', (ast,)), 'N%d' % level)
    return ast


def contexts(x):
    """Grammars with several occurrences of one shared rule x = $0."""
    X = ('ref', 0)
    D = ('t', 'd')
    yield 'XX', ('seq', (X, X))
    yield 'X|X', ('or', (X, X))
    yield 'XaX', ('seq', (X, A, X))
    yield 'X?X', ('seq', (('opt', X, False), X))
    yield 'X+X', ('seq', (('rep', X, 0, 0, False), X))
    yield 'X{2}|X', ('or', (('rep', X, 2, 2, False), X))
    yield '(X a)|(X b)', ('or', (('seq', (X, A)), ('seq', (X, B))))
    for depth in (1, 2, 3):
        yield 'Xd|%d(X c)' % depth, ('or', (
            ('named', ('seq', (X, D)), 'Z'),
            ('seq', (nest(('seq', (X, C)), depth), C)),
        ))
        yield '%d(X c)|Xd' % depth, ('or', (
            ('seq', (nest(('seq', (X, C)), depth), C)),
            ('named', ('seq', (X, D)), 'Z'),
        ))
        yield 'X %d(X) c' % depth, ('seq', (X, nest(X, depth), C))
        yield '%d(X) X c' % depth, ('seq', (nest(X, depth), X, C))


def productions(symbols, high):
    for size in range(high + 1):
        for terms in itertools.product(symbols, repeat=size):
            yield terms


def cfgs(forwards, high, alternatives, letters=(A, B)):
    """All grammars with the given number of forwards, each defined by up to
    `alternatives` productions of at most `high` terms."""
    symbols = tuple(letters) + tuple(('ref', _) for _ in range(forwards))
    options = []
    items = [
        ('seq', _) if _ else ('empty',)
        for _ in productions(symbols, high)
    ]
    for count in range(1, alternatives + 1):
        for chosen in itertools.product(items, repeat=count):
            if len(set(chosen)) < count:
                continue
            options.append(
                chosen[0] if count == 1 else ('or', tuple(chosen))
            )
    for defs in itertools.product(options, repeat=forwards):
        yield (('ref', 0), tuple(('fwd', _) for _ in defs))


def uses(ast):
    if ast[0] in ('seq', 'or'):
        return set().union(*(uses(_) for _ in ast[1]))
    if ast[0] in ('opt', 'rep', 'named'):
        return uses(ast[1])
    return {ast[1]} if ast[0] == 'ref' else set()


def reachable(grammar):
    root, defs = grammar
    seen = set()
    queue = list(uses(root))
    while queue:
        index = queue.pop()
        if index not in seen:
            seen.add(index)
            queue.extend(uses(defs[index][1]))
    return seen == set(range(len(defs)))


def sizes(limit, full=20):
    """All sizes up to full, then those around powers of 2 and round numbers."""
    numbers = set(range(1, min(full, limit) + 1))
    for base in (2, 10):
        power = base
        while power <= limit * 2:
            for factor in ((1,) if base == 2 else (1, 2, 5)):
                numbers.update((factor * power - 1, factor * power, factor * power + 1))
            power *= base
    return [_ for _ in sorted(numbers) if 0 < _ <= limit]
