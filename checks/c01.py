"""C01: match() accepts exactly the language of the rule."""
import itertools

from mc.core import Check, Family, Mismatch, Known
from mc import gram, enum
from mc.yg import Parser, PLAIN, text_of

P1 = 'min-bound-over-repeatable'


def has_p1(grammar):
    root, defs = grammar
    for top in [root] + [ast for _, ast in defs]:
        for ast in gram.walk(top):
            if ast[0] == 'rep' and (ast[2] or 1) > 1:
                child = ast[1]
                while child[0] == 'ref' and defs[child[1]][0] == 'share':
                    child = defs[child[1]][1]
                # the bound may meet the repeatable only after squashing
                if gram.squash(child, defs)[0] == 'rep':
                    return True
    return False


def deviates(grammar, letters):
    """Is it the recorded finding: bounds over x+ are dropped by squashing?"""
    if not has_p1(grammar):
        return None
    root, defs = gram.squash_grammar(grammar)
    squashed = (
        gram.language_of(root),
        tuple((kind, gram.language_of(ast)) for kind, ast in defs)
    )
    return gram.accepts(squashed, letters)


def check_match(parser, grammar, letters, counter):
    expected = gram.accepts(grammar, letters) and len(letters) > 0
    match = parser.match(text_of(letters))
    counter.trace()
    actual = match is not None
    if actual:
        values = [_.value for _ in match.tokens]
        if values != list(letters):
            raise Mismatch(
                'match() of %r does not cover the text: %r' % (letters, values),
                grammar=gram.show_grammar(grammar)
            )
    if actual != expected:
        message = 'match(%r) is %s, the rule %s' % (
            text_of(letters), 'a match' if actual else 'None',
            'derives it' if expected else 'does not derive it'
        )
        if deviates(grammar, letters) == actual:
            raise Known(P1, message)
        raise Mismatch(message, grammar=gram.show_grammar(grammar))


def run_grammar(words):
    def run(case, counter):
        grammar = gram.number_grammar(case)
        rule = gram.build(grammar)
        parser = Parser(rule, tokenizer=PLAIN)
        counter.step()
        known = None
        for letters in words:
            counter.state(case, letters)
            counter.step()
            try:
                check_match(parser, grammar, letters, counter)
            except Known as error:
                known = error
        if known:
            raise known
    return run


def simple(low, high, **kwargs):
    def cases():
        for ast in enum.canonical_asts(low, high, **kwargs):
            yield (ast, ())
    return cases


BASES = (
    enum.A,
    ('seq', (enum.A, enum.B)),
    ('or', (enum.A, ('seq', (enum.A, enum.B)))),
)
# number of derivations grows fast when every part may be empty
EMPTY_BASES = (
    ('seq', (('opt', enum.A, False), ('opt', enum.B, False))),
    ('seq', (('opt', enum.A, False), ('opt', enum.A, True))),
)


def towers(depth, unary, bases=BASES):
    def cases():
        for base in bases:
            for tower in enum.towers(depth, base, unary):
                yield (tower, ())
    return cases


def pairs(depth, unary):
    # two different extensions side by side, in sequence and in choice
    def cases():
        items = [
            _ for size in range(1, depth + 1)
            for _ in enum.towers(size, enum.A, unary)
        ]
        others = [
            _ for size in range(1, depth + 1)
            for _ in enum.towers(size, enum.B, unary)
        ]
        for first in items:
            for second in others:
                yield (('seq', (first, second)), ())
    return cases


def shared(low, high, kind='share', **kwargs):
    def cases():
        memo = {}
        for size in range(low, high + 1):
            for ast in enum.asts(size, memo=memo, **kwargs):
                for _, context in enum.contexts(ast):
                    yield (context, ((kind, ast),))
    return cases


def cfgs(forwards, high, alternatives):
    def cases():
        for grammar in enum.cfgs(forwards, high, alternatives):
            if enum.reachable(grammar):
                yield grammar
    return cases


PIECES = (
    enum.A,
    ('opt', enum.A, False),
    ('or', (enum.A, enum.B)),
    ('rep', enum.A, 0, 0, False),
    ('or', (enum.A, ('seq', (enum.A, enum.A)))),
    ('or', (('named', enum.A, 'X'), ('named', enum.A, 'Y'))),
    ('opt', ('named', ('seq', (enum.A, enum.B)), 'Z'), True),
    ('rep', enum.B, 0, 2, True),
)


def wide(low, high, pieces=PIECES):
    def cases():
        for ast in enum.wide(pieces, low, high):
            yield (ast, ())
            if ast[0] == 'or':
                yield (('seq', (ast, enum.B)), ())
            else:
                yield (('or', (ast, ('seq', (enum.A, enum.A)))), ())
    return cases


FORWARD_BODIES = (
    enum.A,
    ('seq', (enum.A, ('ref', 0))),
    ('seq', (('ref', 0), enum.A)),
    ('seq', (enum.A, ('opt', ('ref', 0), False))),
    ('or', (enum.A, ('seq', (enum.B, ('ref', 0), enum.B)))),
    ('named', ('ref', 0), 'M'),
    ('or', (enum.A, ('named', ('ref', 0), 'M'))),
)
# number of derivations grows fast, even without cycles
HEAVY_BODIES = (
    ('or', (enum.A, ('seq', (('ref', 0), ('ref', 0))))),
    ('seq', (('opt', enum.A, False), ('opt', ('ref', 0), False))),
)


def forward_contexts(bodies, depths):
    # forwards defined by every kind of rule, used in every kind of place
    uses = (
        ('ref', 0),
        ('seq', (('ref', 0), enum.B)),
        ('opt', ('ref', 0), False),
        ('rep', ('ref', 0), 0, 0, False),
        ('rep', ('ref', 0), 2, 0, False),
        ('rep', ('ref', 0), 0, 2, True),
        ('named', ('ref', 0), 'N'),
        ('or', (('ref', 0), enum.B)),
        ('seq', (('ref', 0), ('ref', 0))),
    )
    def cases():
        for use in uses:
            for body in bodies:
                for depth in depths:
                    for definition in enum.towers(depth, body, enum.UNARY):
                        yield (use, (('fwd', definition),))
    return cases


LONG = (1, 30, 90, 400, 700)


def run_long(case, counter):
    """Derivations as deep as the text is long."""
    grammar = gram.number_grammar(case[0])
    parser = Parser(gram.build(grammar), tokenizer=PLAIN)
    for letters in ('a' * case[1] + 'b', 'a' * case[1]):
        counter.state(case, letters)
        counter.step()
        check_match(parser, grammar, letters, counter)


def long_cases(quick):
    limit = 4 if quick else len(LONG)
    for ast in (
            ('rep', enum.A, 0, 0, False),
            ('rep', enum.A, 0, 0, True),
            ('opt', ('rep', enum.A, 0, 0, False), False),
            ('seq', (('rep', enum.A, 3, 0, False), ('opt', enum.B, False))),
            ('rep', ('or', (enum.A, enum.B)), 0, 0, False),
    ):
        for size in LONG[:limit]:
            yield ((ast, ()), size)
    for definition in (
            ('or', (enum.A, ('seq', (('ref', 0), enum.A)))),
            ('or', (enum.A, ('seq', (enum.A, ('ref', 0))))),
            ('or', (enum.A, ('seq', (enum.A, ('ref', 0), enum.A)))),
    ):
        for size in LONG[:3]:
            yield ((('ref', 0), (('fwd', definition),)), size)


def run_bounds(case, counter):
    """Bounds are what they say, for every number of copies."""
    low, high, reverse = case
    grammar = gram.number_grammar((('rep', enum.A, low, high, reverse), ()))
    parser = Parser(gram.build(grammar), tokenizer=PLAIN)
    for size in range(max(low, high) + 3):
        counter.state(case, size)
        counter.step()
        check_match(parser, grammar, 'a' * size, counter)


def bounds(limit):
    def cases():
        for low in range(limit + 1):
            for high in range(limit + 1):
                if not high or high >= low:
                    for reverse in (False, True):
                        yield (low, high, reverse)
    return cases


def marks_of(low, high):
    yield ('opt', False)
    for first in range(low + 1):
        for last in range(high + 1):
            if not last or last >= first:
                yield ('rep', first, last, False)


def bound_pairs(low, high):
    """One rule repeated in two ways inside one rule."""
    marks = [_ for _ in marks_of(low, high) if _[0] == 'opt' or _[3] or _[1] > 1] + [('rep', 0, 0, False)]
    bodies = (enum.A, ('seq', (enum.A, enum.B)), ('or', (('named', enum.A, 'X'), ('seq', (enum.A, enum.B)))))
    def cases():
        for body in bodies:
            for first in marks:
                for second in marks:
                    one, other = [enum.wrap(_, ('ref', 0)) for _ in (first, second)]
                    yield (('seq', (one, ('t', 'c'), other)), (('share', body),))
                    yield (('or', (('seq', (one, ('t', 'c'))), other)), (('share', body),))
    return cases


def run_bound_pairs(high):
    def run(case, counter):
        grammar = gram.number_grammar(case)
        parser = Parser(gram.build(grammar), tokenizer=PLAIN)
        counter.step()
        for part in ('a', 'ab'):
            for first in range(high + 1):
                for letters in [part * first + 'c' + part * _ for _ in range(high + 1)] + [part * first]:
                    if letters:
                        counter.state(case, letters)
                        counter.step()
                        check_match(parser, grammar, letters, counter)
    return run


def mark_towers(depth, low, high):
    def cases():
        for tower in itertools.product(marks_of(low, high), repeat=depth):
            ast = enum.A
            for mark in tower:
                ast = enum.wrap(mark, ast)
            yield (ast, ())
    return cases


def lengths_of(ast, limit):
    """Of the texts of one word that are derived, as a set of numbers."""
    if ast[0] == 't':
        return {1}
    inner = lengths_of(ast[1], limit)
    if ast[0] == 'opt':
        return inner | {0}
    low, high = max(ast[2], 1), ast[3]
    total, last = set(), {0}
    count = 0
    while not high or count < high:
        last = {a + b for a in last for b in inner if a + b <= limit}
        count += 1
        if count >= low:
            if last <= total and count > limit + low:
                break
            total |= last
        if not last:
            break
    return total


def run_marks(limit):
    def run(case, counter):
        grammar = gram.number_grammar(case)
        parser = Parser(gram.build(grammar), tokenizer=PLAIN)
        counter.step()
        lengths = lengths_of(case[0], limit)
        known = None
        for size in range(1, limit + 1):
            counter.state(case, size)
            counter.step()
            counter.trace()
            actual = parser.match(text_of('a' * size)) is not None
            if actual != (size in lengths):
                message = '%d words are %s' % (size, 'accepted' if actual else 'refused')
                if deviates(grammar, 'a' * size) == actual:
                    known = Known(P1, message)
                else:
                    raise Mismatch(message, grammar=gram.show_grammar(grammar))
        if known:
            raise known
    return run


def large_bounds(numbers, far):
    def cases():
        for low in numbers:
            for high in numbers:
                for reverse in (False, True):
                    if low < high:
                        # only min, only max, both
                        yield (low, 0, reverse)
                        yield (0, high, reverse)
                        yield (low, high, reverse)
                    elif low == high:
                        yield (low, high, reverse)
        for number in range(numbers[-1] + 1, far + 1):
            for reverse in (False, True):
                yield (0, number, reverse)
                yield (number, 0, reverse)
                yield (number, number, reverse)
                yield (number - 1, number, reverse)
                yield (1, number, reverse)
    seen = []

    def once():
        del seen[:]
        for case in cases():
            if case not in seen:
                seen.append(case)
                yield case
    return once


def run_large(case, counter):
    # verdicts around the bounds, number of copies is the language
    low, high, reverse = case
    item = gram.build(gram.number_grammar((('rep', enum.A, low, high, reverse), ())))
    parser = Parser(item, tokenizer=PLAIN)
    counter.step()
    for size in sorted({_ + shift for _ in (1, low, high, low + high) for shift in (-1, 0, 1)}):
        if size < 1:
            continue
        counter.state(case, size)
        counter.step()
        counter.trace()
        expected = size >= max(low, 1) and (not high or size <= high)
        actual = parser.match(' '.join('a' * size)) is not None
        if actual != expected:
            raise Mismatch('repeatable(min=%d, max=%d, reverse=%r) on %d words: %s' % (
                low, high, reverse, size, 'accepted' if actual else 'refused'
            ))


def run_huge(case, counter):
    # recorded finding: the number of copies is limited by recursion
    grammar = gram.number_grammar((('rep', enum.A, 0, case[0], False), ()))
    counter.step()
    counter.state(case)
    try:
        parser = Parser(gram.build(grammar), tokenizer=PLAIN)
    except RecursionError:
        raise Known('huge-max-bound', 'repeatable(max=%d)' % case[0])
    check_match(parser, grammar, 'aaa', counter)


class C01(Check):
    def families(self, tier):
        quick = tier == 'quick'
        W4 = list(enum.words('ab', 0, 4))
        W3 = list(enum.words('ab', 0, 3))
        W5 = list(enum.words('ab', 0, 5))
        W4d = list(enum.words('abcd', 0, 3)) + [
            _ for _ in enum.words('abcd', 4, 5 if not quick else 4)
            if _[-1] in 'cd'
        ]
        small = {'unary': enum.UNARY[:4] + enum.UNARY[5:6]}
        families = [
            Family('long', lambda: long_cases(quick), run_long,
                   'texts of up to %d tokens' % (400 if quick else 700), cpu_limit=120),
            Family('ast', simple(1, 4), run_grammar(W4),
                   'all rules of 1..4 constructs over 2 words, 8 modifiers; texts of 0..4 tokens'),
            Family('ast5', simple(5, 5), run_grammar(W4 if not quick else W3),
                   'all rules of 5 constructs; texts of 0..%d tokens' % (3 if quick else 4)),
            Family('tower', towers(3 if not quick else 2, enum.UNARY_MORE),
                   run_grammar(W4 if quick else W5),
                   'all chains of %d modifiers (16 kinds) over 3 bases' % (2 if quick else 3)),
            Family('nullable', towers(2, enum.UNARY if quick else enum.UNARY_MORE, EMPTY_BASES), run_grammar(W3 if not quick else list(enum.words('ab', 0, 2)) + ['aab', 'aba', 'bba', 'abb']),
                   'all chains of 2 modifiers (%d kinds) over rules that may be empty' % (8 if quick else 16)),
            Family('tower3', towers(3, enum.UNARY[:2] + enum.UNARY[2:7]), run_grammar(W4),
                   'all chains of 3 modifiers (7 kinds) over 3 bases'),
            Family('pair', pairs(2, enum.UNARY), run_grammar(W3 if quick else W4),
                   'all pairs of chains of 1..2 modifiers in sequence'),
            Family('wide', wide(3, 3, PIECES[:5]) if quick else wide(3, 4, PIECES), run_grammar(W3 if quick else W4),
                   'sequences and choices of 3%s of %d items' % (('', 5) if quick else (' and 4', 8))),
            Family('shared', shared(1, 2 if quick else 3, **({} if quick else {})),
                   run_grammar(W4d),
                   'all rules of up to %d constructs used twice in 19 contexts' % (2 if quick else 3)),
            Family('forward', forward_contexts(FORWARD_BODIES, (0, 1, 2)),
                   run_grammar(W3 if quick else W4),
                   'forwards defined and used in all kinds of places'),
            Family('forward-heavy', forward_contexts(HEAVY_BODIES, (0, 1)),
                   run_grammar(list(enum.words('ab', 0, 2))),
                   'the same for rules with many derivations'),
            Family('cfg1', cfgs(1, 3, 2), run_grammar(W4 if quick else W5),
                   'all one-symbol grammars, 1..2 productions of 0..3 terms'),
            Family('cfg2', cfgs(2, 2, 1) if quick else cfgs2_thorough, run_grammar(W4),
                   'two-symbol grammars'),
            Family('bounds', bounds(6 if quick else 12), run_bounds, 'all bounds up to the limit'),
            Family('large bounds', large_bounds(
                (7, 8, 9, 10, 11, 13, 16, 17, 20, 33) if quick else
                tuple(range(7, 34)) + (40, 50), 64 if quick else 72
            ), run_large, 'pairs of bounds of up to %d copies, one bound of up to %d' % ((33, 64) if quick else (50, 72)), cpu_limit=120),
            Family('marks', mark_towers(2, 4, 5), run_marks(10 if quick else 13),
                   'all chains of two marks with bounds of up to 4 and 5; 1..%d words' % (10 if quick else 13)),
            Family('bound pairs', bound_pairs(3, 4) if quick else bound_pairs(4, 6),
                   run_bound_pairs(5 if quick else 7),
                   'one rule repeated in two ways, all pairs of bounds of up to %d' % (4 if quick else 6)),
            Family('huge', lambda: [(1000,)], run_huge, 'the recorded limit of max'),
        ]
        if not quick:
            families.append(Family(
                'marks3', mark_towers(3, 3, 4), run_marks(9),
                'all chains of three marks with bounds of up to 3 and 4; 1..9 words'))
        return families


def cfgs2_thorough():
    # at most three productions in total, up to two terms each
    for grammar in enum.cfgs(2, 2, 2):
        count = sum(
            len(ast[1]) if ast[0] == 'or' else 1
            for _, ast in grammar[1]
        )
        if count <= 3 and enum.reachable(grammar):
            yield grammar


CHECK = C01(
    'C01',
    rule='state = (rule, text) pair; transition = building a parser or one '
         'match() call; trace = one match() verdict compared with the model',
    assumptions=[
        'terminals are independent predicates on one token; predicates of the '
        'library are covered by C11',
        'an empty token sequence has no match',
    ]
)
