"""C03: an ambiguous text is resolved to the leftmost preferred derivation."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import combo, gram, enum
from mc.yg import Parser, PLAIN, text_of, positions, token_range, uids
from checks import c01
from checks.c02 import never

from yargy import rule, or_, forward


def check_best(parser, trees, letters, counter):
    """Compare the winners with the minimal tree of the model."""
    text = text_of(letters)
    offsets = positions(letters)
    whole = trees.get((0, len(letters)))
    match = parser.match(text)
    counter.trace()
    counter.step()
    if whole:
        if match is None:
            return 'match(%r) is None' % text
        if uids(match) != whole[0][1]:
            return 'match(%r) chose terminals %r, preferred %r of %d derivations' % (
                text, uids(match), whole[0][1], len(whole)
            )
    for match in parser.findall(text):
        counter.trace()
        best = trees.get(token_range(match, offsets))
        if best and uids(match) != best[0][1]:
            return 'findall(%r) chose terminals %r for %r, preferred %r of %d' % (
                text, uids(match), token_range(match, offsets),
                best[0][1], len(best)
            )
    counter.step()


def run_grammar(words, limit=1500):
    def run(case, counter):
        grammar = gram.number_grammar(case)
        if c01.has_p1(grammar):
            counter.note('skipped_known_finding')
            return
        parser = None
        cfg = gram.CFG(grammar)
        for letters in words:
            try:
                trees = gram.Trees(cfg, letters, limit).all()
            except gram.TooMany:
                counter.note('skipped_more_than_%d_trees' % limit)
                continue
            counter.state(case, letters)
            if any(len(_) > 1 for _ in trees.values()):
                counter.note('ambiguous_texts')
            if parser is None:
                parser = Parser(gram.build(grammar), tokenizer=PLAIN)
                counter.step()
            message = check_best(parser, trees, letters, counter)
            if message:
                raise Mismatch(message, grammar=gram.show_grammar(grammar))
    return run


# ------------------------------------------- accepted by agreement only

def rejections(count):
    """Choices with some alternatives refused by agreement."""
    def cases():
        for shape in ('flat', 'left', 'right', 'inner'):
            for size in range(1, count + 1):
                for statuses in itertools.product((True, False), repeat=size):
                    for tokens in (1, 2):
                        yield (shape, statuses, tokens)
    return cases


def run_rejections(case, counter):
    shape, statuses, tokens = case
    letters = 'ab'[:tokens]
    items = []
    for index, accepted in enumerate(statuses):
        terms = [gram.Term(index, _) for _ in letters]
        if not accepted:
            terms[-1] = terms[-1].match(never())
        items.append(rule(*terms))
    if shape == 'flat':
        tree = or_(*items)
    elif shape == 'left':
        tree = items[0]
        for item in items[1:]:
            tree = or_(tree, item)
    elif shape == 'right':
        tree = items[-1]
        for item in reversed(items[:-1]):
            tree = or_(item, tree)
    else:
        tree = rule(or_(*items)).named('N').optional(reverse=True)
    counter.state(case)
    parser = Parser(tree, tokenizer=PLAIN)
    text = text_of(letters)
    expected = statuses.index(True) if True in statuses else None
    counter.step(3)
    for name, match in (
            ('match', parser.match(text)),
            ('find', parser.find(text)),
            ('findall', next(iter(parser.findall(text)), None))):
        counter.trace()
        actual = uids(match)[0] if match else None
        if actual != expected:
            raise Mismatch('%s chose %r, first accepted alternative is %r' % (
                name, actual, expected
            ))


def ambiguous_bases():
    """Items with several ways to read the same words."""
    A, B = enum.A, enum.B
    return (
        ('or', (A, A)),
        ('or', (A, ('seq', (A, A)))),
        ('or', (('seq', (A, A)), A)),
        ('or', (A, ('seq', (A, B)), ('seq', (A, A)))),
        ('seq', (('opt', A, False), A)),
        ('seq', (('opt', A, True), A)),
        ('or', (('seq', (A, B)), ('or', (A, B)))),
    )


def ambiguous_towers(depth, unary):
    def cases():
        for base in ambiguous_bases():
            for tower in enum.towers(depth, base, unary):
                yield (tower, ())
                yield (('seq', (tower, enum.A)), ())
                yield (('seq', (enum.A, tower)), ())
                yield (('or', (tower, ('rep', enum.A, 0, 0, False))), ())
    return cases


def ambiguous_pairs(unary):
    def cases():
        bases = ambiguous_bases()[:4] + (enum.A,)
        for first, second in itertools.product(bases, repeat=2):
            for one, other in itertools.product(unary, repeat=2):
                yield (('seq', (
                    enum.wrap(one, first), enum.wrap(other, second)
                )), ())
    return cases


WIDE = tuple(c01.PIECES[_] for _ in (0, 1, 4, 5, 3))


def bounded(limit):
    def cases():
        for base in ambiguous_bases()[:4]:
            for low in range(limit + 1):
                for high in range(limit + 1):
                    if not high or high >= low:
                        for reverse in (False, True):
                            yield (('rep', base, low, high, reverse), ())
                            yield (('opt', ('rep', base, low, high, reverse), not reverse), ())
    return cases


# ------------------------------------------------ one part at several places

def forward_to(item):
    made = forward()
    made.define(item)
    return made


# what a part is: made of its number, and the texts it fits
SORTS = {
    'a': (lambda _: rule(gram.Term(_, 'a')), ('a',)),
    'b': (lambda _: rule(gram.Term(_, 'b')), ('b',)),
    'named': (lambda _: rule(gram.Term(_, 'a')).named('A'), ('a',)),
    'two': (lambda _: rule(gram.Term(_, 'a')).repeatable(max=2), ('a', 'aa')),
    'may': (lambda _: rule(gram.Term(_, 'a'), rule(gram.Term(_, 'a')).optional()), ('a', 'aa')),
    'forward': (lambda _: forward_to(rule(gram.Term(_, 'a'))), ('a',)),
}


def place_cases(number, size, sorts):
    def cases():
        for chosen in itertools.product(sorts, repeat=number):
            for count in range(1, size + 1):
                for places in itertools.product(range(number), repeat=count):
                    if max(places) == number - 1 and len(set(places)) == number:
                        yield (chosen, places)
    return cases


def run_places(case, counter):
    sorts, places = case
    parts = [SORTS[_][0](index) for index, _ in enumerate(sorts)]
    texts = [SORTS[_][1] for _ in sorts]

    def first(text):
        return next((_ for _ in places if text in texts[_]), None)

    whole = [('or', or_(*(parts[_] for _ in places)), lambda _: [_])]
    whole.append(('left', functools.reduce(or_, (parts[_] for _ in places[1:]), parts[places[0]]), lambda _: [_]))
    whole.append(('right', functools.reduce(
        lambda a, b: or_(b, a), [parts[_] for _ in places[::-1]][1:], parts[places[-1]]), lambda _: [_]))
    both = or_(*(parts[_] for _ in places))
    whole.append(('twice', rule(both, both), lambda _: [_, _]))
    whole.append(('end', rule(both, gram.Term(9, 'x'), parts[places[-1]]), lambda _: [_, 'x', _]))
    for name, item, repeat in whole:
        parser = Parser(item, tokenizer=PLAIN)
        for text in ('a', 'b', 'aa'):
            if name == 'twice' and len(text) > 1:
                continue
            number = first(text)
            if name == 'end' and text not in texts[places[-1]]:
                number = None
            counter.state(case, name, text)
            counter.step()
            counter.trace()
            match = parser.match(text_of(''.join(repeat(text))))
            expected = None
            if number is not None:
                expected = (number,) * len(text)
                if name == 'twice':
                    expected += expected
                elif name == 'end':
                    expected += (places[-1],) * len(text)
            actual = match and tuple(_ for _ in uids(match) if _ != 9)
            if actual != expected:
                raise Mismatch('%s of %r at places %r, text %r: chosen %r, expected %r' % (
                    name, sorts, places, text, actual, expected
                ))


# ------------------------------------------------ many alternatives, long texts

def size_cases(limit):
    def cases():
        for number in enum.sizes(limit, 12):
            # the first alternative that fits
            for first in sorted({0, 1, number // 2, number - 2, number - 1}):
                if 0 <= first < number:
                    for step in (1, 2, 3):
                        yield ('alternatives', number, first, step)
            # two that fit, the first of them is found later
            for first, second in sorted({
                    (first, second)
                    for first in (0, number // 2, number - 2)
                    for second in (first + 1, number - 1)}):
                if 0 <= first < second < number:
                    yield ('found later', number, first, second)
        for number in enum.sizes(min(limit // 20, 51), 12):
            for reverse in itertools.product((False, True), repeat=2):
                yield ('split', number) + reverse
            for copies in (2, 3):
                yield ('places', number, copies, False)
            for reverse in (False, True):
                yield ('bounds', min(number, 40), reverse, False)
            for style in range(6):
                for more in (0, 1):
                    yield ('later', number, style, more)
            yield ('spans', number, False, False)
    return cases


def run_size(case, counter):
    name, number, one, other = case
    letters = 'a' * number
    if name == 'alternatives':
        # fits at one, one + other, one + 2 * other ...
        grammar = or_(*(
            rule(gram.Term(_, 'a' if _ >= one and (_ - one) % other == 0 else 'b'))
            for _ in range(number)
        ))
        letters, expected = 'a', (one,)
    elif name == 'found later':
        def alternative(place):
            item = rule(gram.Term(place, 'a' if place in (one, other) else 'b'))
            for _ in range(4 if place == one else 0):
                item = rule(rule(gram.Term(place, 'b')).optional(), item)
            return item

        grammar = or_(*map(alternative, range(number)))
        letters, expected = 'a', (one,)
    elif name == 'split':
        if number == 1:
            return
        grammar = rule(
            rule(gram.Term(0, 'a')).repeatable(reverse=one),
            rule(gram.Term(1, 'a')).repeatable(reverse=other)
        )
        count = 1 if one else number - 1
        expected = (0,) * count + (1,) * (number - count)
    elif name == 'places':
        # two ways at every place, the first one at the last place needs more words
        letters = 'a' * one
        grammar = rule(*(
            or_(*(rule(gram.Term(place * number + _, 'a')) for _ in range(number)))
            for place in range(one)
        ))
        if number ** one > 3000:
            return
        expected = tuple(place * number for place in range(one))
    elif name == 'later':
        # the only ambiguous part stands after many words, before some
        size = 2 + other
        letters = 'a' * number + 'b' * size + 'a' * (number // 2)
        word, last = rule(gram.Term(0, 'a')), rule(gram.Term(2, 'b')).repeatable()
        first = rule(gram.Term(1, 'b')).optional(reverse=one % 2 == 1)
        count = one % 2
        if one // 2 == 0:
            part = [first, last]
        elif one // 2 == 1:
            part = [rule(first, last).named('N')]
        else:
            part = [first, first, last]
            count = min(2 * count, size - 1)
        grammar = rule(*([word] * number + part + [word] * (number // 2)))
        expected = (0,) * number + (1,) * count + (2,) * (size - count) + (0,) * (number // 2)
    elif name == 'bounds':
        # as many as possible go to the first part
        grammar = rule(
            rule(gram.Term(0, 'a')).repeatable(max=number, reverse=one),
            rule(gram.Term(1, 'a')).repeatable(max=number)
        )
        letters = 'a' * (number + 1)
        count = 1 if one else number
        expected = (0,) * count + (1,) * (number + 1 - count)
    else:
        # every word has its own best alternative
        letters = 'ab' * number
        grammar = or_(
            rule(gram.Term(0, 'b')), rule(gram.Term(1, 'a')),
            rule(gram.Term(2, 'a')), rule(gram.Term(3, 'b'))
        )
        expected = (1, 0) * number
        actual = tuple(uids(_)[0] for _ in Parser(grammar, tokenizer=PLAIN).findall(text_of(letters)))
        counter.state(case)
        counter.step()
        counter.trace(number * 2)
        if actual != expected:
            raise Mismatch('findall chose %r' % (actual[:50],))
        return
    parser = Parser(grammar, tokenizer=PLAIN)
    text = text_of(letters)
    counter.state(case)
    counter.step(3)
    for call, match in (
            ('match', parser.match(text)), ('find', parser.find(text)),
            ('findall', next(iter(parser.findall(text)), None))):
        counter.trace()
        actual = uids(match) if match else None
        if actual != expected:
            raise Mismatch('%s chose %s, expected %s' % (
                call, str(actual)[:200], str(expected)[:200]
            ))


class C03(Check):
    def families(self, tier):
        quick = tier == 'quick'
        W2 = list(enum.words('ab', 1, 2))
        W3 = list(enum.words('ab', 1, 3))
        W4 = list(enum.words('ab', 1, 4))
        aaaa = ['a', 'aa', 'aaa', 'aaaa', 'ab', 'aab', 'aba', 'abab']
        W4d = [_ for _ in enum.words('abcd', 1, 4) if len(_) < 4 or _[-1] in 'cd']
        families = [
            Family('ast', c01.simple(1, 4), run_grammar(W4),
                   'all rules of 1..4 constructs, texts of 1..4 tokens'),
            Family('ast5', c01.simple(5, 5), run_grammar(['aa', 'ab', 'aab', 'aaa'] if quick else W4),
                   'all rules of 5 constructs'),
            Family('tower1', ambiguous_towers(1, enum.UNARY_MORE), run_grammar(aaaa),
                   'all modifiers (16 kinds) over 7 ambiguous items in 4 places'),
            Family('tower2', ambiguous_towers(2, enum.UNARY if quick else enum.UNARY_MORE),
                   run_grammar(aaaa[:6] if quick else aaaa),
                   'all chains of 2 modifiers over 7 ambiguous items in 4 places'),
            Family('wide', c01.wide(3, 3, WIDE) if quick else c01.wide(3, 4),
                   run_grammar(aaaa[1:6] if quick else aaaa),
                   'sequences and choices of 3%s items' % ('' if quick else ' and 4')),
            Family('bounds', bounded(4 if quick else 6),
                   run_grammar(['a' * _ for _ in range(1, 6 if quick else 8)]),
                   'ambiguous items under all bounds up to %d, both directions' % (4 if quick else 6)),
            Family('pairs', ambiguous_pairs(enum.UNARY), run_grammar(aaaa[1:6]),
                   'all pairs of modified ambiguous items'),
            Family('shared', c01.shared(1, 2), run_grammar(W4d[:60] if quick else W4d),
                   'shared rules in 19 contexts'),
            Family('forward', c01.forward_contexts(
                c01.FORWARD_BODIES + c01.HEAVY_BODIES, (0, 1)),
                run_grammar(W3), 'recursive rules'),
            Family('cfg1', c01.cfgs(1, 3, 2), run_grammar(W3 if quick else W4),
                   'all one-symbol grammars'),
            Family('cfg2', c01.cfgs(2, 2, 1) if quick else c01.cfgs2_thorough,
                   run_grammar(W3), 'two-symbol grammars'),
            Family('combined', lambda: combo.cases((2,), combo.CHOICES, (1,)) if quick else combo.cases((2, 3), combo.CHOICES), combo.run((2, 3)),
                   'ambiguous items with relations, main words, dictionaries and facts'),
            Family('reject', rejections(4 if quick else 6), run_rejections,
                   'choices with every subset of alternatives refused by agreement'),
        ]
        families.append(Family(
            'places', lambda: itertools.chain(
                place_cases(2, 4 if quick else 6, sorted(SORTS))(), place_cases(3, 4, sorted(SORTS))(),
                place_cases(1, 4, sorted(SORTS))(), place_cases(3, 6, ('a', 'two'))() if not quick else ()
            ), run_places, 'one part at several places among alternatives, %d sorts of parts' % len(SORTS)
        ))
        families.append(Family(
            'size', size_cases(500 if quick else 2000), run_size,
            'up to %d alternatives, texts of up to %d words' % ((500, 25) if quick else (2000, 51))
        ))
        if not quick:
            families.append(Family(
                'ast6', c01.simple(6, 6), run_grammar(['aa', 'ab', 'aab', 'aaa']),
                'all rules of 6 constructs'
            ))
        return families


CHECK = C03(
    'C03',
    rule='state = (rule, text) pair; transition = building a parser, one '
         'match() or findall(); trace = one returned match whose terminals are '
         'compared with the first tree of the model in preference order',
    assumptions=[
        'nested optional and repeatable parts are read as one repetition, as '
        'in tests/test_rule.py'
    ]
)
