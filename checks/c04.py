"""C04: every derivation is enumerated once, none is lost, none invented."""
import itertools
from collections import Counter as Bag

from mc.core import Check, Family, Mismatch
from mc import gram, enum
from mc.yg import Parser, PLAIN, text_of, positions, token_range, uids
from checks import c01, c03

from yargy import rule, or_, forward
from yargy.interpretation import fact


def shares(grammar):
    return any(kind == 'share' for kind, _ in grammar[1])


def check_extract(parser, trees, letters, exact, cyclic, counter):
    text = text_of(letters)
    offsets = positions(letters)
    expected = Bag(
        (range_, leafs)
        for range_, items in trees.items()
        for _, leafs in items
    )
    actual = Bag()
    for match in parser.extract(text):
        counter.trace()
        values = [_.value for _ in match.tokens]
        range_ = token_range(match, offsets)
        if values != list(letters[range_[0]:range_[1]]):
            return 'extract(%r): tokens %r are not consecutive' % (text, values)
        actual[range_, uids(match)] += 1
    counter.step()
    lost = [_ for _ in expected if _ not in actual]
    if lost:
        return 'extract(%r) lost %r of %d' % (text, lost[0], len(expected))
    invented = [_ for _ in actual if _ not in expected]
    if invented:
        return 'extract(%r) invented %r' % (text, invented[0])
    for key, count in actual.items():
        if cyclic:
            counter.note('cyclic')
        elif count > expected[key] or (exact and count < expected[key]):
            return 'extract(%r) gives %r %d times, there are %d derivations' % (
                text, key, count, expected[key]
            )
    # match() and extract(all=False) look at the whole text only
    whole = Bag(
        uids(_) for _ in parser.extract(text, all=False)
        if token_range(_, offsets) == (0, len(letters))
    )
    counter.step()
    counter.trace()
    expected_whole = {
        leafs for _, leafs in trees.get((0, len(letters)), ())
    }
    if set(whole) != expected_whole:
        return 'extract(%r, all=False) gives %r, expected %r' % (
            text, sorted(whole), sorted(expected_whole)
        )


def run_grammar(words, limit=1500):
    def run(case, counter):
        grammar = gram.number_grammar(case)
        if c01.has_p1(grammar):
            counter.note('skipped_known_finding')
            return
        parser = None
        cfg = gram.CFG(grammar)
        # what is a cycle depends on the names the levels have
        cyclic = cfg.cyclic()
        exact = not cyclic and not shares(grammar)
        for letters in words:
            try:
                trees = gram.Trees(cfg, letters, limit).all()
            except gram.TooMany:
                counter.note('skipped_more_than_%d_trees' % limit)
                continue
            counter.state(case, letters)
            counter.note('derivations', sum(len(_) for _ in trees.values()))
            if parser is None:
                parser = Parser(gram.build(grammar), tokenizer=PLAIN)
                counter.step()
            message = check_extract(parser, trees, letters, exact, cyclic, counter)
            if message:
                raise Mismatch(message, grammar=gram.show_grammar(grammar))
    return run


# ------------------------------------------------ many derivations, long texts

def size_cases(limit):
    def cases():
        for kinds, length in itertools.product(range(1, limit + 1), range(1, 13)):
            if 1 < kinds and kinds ** length <= limit:
                if kinds in (2, 3, 4) or length == 1 and kinds in enum.sizes(limit) or length == 2 and kinds % 16 == 0:
                    yield ('choices', kinds, length)
        for length in enum.sizes(limit // 40, 5):
            yield ('run', length, 0)
            yield ('tail', length, 0)
        for length in enum.sizes(min(limit // 20, 300), 5):
            yield ('sequence', length, 0)
        for length in range(1, 9 if limit < 3000 else 10):
            yield ('binary', length, 0)
        for name in LEVELS:
            for levels in [*range(1, 34), 40, 48]:
                yield (name, levels, 1)
                yield (name, levels, 2)
    return cases


def shape(node):
    """The derivation as text"""
    children = getattr(node, 'children', None)
    if not children:
        return node.label
    return '(%s)' % ''.join(shape(_) for _ in children)


def named_level(item, number, other):
    return rule(item).named('n%d' % number)


def fact_level(item, number, other):
    return rule(item).interpretation(LEVEL)


def forward_level(item, number, other):
    return forward().define(or_(rule(item)).named('n%d' % number))


def choice_level(item, number, other):
    return or_(rule(item), rule(other))


def last_level(item, number, other):
    return or_(rule(other), rule(item)).named('n%d' % number)


def bounded_level(item, number, other):
    return or_(rule(other), rule(item).repeatable(max=1).named('n%d' % number))


LEVEL = fact('Level', ['a'])
LEVELS = dict(
    named=named_level, fact=fact_level, forward=forward_level, choice=choice_level,
    last=last_level, bounded=bounded_level
)


def levels_case(name, number, length):
    # rules of one part inside each other
    item = gram.Term(0, 'a')
    others = [gram.Term(_ + 1, 'a') for _ in range(number)]
    level = LEVELS[name]
    for index, other in enumerate(others):
        item = level(item, index, other)
    used = len(others) + 1 if name in ('choice', 'last', 'bounded') else 1
    expected = Bag(itertools.product(range(used), repeat=length))
    if length > 1:
        item = rule(*(item for _ in range(length)))
    return item, expected


def run_size(case, counter):
    name, number, length = case
    terms = [gram.Term(_, 'a') for _ in range(max(number, number * length))]
    if name in LEVELS:
        grammar, expected = levels_case(name, number, length)
        text = text_of('a' * length)
        actual = Bag(uids(_) for _ in Parser(grammar, tokenizer=PLAIN).extract(text, all=False))
    elif name == 'choices':
        grammar = rule(*(
            or_(*(rule(terms[place * number + _]) for _ in range(number)))
            for place in range(length)
        ))
        expected = Bag(itertools.product(*(
            range(place * number, (place + 1) * number) for place in range(length)
        )))
        text = text_of('a' * length)
        actual = Bag(uids(_) for _ in Parser(grammar, tokenizer=PLAIN).extract(text))
    elif name == 'sequence':
        expected = Bag([tuple(range(number))])
        text = text_of('a' * number)
        actual = Bag(uids(_) for _ in Parser(rule(*terms), tokenizer=PLAIN).extract(text))
    elif name == 'run':
        expected = Bag((start, stop) for stop in range(1, number + 1) for start in range(stop))
        letters = 'a' * number
        text = text_of(letters)
        offsets = positions(letters)
        actual = Bag(
            token_range(_, offsets)
            for _ in Parser(rule(terms[0]).repeatable(), tokenizer=PLAIN).extract(text)
        )
    elif name == 'tail':
        # every split of the text in two
        first, second = gram.Term(0, 'a'), gram.Term(1, 'a')
        expected = Bag((0,) * _ + (1,) * (number - _) for _ in range(1, number))
        text = text_of('a' * number)
        parser = Parser(rule(
            rule(first).repeatable(), rule(second).repeatable(reverse=True)
        ), tokenizer=PLAIN)
        actual = Bag(uids(_) for _ in parser.extract(text, all=False))
    else:
        pair = forward()
        pair.define(or_(rule(pair, pair), rule(terms[0])))
        text = text_of('a' * number)
        count = [0, 1]
        for size in range(2, number + 1):
            count.append(sum(count[_] * count[size - _] for _ in range(1, size)))
        shapes = Bag(shape(_.tree.root) for _ in Parser(pair, tokenizer=PLAIN).extract(text, all=False))
        expected = {'different': count[number], 'all': count[number]}
        actual = {'different': len(shapes), 'all': sum(shapes.values())}
    counter.state(case)
    counter.step()
    counter.trace(sum(actual.values()))
    if actual != expected:
        wrong = [_ for _ in set(actual) | set(expected) if actual.get(_) != expected.get(_)]
        raise Mismatch('%s of %d %d: %d derivations, expected %d, %r' % (
            name, number, length, sum(actual.values()), sum(expected.values()), str(wrong[:1])[:200]
        ))


class C04(Check):
    def families(self, tier):
        quick = tier == 'quick'
        # every text of 3 tokens is a part of one of these
        top = ['aaa', 'aab', 'aba', 'abb', 'baa', 'bab', 'bba', 'bbb']
        W4 = ['aaaa', 'abab', 'aabb', 'abba', 'baab', 'bbaa', 'aaab', 'abaa', 'bbbb', 'babb']
        some = ['aaa', 'aab', 'abab']
        W4d = [_ for _ in enum.words('abcd', 3, 4) if len(_) < 4 or _[-1] in 'cd']
        families = [
            Family('ast', c01.simple(1, 4), run_grammar(top + W4),
                   'all rules of 1..4 constructs, all ranges of texts of 3..4 tokens'),
            Family('ast5', c01.simple(5, 5), run_grammar(some[:2] if quick else top),
                   'all rules of 5 constructs'),
            Family('tower1', c03.ambiguous_towers(1, enum.UNARY_MORE),
                   run_grammar(['aaaa', 'aabab']),
                   'all modifiers (16 kinds) over 7 ambiguous items in 4 places'),
            Family('tower2', c03.ambiguous_towers(2, enum.UNARY if quick else enum.UNARY_MORE),
                   run_grammar(['aaa', 'aab']), 'all chains of 2 modifiers'),
            Family('wide', c01.wide(3, 3, c03.WIDE) if quick else c01.wide(3, 4),
                   run_grammar(['aaa', 'aab', 'aaaa'] if quick else top + W4[:4]),
                   'sequences and choices of 3%s items' % ('' if quick else ' and 4')),
            Family('bounds', c03.bounded(4 if quick else 6),
                   run_grammar(['a' * _ for _ in range(3, 6 if quick else 8)]),
                   'ambiguous items under all bounds up to %d' % (4 if quick else 6)),
            Family('nullable', c01.towers(2, enum.UNARY, c01.EMPTY_BASES),
                   run_grammar(['a', 'b', 'ab', 'ba', 'aa']), 'rules that may be empty'),
            Family('shared', c01.shared(1, 2), run_grammar(W4d[:64] if quick else W4d),
                   'shared rules in 19 contexts'),
            Family('forward', c01.forward_contexts(
                c01.FORWARD_BODIES + c01.HEAVY_BODIES, (0, 1)),
                run_grammar(['aaa', 'bab', 'aab', 'aba'] + ([] if quick else W4)),
                'recursive rules'),
            Family('size', size_cases(4500 if quick else 10000), run_size,
                   'up to %d derivations of a text' % (4500 if quick else 10000)),
            Family('cfg1', c01.cfgs(1, 3, 2), run_grammar(top[:6] if quick else top),
                   'all one-symbol grammars'),
            Family('cfg2', c01.cfgs(2, 2, 1) if quick else c01.cfgs2_thorough,
                   run_grammar(top), 'two-symbol grammars'),
        ]
        if not quick:
            families.append(Family(
                'ast6', c01.simple(6, 6), run_grammar(['aab', 'aaa']),
                'all rules of 6 constructs'
            ))
        return families


CHECK = C04(
    'C04',
    rule='state = (rule, text) pair; transition = building a parser or one '
         'extract(); trace = one extracted match looked up among the trees of '
         'the model',
    assumptions=[
        'nested optional and repeatable parts are read as one repetition, as '
        'in tests/test_rule.py',
        'when one Rule object stands for several alternatives of one choice '
        'their derivations may be reported once',
    ]
)
