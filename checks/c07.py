"""C07: matches are independent, immutable results."""
from collections import Counter as Bag
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub
from mc.enum import sizes
from mc.yg import Parser, describe, text_of

from yargy import rule, or_, and_, forward
from yargy.interpretation import fact, attribute, normalized
from yargy.pipelines import morph_pipeline
from yargy.predicates import eq, gram, true, is_single
from yargy.relations import Relation, main
from yargy.tagger import Tagger


class Same(Relation):
    __attributes__ = ['prefix']
    label = 'same'

    def __init__(self, prefix='r'):
        self.prefix = prefix

    def __call__(self, form, other):
        return bool(self.of(form) & self.of(other))

    def of(self, form):
        return {_ for _ in form.grams.values if _.startswith(self.prefix)}


KINDS = (('g0', 'r0', 'sing'), ('g1', 'r0'), ('g0', 'r1'), ('g1', 'r1', 'sing'))


def entry(letter, chosen):
    return [(letter + str(_), KINDS[_]) for _ in chosen]


def tables(lists):
    for first in lists:
        for second in lists:
            yield (first, second)


def make_tokenizer(table):
    return stub.tokenizer({
        letter: entry(letter, chosen) for letter, chosen in zip('аб', table)
    })


# ------------------------------------------------ candidates do not interfere

def alternatives():
    """Rules that share words, predicates, sub-rules and relations."""
    same = Same()
    other = Same('g')
    A, B, X = gram('g0'), gram('g1'), true()
    PA, PB, PX = rule(A), or_(rule(A), rule(B)), rule(X)
    Q = rule(PA.match(same), PX.match(same))
    J = PX.match(same)
    return [
        rule(A, X),
        rule(X, B),
        rule(PB, PB.optional()),
        rule(PA.match(same), J),
        rule(J, PB.match(same)),
        rule(J, J),
        J.repeatable(),
        rule(PX, PA.match(same).optional(), J),
        rule(J, X, J),
        rule(Q, X),
        rule(X, Q).match(other),
        rule(rule(X, main(Q)).match(other), PX.match(other)),
        rule(PX.match(other), J, X.match(other)),
        rule(and_(A, is_single()), B),
        rule(is_single(), PX.optional()),
        rule(J, is_single().match(same)),
    ]


COUNT = len(alternatives())


def bag(matches):
    return Bag(describe(_) for _ in matches)


@functools.lru_cache(20000)
def single(index, table, text):
    """All candidates of one alternative alone, with a fresh parser."""
    parser = Parser(alternatives()[index], tokenizer=make_tokenizer(table))
    return bag(parser.extract(text)), describe(parser.match(text))


def join_cases(count, lists):
    for chosen in itertools.permutations(range(COUNT), count):
        for table in tables(lists):
            yield (chosen, table)


def texts(high):
    for size in range(1, high + 1):
        for letters in itertools.product('аб', repeat=size):
            yield text_of(letters)


def run_join(high):
    def run(case, counter):
        chosen, table = case
        items = alternatives()
        parser = Parser(
            or_(*(rule(items[_]) for _ in chosen)),
            tokenizer=make_tokenizer(table)
        )
        for text in texts(high):
            counter.state(case, text)
            counter.step()
            counter.trace()
            alone = [single(_, table, text) for _ in chosen]
            expected = sum((_[0] for _ in alone), Bag())
            actual = bag(parser.extract(text))
            where = 'alternatives %r, readings %r, text %r' % (chosen, table, text)
            if actual != expected:
                raise Mismatch(
                    '%s: together %r are added and %r are missing' % (
                        where, list((actual - expected)), list((expected - actual))
                    )
                )
            first = None
            for _, match in alone:
                if match is not None:
                    first = match
                    break
            match = describe(parser.match(text))
            if match != first:
                raise Mismatch('%s: match %r, the first alternative that matches alone gives %r' % (
                    where, match, first
                ))
    return run


# ------------------------------------------------ candidates are local

def local_cases(lists):
    for index in range(COUNT):
        for table in tables(lists):
            yield (index, table)


def shift(item, offset):
    span, tokens = item
    return (
        (span[0] + offset, span[1] + offset),
        tuple(
            _[:2] + ((_[2][0] + offset, _[2][1] + offset),) + _[3:]
            for _ in tokens
        )
    )


def run_local(high):
    def run(case, counter):
        index, table = case
        parser = Parser(alternatives()[index], tokenizer=make_tokenizer(table))
        for size in range(2, high + 1):
            for letters in itertools.product('аб', repeat=size):
                text = text_of(letters)
                counter.state(case, text)
                counter.step()
                counter.trace()
                actual = bag(parser.extract(text))
                expected = Bag()
                for start in range(size):
                    for stop in range(start + 1, size + 1):
                        part = text_of(letters[start:stop])
                        for item, count in single(index, table, part)[0].items():
                            if item[0] == (0, len(part)):
                                expected[shift(item, 2 * start)] += count
                if actual != expected:
                    raise Mismatch(
                        'alternative %d, readings %r, text %r: %r are added and %r are missing '
                        'compared with the parts of the text alone' % (
                            index, table, text,
                            list((actual - expected)), list((expected - actual))
                        )
                    )
    return run


# ------------------------------------------------ histories of reading

class Labels(Tagger):
    tags = {'T'}

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged('T') if index % 2 else token


def recipes():
    F = fact('F', ['a', attribute('c').repeatable()])
    G = fact('G', ['x'])
    same = Same()
    word = or_(
        rule(gram('g0')).interpretation(F.c),
        rule(gram('g1')).interpretation(F.a.normalized())
    )
    item = forward()
    item.define(or_(
        rule(gram('g0').match(same)).interpretation(F.c),
        rule(rule(gram('g0').match(same)).interpretation(F.c), item)
    ))
    calls = []

    def count(value):
        # every reading of a fact makes its own values
        calls.append(value)
        return [value]

    return {
        'words': word.repeatable().interpretation(F),
        'agree': rule(
            true().match(same).interpretation(F.a.normalized()),
            true().match(same).interpretation(F.c)
        ).interpretation(F),
        'chain': item.interpretation(F),
        'pair': or_(
            rule(gram('g0').interpretation(F.a.normalized()), true()),
            rule(true(), gram('g1').interpretation(F.a.inflected({'gent'})))
        ).interpretation(F),
        'nested': rule(
            rule(true().interpretation(G.x.custom(count))).interpretation(G).interpretation(F.c)
        ).repeatable().interpretation(F),
        'lines': morph_pipeline(['а', 'а б', 'б']).interpretation(
            F.a.normalized()).interpretation(F),
        'whole': rule(true().optional(), gram('g0'), true().optional()).interpretation(
            normalized()).interpretation(F.a).interpretation(F),
    }


TABLES = (((0, 3), (1, 2)), ((0,), (3, 0)), ((0, 1, 2), (2, 1)))
LONG = ('а б а', 'а а', 'б а б', 'а ! б а')


def snapshot(match):
    """Everything a match reports but for the fact."""
    if match is None:
        return None
    leafs = []
    for node in match.tree.walk():
        leafs.append(
            (str(node.token.value), describe((_Holder(node.token)))) if hasattr(node, 'token')
            else node.label
        )
    return describe(match), tuple(leafs), tuple(match.tree.as_dot.source)


class _Holder(object):
    def __init__(self, token):
        self.tokens = [token]
        self.span = token.span


def fact_view(match):
    made = match.fact
    return repr(made), repr(made.as_json), tuple(map(tuple, made.spans))


@functools.lru_cache(None)
def isolated(name, table, text, call):
    """Snapshots and facts of every match, each from its own fresh parse."""
    result = []
    index = 0
    while True:
        parser = Parser(
            recipes()[name], tokenizer=make_tokenizer(table), tagger=Labels()
        )
        if call == 'match':
            found = [parser.match(text)]
        else:
            found = list(getattr(parser, call)(text))
        if index >= len(found) or found[index] is None:
            return result
        result.append((snapshot(found[index]), fact_view(found[index])))
        index += 1


STEPS = ('first', 'second', 'read newest', 'read oldest', 'match', 'spoil', 'list')
SOURCES = ('first', 'second', 'match', 'list')


def history_cases(depth, texts):
    for name in sorted(recipes()):
        for table in TABLES:
            for one, two in texts:
                for call in ('findall', 'extract'):
                    for start in itertools.product(STEPS, repeat=depth - 3):
                        if not start or start[0] in SOURCES:
                            yield (name, table, one, two, call, start)


def spoil(match):
    """A caller may do what it likes with what it has read."""
    made = match.fact
    for item in [made] + list(made):
        for value in [item] + (item if isinstance(item, list) else []):
            for key in getattr(value, '__attributes__', ()):
                inner = getattr(value, key)
                if isinstance(inner, list):
                    inner.append('spoiled')
                else:
                    setattr(value, key, 'spoiled')
    for item in (match.fact.as_json, match.fact.spans):
        item.clear()


def run_history(case, counter):
    name, table, one, two, call, start = case
    depth = len(start) + 3
    expected = {
        'first': isolated(name, table, one, call),
        'second': isolated(name, table, two, 'extract'),
        'match': isolated(name, table, two, 'match'),
    }
    for rest in itertools.product(STEPS, repeat=3):
        history = start + rest
        if history[0] not in SOURCES:
            continue
        parser = Parser(
            recipes()[name], tokenizer=make_tokenizer(table), tagger=Labels()
        )
        streams = {
            'first': iter(getattr(parser, call)(one)),
            'second': iter(parser.extract(two)),
        }
        position = {'first': 0, 'second': 0}
        held = []   # (match, expected snapshot, expected fact)
        for number, step in enumerate(history):
            counter.step()
            where = 'rule %s, readings %r, %s of %r and %r, steps %r' % (
                name, table, call, one, two, history[:number + 1]
            )
            new = []
            if step in streams:
                match = next(streams[step], None)
                index = position[step]
                position[step] += 1
                wanted = expected[step]
                if (match is not None) != (index < len(wanted)):
                    raise Mismatch('%s: match number %d is %r' % (where, index, match))
                if match is not None:
                    new = [(match,) + wanted[index]]
            elif step == 'match':
                match = parser.match(two)
                if (match is not None) != bool(expected['match']):
                    raise Mismatch('%s: match is %r' % (where, match))
                if match is not None:
                    new = [(match,) + expected['match'][0]]
            elif step == 'list':
                found = list(parser.extract(two))
                if len(found) != len(expected['second']):
                    raise Mismatch('%s: %d matches' % (where, len(found)))
                new = [
                    (match,) + wanted
                    for match, wanted in zip(found, expected['second'])
                ]
            elif held:
                match, _, wanted = held[0 if 'oldest' in step else -1]
                actual = fact_view(match)
                if actual != wanted:
                    raise Mismatch('%s: fact %r, expected %r' % (where, actual, wanted))
                if step == 'spoil':
                    spoil(match)
            held.extend(new)
            counter.state(case, history[:number + 1])
            counter.trace()
            for match, wanted, _ in (held if number + 1 == depth else new):
                actual = snapshot(match)
                if actual != wanted:
                    raise Mismatch('%s: match reports %r, expected %r' % (
                        where, actual[:2], wanted[:2]
                    ))
        for match, _, wanted in held:
            actual = fact_view(match)
            if actual != wanted:
                raise Mismatch('%s: fact in the end is %r, expected %r' % (where, actual, wanted))


# ------------------------------------------------ many matches, many readings

# the rules that do not match a sign
APART = ('words', 'agree', 'chain', 'lines')


def many_cases(limit):
    for name in APART:
        for table in TABLES:
            for call in ('findall', 'extract'):
                for count in sizes(limit, 4):
                    yield (name, table, call, count)


def moved(item, offset):
    """The snapshot and the fact of a match, further on in the text."""
    (shown, leafs, drawn), (made, json, spans) = item
    return (
        shift(shown, offset),
        tuple(_ if isinstance(_, str) else (_[0], shift(_[1], offset)) for _ in leafs),
        drawn
    ), (made, json, tuple((_[0] + offset, _[1] + offset) for _ in spans))


# an odd number of words, so that the tagger labels every other copy in
# another way: two copies make the period
PERIOD = 'а б а ! а а ! '


def run_many(case, counter):
    name, table, call, count = case
    text = PERIOD * count
    period = isolated(name, table, PERIOD, call)
    # labels alternate, the number of words of the period is even or odd
    words = len(PERIOD.split())
    assert words % 2 == 1
    other = isolated(name, table, '! ' + PERIOD, call)
    expected = []
    for number in range(count):
        offset = number * len(PERIOD)
        expected += [
            moved(_, offset) if number % 2 == 0 else moved(_, offset - 2)
            for _ in (period if number % 2 == 0 else other)
        ]
    parser = Parser(recipes()[name], tokenizer=make_tokenizer(table), tagger=Labels())
    held = list(getattr(parser, call)(text))
    where = 'rule %s, readings %r, %s of %d times %r' % (name, table, call, count, PERIOD)
    if len(held) != len(expected):
        raise Mismatch('%s: %d matches, expected %d' % (where, len(held), len(expected)))
    list(parser.extract(text[:40]))
    numbers = list(range(len(held)))
    for attempt in (1, 2):
        # forwards, then backwards
        for number in numbers:
            counter.step()
            actual = snapshot(held[number])
            if actual != expected[number][0]:
                raise Mismatch('%s: match %d reports %r, expected %r' % (
                    where, number, actual[:2], expected[number][0][:2]
                ))
            actual = fact_view(held[number])
            if actual != expected[number][1]:
                raise Mismatch('%s: fact %d is %r, expected %r' % (
                    where, number, actual, expected[number][1]
                ))
        numbers.reverse()
    counter.state(case)
    counter.trace()


def again_cases(limit):
    for name in sorted(recipes()):
        for table in TABLES:
            yield (name, table, limit)


def run_again(case, counter):
    """One fact is read many times, the copies are spoilt."""
    name, table, limit = case
    parser = Parser(recipes()[name], tokenizer=make_tokenizer(table), tagger=Labels())
    for text in LONG:
        match = parser.find(text)
        expected = isolated(name, table, text, 'findall')[:1]
        if bool(expected) != bool(match):
            raise Mismatch('rule %s, readings %r, text %r: found %r' % (name, table, text, match))
        for number in range(limit if match else 0):
            counter.step()
            actual = fact_view(match)
            if actual != expected[0][1]:
                raise Mismatch('rule %s, readings %r, text %r: fact is %r when it is read '
                               'for the time %d, expected %r' % (
                                   name, table, text, actual, number + 1, expected[0][1]
                               ))
            spoil(match)
        counter.state(case, text)
        counter.trace()


class C07(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        lists = [(0,), (0, 3), (2, 1), (1, 0)] + ([(3,), (0, 1, 2), (3, 2), (1, 2, 3)] if deep else [])
        few = [(0, 3), (2, 1), (0, 1)]
        pairs = [(LONG[0], LONG[1]), (LONG[2], LONG[3])] if not deep else list(
            itertools.product(LONG, repeat=2))
        result = [
            Family('join', lambda: join_cases(2, lists), run_join(3),
                   'all pairs of %d alternatives that share parts, %d dictionaries, all texts up to 3 words' % (
                       COUNT, len(lists) ** 2)),
            Family('local', lambda: local_cases(lists), run_local(5 if deep else 4),
                   '%d rules, %d dictionaries, all texts up to %d words and all their parts' % (
                       COUNT, len(lists) ** 2, 5 if deep else 4)),
            Family('histories', lambda: history_cases(5 if deep else 3, pairs), run_history,
                   'all sequences of %d of %d steps, %d rules' % (
                       5 if deep else 3, len(STEPS), len(recipes()))),
            Family('many', lambda: many_cases(280 if deep else 40), run_many,
                   'texts of up to %d periods, all matches are kept and read in two orders' % (
                       280 if deep else 40)),
            Family('again', lambda: again_cases(2100 if deep else 130), run_again,
                   'the fact of a match is read %d times' % (2100 if deep else 130)),
        ]
        if deep:
            result.append(Family(
                'triples', lambda: join_cases(3, few), run_join(3),
                'all triples of %d alternatives, %d dictionaries' % (COUNT, len(few) ** 2)
            ))
        return result


CHECK = C07(
    'C07',
    rule='state = (rule, dictionary, text, history); transition = one parse or '
         'one step; trace = one set of matches compared'
)
