"""C12: matched words carry exactly the readings compatible with the rule."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub, tags
from mc.enum import sizes
from mc.yg import Parser, ReadyTokenizer

from yargy import rule, or_, and_, not_
from yargy import predicates as bank
from yargy.tagger import Tagger

# readings: normal form, grammemes
UNIVERSE = (
    ('а', ('NOUN', 'sing')),
    ('аа', ('NOUN', 'plur')),
    ('аб', ('VERB', 'sing')),
    ('ав', ('VERB', 'Sgtm', 'plur')),
    ('аг', ()),
    ('а', ('NOUN', 'sing', 'Pltm')),
)

NOUN = ('gram', 'NOUN')
VERB = ('gram', 'VERB')
PLUR = ('gram', 'plur')
SINGLE = ('single',)
NARROWING = (NOUN, VERB, PLUR, SINGLE, ('gram', 'Pltm'))
OTHER = (
    ('eq',), ('caseless',), ('true',), ('type',), ('normalized',), ('dictionary',),
    ('custom',), ('length',), ('and', NOUN, VERB), ('and', ('true',), NOUN),
    ('or', NOUN, SINGLE), ('or', PLUR, ('true',)), ('not', VERB),
    ('not', ('not', NOUN)), ('and', NOUN), ('or', SINGLE),
)


def anything(_):
    return True


def build(item):
    kind = item[0]
    return {
        'gram': lambda: bank.gram(item[1]),
        'single': bank.is_single,
        'eq': lambda: bank.eq('а'),
        'caseless': lambda: bank.caseless('А'),
        'true': bank.true,
        'type': lambda: bank.type('RU'),
        'tag': lambda: bank.tag('T'),
        # a normal form of the second reading, other readings stay
        'normalized': lambda: bank.normalized('аб'),
        'dictionary': lambda: bank.dictionary({'аа', 'аб'}),
        'custom': lambda: bank.custom(anything),
        'length': lambda: bank.length_eq(1),
        'and': lambda: and_(*(build(_) for _ in item[1:])),
        'or': lambda: or_(*(build(_) for _ in item[1:])),
        'not': lambda: not_(build(item[1])),
    }[kind]()


def satisfies(item, reading):
    if item[0] == 'gram':
        return item[1] in reading[1]
    return 'sing' in reading[1] or 'Sgtm' in reading[1]


def holds(item, readings):
    kind = item[0]
    if kind in ('gram', 'single'):
        return any(satisfies(item, _) for _ in readings)
    if kind == 'and':
        return all(holds(_, readings) for _ in item[1:])
    if kind == 'or':
        return any(holds(_, readings) for _ in item[1:])
    if kind == 'not':
        return not holds(item[1], readings)
    if kind == 'normalized':
        return any(_[0] == 'аб' for _ in readings)
    if kind == 'dictionary':
        return any(_[0] in ('аа', 'аб') for _ in readings)
    return True


def narrowed(item, readings):
    if item[0] in ('gram', 'single'):
        return [_ for _ in readings if satisfies(item, _)]
    return list(readings)


def reading_lists(size, universe=UNIVERSE):
    """Sequences without and with equal readings."""
    for count in range(1, size + 1):
        for chosen in itertools.permutations(universe, count):
            yield chosen
    for first, second in itertools.permutations(universe[:4], 2):
        yield (first, first, second)
        yield (first, second, first)


class Label(Tagger):
    tags = ['T']

    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged('T')


def observe(token):
    return (token.value, tuple(token.span), token.type, getattr(token, 'tag', None), stub.forms_of(token))


def expected(word, start, tag, readings):
    return (word, (start, start + len(word)), 'RU', tag, stub.expected_forms(readings))


def words_for(item):
    # the words the stub gives to normalized() and dictionary()
    return {'аб': [('аб', ())], 'аа': [('аа', ())]}


def run_single(case, counter):
    """One word, one predicate."""
    item, readings, tagged, cached = case
    known = dict(words_for(item), **{'а': list(readings)})
    tokenizer = stub.tokenizer(known, cached=cached)
    tagger = Label() if tagged else None
    tag = 'T' if tagged else None
    parser = Parser(rule(build(item)), tokenizer=tokenizer, tagger=tagger)
    plain = Parser(rule(bank.true()), tokenizer=tokenizer, tagger=tagger)
    counter.state(case)
    for _ in range(2):
        counter.step()
        counter.trace()
        match = parser.match('а')
        if (match is not None) != holds(item, readings):
            raise Mismatch('%r of a word with readings %r: match is %r' % (item, readings, match))
        if match:
            actual = [observe(_) for _ in match.tokens]
            wanted = [expected('а', 0, tag, narrowed(item, readings))]
            if actual != wanted:
                raise Mismatch('%r gives %r, expected %r' % (item, actual, wanted))
        # the same word parsed by another parser has all its readings
        counter.step()
        other = plain.match('а')
        if [observe(_) for _ in other.tokens] != [expected('а', 0, tag, readings)]:
            raise Mismatch('after %r the word is %r' % (item, other.tokens))
    forms = tokenizer.morph('а')
    if [(_.normalized, tuple(sorted(_.grams.values))) for _ in forms] != list(stub.expected_forms(readings)):
        raise Mismatch('after %r the analysis is %r' % (item, forms))


def single_cases(size):
    def cases():
        for item in NARROWING + OTHER:
            for readings in reading_lists(size):
                for tagged in (False, True):
                    for cached in (False, True):
                        yield (item, readings, tagged, cached)
    return cases


SHAPES = ('seq', 'or', 'rep', 'nested', 'gap')


def run_many(case, counter):
    """The same word in several places of one text and of one rule."""
    shape, first, second, readings, cached = case
    known = dict(words_for(None), **{'а': list(readings)})
    tokenizer = stub.tokenizer(known, cached=cached)
    if shape == 'seq':
        item = rule(build(first), build(second))
        text, chains = 'а а', [(0, 2, (first, second))]
    elif shape == 'or':
        item = or_(rule(build(first)), rule(build(second)), rule(bank.true()))
        text, chains = 'а', [(0, 1, (first,)), (0, 1, (second,)), (0, 1, (('true',),))]
    elif shape == 'rep':
        item = or_(rule(build(first)), rule(build(second))).repeatable(min=2, max=2)
        text = 'а А'
        chains = [(0, 2, _) for _ in itertools.product((first, second), repeat=2)]
    elif shape == 'nested':
        part = rule(build(first)).named('X')
        item = or_(rule(part, part), rule(part), rule(part, build(second)))
        text = 'а а'
        chains = [
            (0, 2, (first, first)), (0, 2, (first, second)),
            (0, 1, (first,)), (1, 2, (first,))
        ]
    else:
        item = rule(build(first), '-', build(second))
        text, chains = 'а-А', [(0, 2, (first, second))]
    parser = Parser(item, tokenizer=tokenizer)
    offsets = [0, 2]
    wanted = {}
    for start, stop, items in chains:
        # equality with the lower case word
        values = [text[offsets[_]] for _ in range(start, stop)]
        if all(holds(_, readings) for _ in items) and not any(
                _[0] == 'eq' and value == 'А' for _, value in zip(items, values)):
            tokens = tuple(
                expected(value, offsets[position], None, narrowed(_, readings))
                for position, value, _ in zip(range(start, stop), values, items)
            )
            wanted.setdefault(tokens, 0)
            wanted[tokens] += 1
    counter.state(case)
    for _ in range(2):
        counter.step()
        actual = {}
        for match in parser.extract(text):
            counter.trace()
            tokens = tuple(observe(_) for _ in match.tokens if _.type == 'RU')
            actual.setdefault(tokens, 0)
            actual[tokens] += 1
        if set(actual) != set(wanted):
            raise Mismatch('%s: matches %r, expected %r' % (
                shape, sorted(actual), sorted(wanted)
            ))


def many_cases(size, items):
    def cases():
        for shape in SHAPES:
            for first in items:
                for second in items:
                    for readings in reading_lists(size, UNIVERSE[:5]):
                        for cached in (False, True):
                            yield (shape, first, second, readings, cached)
    return cases


def run_ready(case, counter):
    """Ready tokens are not changed by narrowing."""
    item, readings, tagged = case
    tokenizer = stub.tokenizer(dict(words_for(item), **{'а': list(readings)}))
    tokens = list(tokenizer('а а'))
    if tagged:
        tokens = [_.tagged('T') for _ in tokens]
    before = [observe(_) for _ in tokens]
    parser = Parser(
        rule(build(item), bank.true()).repeatable(),
        tokenizer=ReadyTokenizer(tokenizer), tagger=Label() if tagged else None
    )
    counter.state(case)
    counter.step()
    counter.trace()
    match = parser.match(tokens)
    after = [observe(_) for _ in tokens]
    if before != after:
        raise Mismatch('tokens became %r, were %r' % (after, before))
    if match and stub.forms_of(match.tokens[1]) != stub.expected_forms(readings):
        raise Mismatch('%r narrows the other word: %r' % (item, match.tokens))


def ready_cases(size):
    def cases():
        for item in NARROWING + OTHER:
            for readings in reading_lists(size):
                for tagged in (False, True):
                    yield (item, readings, tagged)
    return cases


# ------------------------------------------------ many readings, many words

def many_readings(count, shift):
    return [
        UNIVERSE[(index * index + shift) % 6][:1] + (
            UNIVERSE[(index * index + shift) % 6][1] + (() if index % 3 else ('r0',)),
        ) for index in range(count)
    ]


def size_cases(limit):
    for item in NARROWING + OTHER:
        for count in sizes(limit):
            for cached in (False, True):
                yield (item, 'readings', count, cached)
                yield (item, 'words', count, cached)


def run_size(case, counter):
    item, what, count, cached = case
    total = count if what == 'readings' else 3
    known = words_for(item)
    for shift, letter in enumerate('абв'):
        known[letter] = many_readings(total, shift)
    tokenizer = stub.tokenizer(known, cached=cached)
    length = count if what == 'words' else 3
    letters = [
        'абв'[index * index % 3] if item[0] not in ('eq', 'caseless') else 'а'
        for index in range(length)
    ]
    text = ' '.join(letters)
    parser = Parser(rule(build(item)).repeatable(), tokenizer=tokenizer)
    for attempt in (1, 2):
        counter.step()
        matches = list(parser.findall(text))
        wanted = []
        for index, letter in enumerate(letters):
            if holds(item, known[letter]):
                wanted.append(expected(letter, 2 * index, None, narrowed(item, known[letter])))
        actual = [observe(_) for match in matches for _ in match.tokens]
        if actual != wanted:
            for one, two in zip(actual, wanted):
                if one != two:
                    raise Mismatch('%r, %d %s: word %r, expected %r' % (item, count, what, one, two))
            raise Mismatch('%r, %d %s: %d words, expected %d' % (
                item, count, what, len(actual), len(wanted)
            ))
        counter.trace()
    counter.state(case)


# ---------------------------------------- every grammeme

def run_tags(case, counter):
    """Readings of every kind are left by each grammeme they have."""
    for grams in tags.block(case):
        other = [_ for _ in ('NOUN', 'VERB', 'sing') if _ not in grams]
        items = [('а', grams), ('б', tuple(other)), ('в', grams + tuple(other)), ('г', ()), ('а', grams[:1])]
        tokenizer = tags.tokenizer({'слово': items})
        for name in grams + tuple(other):
            for count in (1, 2):
                parts = [bank.gram(name)] * count
                parser = Parser(rule(*parts), tokenizer=tokenizer)
                match = parser.match('слово ' * count)
                counter.state(grams, name)
                counter.step()
                counter.trace()
                expected = [
                    (normal, tuple(sorted(own))) for normal, own in items
                    if name in own
                ]
                if not match:
                    raise Mismatch('no match of gram(%r) and readings %r' % (name, items))
                for token in match.tokens:
                    actual = [(_.normalized, tuple(sorted(_.grams.values))) for _ in token.forms]
                    if actual != expected:
                        raise Mismatch('gram(%r) of readings %r left %r, expected %r' % (
                            name, items, actual, expected
                        ))


class C12(Check):
    def families(self, tier):
        quick = tier == 'quick'
        items = (NOUN, PLUR, SINGLE, ('eq',), ('and', NOUN), ('or', NOUN, SINGLE), ('not', VERB))
        return [
            Family('single', single_cases(3 if quick else 4), run_single,
                   'all predicates x all sequences of 1..%d of %d readings' % (3 if quick else 4, len(UNIVERSE))),
            Family('many', many_cases(2 if quick else 3, items[:5] if quick else items), run_many,
                   'pairs of predicates in %d shapes' % len(SHAPES)),
            Family('ready', ready_cases(2 if quick else 3), run_ready, 'ready tokens'),
            Family('tags', tags.blocks, run_tags,
                   'every set of grammemes of the dictionary, narrowed to each of them'),
            Family('size', lambda: size_cases(34 if quick else 140), run_size,
                   'up to %d readings of a word, up to %d words' % ((34, 34) if quick else (140, 140))),
        ]


CHECK = C12(
    'C12',
    rule='state = (rule, readings of the word); transition = one parse; trace '
         '= one match whose words are compared with the model',
)
