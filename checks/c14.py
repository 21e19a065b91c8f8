"""C14: agreement filters matches and readings consistently."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import combo, enum, stub, tags
from mc.yg import Parser

from yargy import rule, or_, and_, not_
from yargy.predicates import eq, gram, true
from yargy.morph import Form, Grams
from yargy.relations import (
    Relation, main, gender_relation, number_relation, case_relation, gnc_relation
)
from yargy.tagger import Tagger

LETTERS = 'абвг'


def reading_of(form):
    for gram_ in form.grams.values:
        if gram_.startswith('r'):
            return int(gram_[1:])


class Table(Relation):
    """Symmetric relation over numbered readings."""
    __attributes__ = ['pairs']

    def __init__(self, pairs):
        self.pairs = pairs

    label = 'table'

    def __call__(self, form, other):
        return (reading_of(form), reading_of(other)) in self.pairs


def table_pairs(size, mask):
    cells = [(a, b) for a in range(size) for b in range(a, size)]
    pairs = set()
    for index, (a, b) in enumerate(cells):
        if mask >> index & 1:
            pairs.add((a, b))
            pairs.add((b, a))
    return frozenset(pairs)


def tables(size):
    return range(1 << (size * (size + 1) // 2))


def subsets(size):
    for mask in range(1, 1 << size):
        yield tuple(_ for _ in range(size) if mask >> _ & 1)


def sequences(size):
    for count in range(1, size + 1):
        for chosen in itertools.permutations(range(size), count):
            yield chosen


def readings_entry(letter, items):
    # the normal form tells the position, equal readings are possible
    return [(letter + str(_), ('r%d' % _,)) for _ in items]


def solve(words, constraints):
    """Readings that belong to a choice where all constraints hold."""
    kept = [set() for _ in words]
    for choice in itertools.product(*(range(len(_)) for _ in words)):
        if all(
                (words[a][choice[a]], words[b][choice[b]]) in pairs
                for a, b, pairs in constraints):
            for index, position in enumerate(choice):
                kept[index].add(words[index][position])
    return kept


def possible(words, constraints):
    """Largest sets where every reading has support everywhere."""
    sets = [set(_) for _ in words]
    changed = True
    while changed:
        changed = False
        for a, b, pairs in constraints:
            for first, second in ((a, b), (b, a)):
                keep = {
                    x for x in sets[first]
                    if any((x, y) in pairs for y in sets[second])
                }
                if keep != sets[first]:
                    sets[first] = keep
                    changed = True
    return sets


def is_subsequence(items, whole):
    rest = iter(whole)
    return all(any(_ == item for _ in rest) for item in items)


def judge(match, words, constraints, joined, where):
    """words: readings of each word of the text in order."""
    kept = solve(words, constraints)
    if match is None:
        if all(kept):
            raise Mismatch('%s: rejected, the words agree by %r' % (where, kept))
        return
    if len(match.tokens) != len(words):
        raise Mismatch('%s: matched %r' % (where, match.tokens))
    if not all(possible(words, constraints)[_] for _ in joined):
        raise Mismatch('%s: accepted, some word agrees with nothing' % where)
    left = []
    for index, token in enumerate(match.tokens):
        if not words[index]:
            left.append([])
            continue
        items = [reading_of(_) for _ in token.forms]
        left.append(items)
        if index not in joined:
            if items != list(words[index]):
                raise Mismatch('%s: word %d is not joined, readings %r became %r' % (
                    where, index, words[index], items
                ))
            continue
        if not items:
            raise Mismatch('%s: word %d has no readings' % (where, index))
        if not is_subsequence(items, words[index]):
            raise Mismatch('%s: readings %r of word %d became %r' % (
                where, words[index], index, items
            ))
        for item in kept[index]:
            if items.count(item) != list(words[index]).count(item):
                raise Mismatch('%s: reading %r of word %d is lost, left %r' % (
                    where, item, index, items
                ))
    for a, b, pairs in constraints:
        for first, second in ((a, b), (b, a)):
            for item in left[first]:
                if not any((item, other) in pairs for other in left[second]):
                    raise Mismatch('%s: reading %r of word %d agrees with no reading %r of word %d' % (
                        where, item, first, left[second], second
                    ))


def all_pairs(indexes, pairs):
    return [(a, b, pairs) for a, b in itertools.combinations(indexes, 2)]


# every case is (shape, size of the universe, words, masks of the tables)

def run(case, counter):
    shape, size, words, masks = case
    tables_ = [table_pairs(size, _) for _ in masks]
    build, constraints, joined = SHAPES[shape]
    letters = LETTERS[:len(words)]
    item = build(letters, [Table(_) for _ in tables_])
    tokenizer = stub.tokenizer({
        letter: readings_entry(letter, items)
        for letter, items in zip(letters, words)
    })
    parser = Parser(item, tokenizer=tokenizer)
    counter.state(case)
    counter.step(2)
    text = ' '.join(letters)
    for _ in range(2):
        counter.trace()
        judge(
            parser.match(text), words, constraints(tables_), joined,
            '%s, words %r, tables %r' % (shape, words, [sorted(_) for _ in tables_])
        )


# the same word several times, in one letter case or in two

def patterns(count):
    for pattern in itertools.product('аА' if count < 3 else 'а', repeat=count):
        yield ''.join(pattern)
    if count > 2:
        for pattern in itertools.product('аб', repeat=count):
            if pattern[0] == 'а' and len(set(pattern)) == 2:
                yield ''.join(pattern)


def equal_word_cases(size, names):
    counts = {
        'flat2': (2, 1), 'flat3': (3, 1), 'flat4': (4, 1), 'phrase': (3, 1), 'mixed': (3, 1), 'two': (3, 2),
        'nested': (3, 2), 'same': (3, 1), 'both2': (2, 2), 'repeated': (3, 1), 'crossed': (4, 2), 'chain': (3, 2),
    }
    for name in names:
        count, relations = counts[name]
        for letters in patterns(count):
            different = sorted(set(letters.lower()))
            for words in itertools.product(sequences(size), repeat=len(different)):
                for masks in itertools.product(tables(size), repeat=relations):
                    yield (name, size, letters, words, masks)


def run_equal_words(case, counter):
    shape, size, letters, given, masks = case
    words = [given[sorted(set(letters.lower())).index(_.lower())] for _ in letters]
    tables_ = [table_pairs(size, _) for _ in masks]
    build, constraints, joined = SHAPES[shape]
    tokenizer = stub.tokenizer({
        letter.lower(): readings_entry(letter.lower(), items) for letter, items in zip(letters, words)
    })
    parser = Parser(build(letters, [Table(_) for _ in tables_]), tokenizer=tokenizer)
    counter.state(case)
    counter.step()
    counter.trace()
    judge(
        parser.match(' '.join(letters)), words, constraints(tables_), joined,
        '%s, text %r, words %r, tables %r' % (shape, letters, words, [sorted(_) for _ in tables_])
    )


def flat(letters, relations):
    relation, = relations
    return rule(*(eq(_).match(relation) for _ in letters))


def phrase_flat(letters, relations):
    # phrases instead of words
    relation, = relations
    return rule(*(rule(eq(_)).named('N').match(relation) for _ in letters))


def mixed(letters, relations):
    # the second word is not joined
    relation, = relations
    first, second, third = letters
    return rule(eq(first).match(relation), second, eq(third).match(relation))


def two_relations(letters, relations):
    # the middle word is joined by both
    r, s = relations
    first, second, third = letters
    return rule(
        eq(first).match(r), eq(second).match(r).match(s), eq(third).match(s)
    )


def nested(letters, relations):
    # (first r second) is joined to third through its main word
    r, s = relations
    first, second, third = letters
    phrase = rule(eq(first).match(r), main(eq(second).match(r)))
    return rule(phrase.match(s), eq(third).match(s))


def same_nested(letters, relations):
    # a word joined both alone and as the main word of the phrase
    r, = relations
    first, second, third = letters
    phrase = rule(main(eq(first).match(r)), eq(second))
    return rule(phrase.match(r), eq(third).match(r))


def repeated(letters, relations):
    # every occurrence of the repeated part is joined
    r, = relations
    word = or_(*(eq(_) for _ in letters)).match(r)
    return rule(word).repeatable()


def separate(letters, relations):
    # equal relations made separately are separate
    r, = relations
    first, second, third = letters
    s = Table(r.pairs)
    return rule(eq(first).match(r), eq(second).match(r), eq(third).match(s))


def crossed(letters, relations):
    # a r c, b s d
    r, s = relations
    a, b, c, d = letters
    return rule(eq(a).match(r), eq(b).match(s), eq(c).match(r), eq(d).match(s))


def optional(letters, relations):
    # the optional word in the middle is present
    r, = relations
    a, b, c = letters
    return rule(
        eq(a).match(r), eq(b).match(r).optional(), rule(eq('д').match(r)).optional(),
        eq(c).match(r)
    )


def both(letters, relations):
    # the words are joined by every relation
    items = []
    for letter in letters:
        item = eq(letter)
        for relation in relations:
            item = item.match(relation)
        items.append(item)
    return rule(*items)


def both_phrases(letters, relations):
    # words by the first, phrases around them by the second
    r, s = relations
    return rule(*(
        rule(main(eq(_).match(r)), rule('д').optional()).named('N').match(s)
        for _ in letters
    ))


def both_apart(letters, relations):
    # two phrases over the same words, each with a relation of its own
    r, s = relations
    a, b, c = letters
    first = rule(eq(a).match(r).match(s), eq(b).match(r))
    return rule(first, eq(c).match(s))


def chain(letters, relations):
    # the phrase of the phrase
    r, s = relations
    a, b, c = letters
    inner = rule(main(eq(a).match(r)), eq(b).match(r)).match(s)
    return rule(main(inner), eq(c).match(s))


SHAPES = {
    'both2': (both, lambda t: [(0, 1, _) for _ in t], (0, 1)),
    'both3': (both, lambda t: [
        _ for pairs in t for _ in all_pairs((0, 1, 2), pairs)], (0, 1, 2)),
    'three2': (both, lambda t: [(0, 1, _) for _ in t], (0, 1)),
    'both phrases': (both_phrases, lambda t: [(0, 1, _) for _ in t], (0, 1)),
    'both apart': (both_apart, lambda t: [(0, 1, t[0]), (0, 2, t[1])], (0, 1, 2)),
    'chain': (chain, lambda t: [(0, 1, t[0]), (0, 2, t[1])], (0, 1, 2)),
    'flat2': (flat, lambda t: all_pairs((0, 1), t[0]), (0, 1)),
    'flat3': (flat, lambda t: all_pairs((0, 1, 2), t[0]), (0, 1, 2)),
    'flat4': (flat, lambda t: all_pairs((0, 1, 2, 3), t[0]), (0, 1, 2, 3)),
    'phrase': (phrase_flat, lambda t: all_pairs((0, 1, 2), t[0]), (0, 1, 2)),
    'mixed': (mixed, lambda t: [(0, 2, t[0])], (0, 2)),
    'two': (two_relations, lambda t: [(0, 1, t[0]), (1, 2, t[1])], (0, 1, 2)),
    'nested': (nested, lambda t: [(0, 1, t[0]), (1, 2, t[1])], (0, 1, 2)),
    'same': (same_nested, lambda t: [(0, 2, t[0])], (0, 2)),
    'repeated': (repeated, lambda t: all_pairs((0, 1, 2), t[0]), (0, 1, 2)),
    'separate': (separate, lambda t: [(0, 1, t[0])], (0, 1)),
    'crossed': (crossed, lambda t: [(0, 2, t[0]), (1, 3, t[1])], (0, 1, 2, 3)),
    'optional': (optional, lambda t: all_pairs((0, 1, 2), t[0]), (0, 1, 2)),
    'single': (flat, lambda t: [], ()),
}


def combine(shape, size, items, count, relations=1):
    def cases():
        items_ = list(items)
        for words in itertools.product(items_, repeat=count):
            for masks in itertools.product(tables(size), repeat=relations):
                yield (shape, size, words, masks)
    return cases


def shapes(size, names, items=None):
    counts = {
        'flat2': (2, 1), 'flat3': (3, 1), 'flat4': (4, 1), 'phrase': (3, 1),
        'mixed': (3, 1), 'two': (3, 2), 'nested': (3, 2), 'same': (3, 1),
        'repeated': (3, 1), 'separate': (3, 1), 'crossed': (4, 2),
        'optional': (3, 1), 'single': (1, 1),
        'both2': (2, 2), 'both3': (3, 2), 'three2': (2, 3), 'both phrases': (2, 2),
        'both apart': (3, 2), 'chain': (3, 2),
    }

    def cases():
        for name in names:
            count, relations = counts[name]
            for case in combine(name, size, items or subsets(size), count, relations)():
                yield case
    return cases


REPEATED = ((0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 1), (1, 1), (0,), (1, 0))


class First(Tagger):
    tags = ['T']

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged('T') if index == 0 else token


def run_without(case, counter):
    """Words without readings never agree, whatever the table."""
    mask, which, count, tagged = case
    group = tagged if type(tagged) is int else count
    relations = [Table(table_pairs(2, mask)) for _ in range(0, count, group)]
    words = list('абвгдежзиклмнопрс'[:count])
    tokenizer = stub.tokenizer({
        _: readings_entry(_, (0, 1)) for _ in words
    })
    if which is not None:
        words[which] = 'x'
    parser = Parser(
        rule(*(eq(_).match(relations[index // group]) for index, _ in enumerate(words))),
        tokenizer=tokenizer,
        tagger=First() if tagged is True else None
    )
    counter.state(case)
    counter.step()
    counter.trace()
    match = parser.match(' '.join(words))
    if which is not None:
        if match is not None:
            raise Mismatch('%r: a word without readings agrees' % (words,))
        return
    if group < count:
        if match is None:
            raise Mismatch('%r: words that agree are refused' % (words,))
        return
    judge(
        match, [(0, 1)] * count, all_pairs(range(count), relations[0].pairs),
        range(count) if count > 1 else (), 'words %r' % words
    )


def without():
    for mask in tables(2):
        for count in (1, 2, 3):
            for which in [None] + list(range(count)):
                for tagged in (False, True):
                    yield (mask, which, count, tagged)
    # every word in a group of its own, or every two of them
    for count in (2, 3, 4, 5, 6, 9, 17):
        for which in [None] + list(range(count)):
            for group in (1, 2):
                yield (15, which, count, group)


def run_narrowed(case, counter):
    """gram() narrows first, the rest has to agree."""
    mask, first, second, third = case
    size = 3
    relation = Table(table_pairs(size, mask))
    words = [first, second, third]
    tokenizer = stub.tokenizer({
        _: readings_entry(_, items) for _, items in zip('абв', words)
    })
    parser = Parser(
        rule(gram('r0').match(relation), true().match(relation), eq('в')),
        tokenizer=tokenizer
    )
    counter.state(case)
    counter.step()
    counter.trace()
    match = parser.match('а б в')
    if 0 not in first:
        if match is not None:
            raise Mismatch('%r has no reading r0' % (first,))
        return
    words[0] = tuple(_ for _ in first if _ == 0)
    judge(match, words, [(0, 1, relation.pairs)], (0, 1), 'narrowed %r' % (case,))


def narrowed():
    for mask in tables(3):
        for first in sequences(3):
            for second in subsets(3):
                yield (mask, first, second, (0, 2))


def run_boolean(case, counter):
    """and_, or_, not_ of relations join like one relation."""
    kind, masks, words = case
    a, b = [Table(table_pairs(2, _)) for _ in masks]
    cells = {(x, y) for x in range(2) for y in range(2)}
    if kind == 'and':
        relation, pairs = and_(a, b), a.pairs & b.pairs
    elif kind == 'or':
        relation, pairs = or_(a, b), a.pairs | b.pairs
    else:
        relation, pairs = not_(a), cells - a.pairs
    tokenizer = stub.tokenizer({
        _: readings_entry(_, items) for _, items in zip('аб', words)
    })
    parser = Parser(
        rule(eq('а').match(relation), eq('б').match(relation)), tokenizer=tokenizer
    )
    counter.state(case)
    counter.step()
    counter.trace()
    judge(parser.match('а б'), words, [(0, 1, pairs)], (0, 1), 'boolean %r' % (case,))


def boolean():
    for kind in ('and', 'or', 'not'):
        for masks in itertools.product(tables(2), repeat=2):
            for words in itertools.product(sequences(2), repeat=2):
                yield (kind, masks, words)


# ------------------------------------------------ relations of the library

GRAMS = [
    ('NOUN', 'masc', 'sing', 'nomn'), ('NOUN', 'femn', 'sing', 'gent'), ('NOUN', 'masc', 'plur', 'gent'),
]
KINDS = [
    number_relation, gender_relation, case_relation, gnc_relation,
    lambda: and_(number_relation(), case_relation()), lambda: or_(gender_relation(), case_relation()),
    lambda: not_(number_relation()),
]


def library_pairs(make):
    forms = [Form('н', Grams(set(_)), None) for _ in GRAMS]
    relation = make()
    return frozenset(
        (a, b) for a in range(len(GRAMS)) for b in range(len(GRAMS)) if relation(forms[a], forms[b])
    )


def library_cases(size):
    def cases():
        for name, count, number in [
                ('two', 3, 2), ('nested', 3, 2), ('both2', 2, 2), ('crossed', 4, 2), ('both apart', 3, 2),
                ('chain', 3, 2), ('flat3', 3, 1)]:
            kinds = [(_,) * number for _ in range(len(KINDS))]
            if number > 1 and count < 4:
                kinds += list(itertools.permutations(range(3), number))
            for chosen in kinds:
                for words in itertools.product(list(subsets(size)), repeat=count):
                    yield (name, chosen, words)
    return cases


def run_library(case, counter):
    """Every relation made is one of its own, also when the library made several of one kind."""
    name, kinds, words = case
    relations = [KINDS[_]() for _ in kinds]
    pairs = [library_pairs(KINDS[_]) for _ in kinds]
    build, constraints, joined = SHAPES[name]
    letters = LETTERS[:len(words)]
    tokenizer = stub.tokenizer({
        letter: [(letter + str(_), ('r%d' % _,) + GRAMS[_]) for _ in items]
        for letter, items in zip(letters, words)
    })
    counter.state(case)
    counter.step()
    counter.trace()
    judge(
        Parser(build(letters, relations), tokenizer=tokenizer).match(' '.join(letters)),
        words, constraints(pairs), joined, '%s of relations %r, words %r' % (name, kinds, words)
    )


# ------------------------------------------------ many readings, words, rounds

def size_cases(limit):
    def cases():
        for number in enum.sizes(limit):
            for place in sorted({0, 1, number // 2, number - 1}):
                if place < number:
                    for side in range(2):
                        yield ('readings', number, place, side)
        for number in enum.sizes(limit // 4):
            for place in sorted({0, number // 2, number - 1}):
                for bad in (False, True):
                    if number > 1:
                        yield ('words', number, place, bad)
        for number in enum.sizes(limit):
            for place in sorted({0, number // 2, number - 1}):
                for style in range(3):
                    yield ('refused', number, place, style)
        for number in enum.sizes(limit // 4):
            for order in range(6):
                for agree in range(4):
                    yield ('rounds', number, order, agree)
    return cases


def run_refused(case, counter):
    """Only one of many derivations of a text agrees."""
    _, number, place, style = case
    tokenizer = stub.tokenizer({
        'а': readings_entry('а', [0, 1]), 'б': readings_entry('б', [2, 3])
    })
    refusing, accepting = Table(frozenset()), Table(frozenset({(1, 3), (3, 1)}))

    def phrase(index):
        relation = accepting if index == place else refusing
        return rule(eq('а').match(relation), eq('б').match(relation))

    if style == 0:
        root = or_(*map(phrase, range(number)))
    elif style == 1:
        # one after another
        root = phrase(number - 1)
        for index in reversed(range(max(0, number - 60), number - 1)):
            root = or_(phrase(index), root)
    else:
        # between others
        root = rule(or_(*map(phrase, range(number))), rule('в').optional(), rule('г').optional())
    if style == 1 and place < number - 60:
        return
    parser = Parser(root, tokenizer=tokenizer)
    counter.state(case)
    for name, found in (
            ('match', [parser.match('а б')]), ('find', [parser.find('а б')]),
            ('findall', list(parser.findall('а б'))), ('extract', list(parser.extract('а б')))):
        counter.step()
        counter.trace()
        actual = [
            _ and [[reading_of(form) for form in token.forms] for token in _.tokens] for _ in found
        ]
        if actual != [[[1], [3]]]:
            raise Mismatch('%s: %d derivations, number %d agrees, found %s' % (
                name, number, place, str(actual)[:300]
            ))


def run_size(case, counter):
    name, number, one, other = case
    if name == 'refused':
        return run_refused(case, counter)
    if name == 'readings':
        # one reading of the first agrees with one reading of the second
        rows = [list(range(1, number + 1)) for _ in range(2)]
        rows[other] = [0]
        pairs = {(0, one + 1), (one + 1, 0)}
        expected = [[one + 1], [one + 1]]
        expected[other] = [0]
    elif name == 'words':
        # all words have 0, which agrees with 0 only, one of them may be without it
        rows = [[1, 0, 2] if _ % 2 else [0, 1] for _ in range(number)]
        pairs = {(0, 0)}
        expected = [[0]] * number
        if other:
            rows[one] = [1, 2]
            expected = None
    else:
        # a reading of the first word supports one of the second, that one of the third
        # that the next one of the first: without the first link all of them go
        rows = [[3 * _ + place for _ in range(number)] for place in range(3)]
        pairs = set()
        for index in range(number * 3 - 1):
            pairs.update([(index, index + 1), (index + 1, index)])
        # the ends do not agree with anything else, so nothing is left
        expected = None
        if other:
            # three readings that agree, first, in the middle, last
            rows = [
                row[:index] + [number * 3 + place] + row[index:]
                for place, row in enumerate(rows)
                for index in [(0, number // 2, number)[other - 1]]
            ]
            expected = [[number * 3 + _] for _ in range(3)]
            pairs.update(
                (number * 3 + a, number * 3 + b) for a in range(3) for b in range(3)
            )
        order = list(itertools.permutations(range(3)))[one]
        rows = [rows[_] for _ in order]
        if expected:
            expected = [expected[_] for _ in order]
    letters = ['а' * (_ + 1) for _ in range(len(rows))]
    tokenizer = stub.tokenizer({
        letter: readings_entry('н', row) for letter, row in zip(letters, rows)
    })
    relation = Table(frozenset(pairs))
    parser = Parser(
        rule(*(eq(_).match(relation) for _ in letters)), tokenizer=tokenizer
    )
    counter.state(case)
    counter.step()
    counter.trace()
    match = parser.match(' '.join(letters))
    actual = match and [[reading_of(form) for form in _.forms] for _ in match.tokens]
    if actual != expected:
        raise Mismatch('%r: readings left are %s, expected %s' % (
            case, str(actual)[:300], str(expected)[:300]
        ))


# ---------------------------------------- words of the dictionary

OTHERS = [
    ('NOUN', 'masc', 'sing', 'nomn'), ('NOUN', 'femn', 'sing', 'gent'), ('NOUN', 'plur', 'datv'),
    ('ADJF', 'neut', 'sing', 'accs'), ('NOUN', 'GNdr', 'sing', 'ablt', 'Fixd'),
    ('NPRO', 'plur', 'Pltm', 'nomn'), ('NOUN', 'Ms-f', 'masc', 'Sgtm', 'sing', 'loct'), ()
]


def run_tags(case, counter):
    """Every set of grammemes of a real word agrees as the relation tells."""
    kinds = (gender_relation, number_relation, case_relation, gnc_relation)
    for grams in tags.block(case):
        lists = {'а': [grams, OTHERS[0], grams[:-1]], 'б': OTHERS + [grams]}
        forms = {
            letter: [Form('%s%d' % (letter, _), Grams(frozenset(own))) for _, own in enumerate(items)]
            for letter, items in lists.items()
        }
        tokenizer = tags.tokenizer({
            letter: [('%s%d' % (letter, _), own) for _, own in enumerate(items)]
            for letter, items in lists.items()
        })
        for kind in kinds:
            relation = kind()
            expected = [
                [a.normalized for a in forms['а'] if any(relation(a, b) for b in forms['б'])],
                [b.normalized for b in forms['б'] if any(relation(a, b) for a in forms['а'])],
            ]
            match = Parser(
                rule(eq('а').match(relation), eq('б').match(relation)), tokenizer=tokenizer
            ).match('а б')
            counter.state(grams, kind.__name__)
            counter.step()
            counter.trace()
            actual = match and [[_.normalized for _ in token.forms] for token in match.tokens]
            if actual != (expected if all(expected) else None):
                raise Mismatch('words of grammemes %s and %s joined by %s: %r, expected %r' % (
                    lists['а'], lists['б'], kind.__name__, actual, expected
                ))


class C14(Check):
    def families(self, tier):
        quick = tier == 'quick'
        names = ('phrase', 'mixed', 'two', 'nested', 'same', 'repeated', 'separate', 'optional', 'single')
        several = ('both2', 'both3', 'three2', 'both phrases', 'both apart', 'chain')
        families = [
            Family('two', combine('flat2', 3, sequences(3), 2), run,
                   'two words, all sequences of 3 readings, all 64 tables'),
            Family('three', combine('flat3', 3, subsets(3), 3), run,
                   'three words, all sets of 3 readings, all 64 tables'),
            Family('four', combine('flat4', 2, sequences(2), 4), run,
                   'four words, all sequences of 2 readings, all 8 tables'),
            Family('equal', combine('flat3', 2, REPEATED, 3), run,
                   'equal readings of one word'),
            Family('shapes', shapes(2, names + ('crossed',), list(sequences(2))), run,
                   'joined in %d ways, 2 readings, all tables' % (len(names) + 1)),
            Family('equal words', lambda: itertools.chain(
                equal_word_cases(3, ('flat2',)),
                equal_word_cases(2, ('flat3', 'flat4', 'phrase', 'mixed', 'two', 'nested', 'same', 'both2', 'repeated', 'chain')),
            ), run_equal_words, 'the same word in several places, 11 shapes'),
            Family('several', shapes(2, several, list(sequences(2))), run,
                   'joined by two or three relations at once in %d ways, 2 readings, all tables' % len(several)),
            Family('without', without, run_without, 'words without readings'),
            Family('narrowed', narrowed, run_narrowed, 'narrowed by gram() first'),
            Family('size', size_cases(200 if quick else 500), run_size,
                   'up to %d readings, %d words, %d rounds' % ((200, 50, 50) if quick else (500, 125, 125))),
            Family('library', library_cases(2 if quick else 3), run_library,
                   'relations of the library, several of one kind in a phrase, 7 shapes'),
            Family('tags', tags.blocks, run_tags,
                   'every set of grammemes of the dictionary, agreed with 9 others by 4 relations'),
            Family('combined', lambda: combo.cases((2,) if quick else (2, 3), None if quick else combo.SMALL), combo.run((2, 3)),
                   'pairs of %d items, relations, main words, dictionaries and facts together' % len(combo.ITEMS)),
            Family('boolean', boolean, run_boolean, 'and_, or_, not_ of tables'),
        ]
        if not quick:
            families += [
                Family('three-seq', combine('flat3', 3, sequences(3), 3), run,
                       'three words, all sequences of 3 readings'),
                Family('four3', combine('flat4', 3, subsets(3), 4), run,
                       'four words, all sets of 3 readings'),
                Family('shapes3', shapes(3, ('mixed', 'same', 'repeated', 'optional')), run,
                       'joined in several ways, 3 readings'),
                Family('several3', shapes(3, ('both2', 'both phrases')), run,
                       'joined by two relations at once, 3 readings, all pairs of tables'),
                Family('two4', combine('flat2', 4, subsets(4), 2), run,
                       'two words, all sets of 4 readings, all 1024 tables'),
            ]
        return families


CHECK = C14(
    'C14',
    rule='state = (rule, readings of the words, relation tables); transition = '
         'one match(); trace = one verdict and its readings judged against '
         'brute force over all choices of readings',
)
