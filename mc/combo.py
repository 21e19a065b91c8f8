"""Phrases where everything meets: narrowing, optional and repeated parts,
dictionaries, main words, several relations, interpretation.

The model lists the derivations of a phrase in order of preference, each with
its words, the readings left by predicates, the words that must agree and the
attributes. One derivation is accepted if its readings agree.
"""
import itertools

from .env import load

load()

from yargy import rule, or_, forward  # noqa
from yargy.interpretation import attribute, fact  # noqa
from yargy.pipelines import morph_pipeline  # noqa
from yargy.predicates import gram, true, eq  # noqa
from yargy.relations import Relation, main  # noqa

from . import stub  # noqa
from .core import Mismatch  # noqa
from .yg import Parser  # noqa

READINGS = {
    'а': [('аист', ('ADJF', 'g0')), ('арка', ('ADJF', 'g1'))],
    'б': [('бант', ('NOUN', 'g0'))],
    'в': [('ваза', ('NOUN', 'g1')), ('вера', ('ADJF', 'g1'))],
    'г': [('гора', ('ADJF', 'g0')), ('гусь', ('NOUN', 'g0', 'g1'))],
}
READINGS.update({
    normal: [(normal, ('NOUN',))]
    for items in list(READINGS.values()) for normal, _ in items
})
TOKENIZER = stub.tokenizer(READINGS)
F = fact('Combo', ['a', 'b', 'c'])
NAMES = ('a', 'b', 'c')


class Shares(Relation):
    """Readings have a common mark."""
    label = 'shares'

    def __call__(self, form, other):
        return any(_ in form.grams and _ in other.grams for _ in ('g0', 'g1'))


def agree(one, two):
    return any(_ in one[1] and _ in two[1] for _ in ('g0', 'g1'))


# A derivation of an item is (words, main, line): words are
# (position, readings left), main is the index of the main word.

def word(name):
    def derive(words, start):
        if start < len(words):
            items = READINGS[words[start]]
            left = [_ for _ in items if name is None or name in _[1]]
            if left:
                yield [(start, left)], 0, None
    return derive


def literal(value):
    def derive(words, start):
        if start < len(words) and words[start] == value:
            yield [(start, READINGS[value])], 0, None
    return derive


def nothing(words, start):
    yield [], None, None


def either(*items):
    def derive(words, start):
        for item in items:
            for found in item(words, start):
                yield found
    return derive


def sequence(items, mark=0):
    def derive(words, start):
        def steps(index, place, parts):
            if index == len(items):
                found = [_ for part in parts for _ in part[0]]
                chosen = None
                # the first word if the marked part is absent
                for order in [mark] + list(range(len(parts))):
                    before = sum(len(_[0]) for _ in parts[:order])
                    if parts[order][0]:
                        chosen = before + parts[order][1]
                        break
                yield found, chosen, None
                return
            for part in items[index](words, place):
                for result in steps(index + 1, place + len(part[0]), parts + [part]):
                    yield result
        return steps(0, start, [])
    return derive


def repeated(item):
    def derive(words, start):
        for first in item(words, start):
            for rest in derive(words, start + len(first[0])):
                yield first[0] + rest[0], first[1], None
        for found in item(words, start):
            yield found
    return derive


def lines(*values):
    def derive(words, start):
        for value in values:
            parts = value.split()
            if words[start:start + len(parts)] == tuple(parts):
                yield [(start + _, READINGS[part]) for _, part in enumerate(parts)], 0, value
    return derive


ADJF, NOUN, ANY = word('ADJF'), word('NOUN'), word(None)
ITEMS = {
    'adjf': (lambda: rule(gram('ADJF')), ADJF),
    'noun': (lambda: rule(gram('NOUN')), NOUN),
    'any': (lambda: rule(true()), ANY),
    'named': (lambda: rule(gram('NOUN')).named('Noun'), NOUN),
    'optional': (lambda: rule(gram('ADJF')).optional(), either(nothing, ADJF)),
    'optional last': (lambda: rule(gram('NOUN')).optional(reverse=True), either(NOUN, nothing)),
    'repeated': (lambda: rule(gram('ADJF')).repeatable(), repeated(ADJF)),
    'at most': (lambda: rule(true()).repeatable(max=2), either(sequence([ANY, ANY]), ANY)),
    'lines': (lambda: morph_pipeline(['а б', 'а', 'в']), lines('а б', 'а', 'в')),
    'phrase': (lambda: rule(gram('ADJF'), main(gram('NOUN'))), sequence([ADJF, NOUN], 1)),
    'maybe': (
        lambda: rule(rule(gram('ADJF')).optional(), main(gram('NOUN'))),
        sequence([either(nothing, ADJF), NOUN], 1)
    ),
    'no main': (
        lambda: rule(gram('ADJF'), main(rule('б').optional()), gram('NOUN')),
        sequence([ADJF, either(nothing, literal('б')), NOUN], 1)
    ),
    'choice': (
        lambda: or_(rule(gram('NOUN')), rule(true(), main(gram('NOUN'))), morph_pipeline(['г', 'в'])),
        either(NOUN, sequence([ANY, NOUN], 1), lines('г', 'в'))
    ),
}
SMALL = ('adjf', 'noun', 'optional', 'repeated', 'lines', 'maybe')
CHOICES = ('any', 'optional', 'optional last', 'repeated', 'at most', 'lines', 'choice')


def line_of(name, found):
    # the key is reported where the item is the dictionary itself
    return found[2] if name == 'lines' else None


def cases(sizes, names=None, styles=(0, 1)):
    names = sorted(names or ITEMS)
    for size in sizes:
        for chosen in itertools.product(names, repeat=size):
            for relations in itertools.product((None, 0, 1), repeat=size):
                # relations of one word alone are of no interest
                if relations.count(0) == 1 or relations.count(1) == 1 or relations.count(0) < relations.count(1):
                    continue
                for style in styles:
                    yield (chosen, relations, style)


def build(case):
    chosen, relations, style = case
    kinds = [Shares(), Shares()]
    parts = []
    for index, (name, relation) in enumerate(zip(chosen, relations)):
        part = ITEMS[name][0]()
        value = getattr(F, NAMES[index]).normalized()
        if style == 1:
            part = part.interpretation(value)
        if relation is not None:
            part = part.match(kinds[relation])
        if style == 0:
            part = part.interpretation(value)
        if style == 2:
            part = forward().define(part.named('Part%d' % index)).interpretation(value)
        parts.append(part)
    return rule(*parts).interpretation(F)


def derivations(case, words, start):
    """All that start at the word, in order of preference."""
    chosen = case[0]

    def steps(index, place, parts):
        if index == len(chosen):
            yield place, parts
            return
        for found in ITEMS[chosen[index]][1](words, place):
            for result in steps(index + 1, place + len(found[0]), parts + [found]):
                yield result

    return steps(0, start, [])


def settle(case, parts):
    """(readings left for each word, attributes), None if they do not agree,
    False if it depends on how far agreement is followed."""
    relations = case[1]
    left = [list(_[1]) for part in parts for _ in part[0]]
    groups = {}
    offset = 0
    for relation, part in zip(relations, parts):
        if relation is not None and part[0]:
            groups.setdefault(relation, []).append(offset + part[1])
        offset += len(part[0])
    pairs = [_ for group in groups.values() for _ in itertools.combinations(group, 2)]
    changed = True
    while changed:
        changed = False
        for one, two in pairs:
            for a, b in ((one, two), (two, one)):
                kept = [_ for _ in left[a] if any(agree(_, other) for other in left[b])]
                if len(kept) < len(left[a]):
                    left[a] = kept
                    changed = True
    if not all(left):
        return None
    places = sorted({_ for pair in pairs for _ in pair})
    reached = {_: set() for _ in places}
    for choice in itertools.product(*(left[_] for _ in places)):
        known = dict(zip(places, choice))
        if all(agree(known[a], known[b]) for a, b in pairs):
            for place in places:
                reached[place].add(known[place])
    if any(len(reached[_]) < len(left[_]) for _ in places):
        return False
    values = {}
    offset = 0
    for name, key, part in zip(case[0], NAMES, parts):
        items = left[offset:offset + len(part[0])]
        offset += len(items)
        if items:
            values[key] = line_of(name, part) or ' '.join(_[0][0] for _ in items)
    return (
        tuple(tuple(_[0] for _ in items) for items in left),
        tuple(values.get(_) for _ in NAMES)
    )


def read(match):
    found = match.fact
    return (
        tuple(tuple(_.normalized for _ in token.forms) for token in match.tokens),
        tuple(getattr(found, _) for _ in NAMES)
    )


WORDS = 'абвг'


def texts(size):
    return list(itertools.product(WORDS, repeat=size))


def run(sizes):
    samples = [_ for size in sizes for _ in texts(size)]

    def check(case, counter):
        parser = Parser(build(case), tokenizer=TOKENIZER)
        for words in samples:
            text = ' '.join(words)
            expected = {}
            unsure = False
            for start in range(len(words)):
                for stop, parts in derivations(case, words, start):
                    if stop == start:
                        continue
                    settled = settle(case, parts)
                    if settled is False:
                        unsure = True
                    elif settled:
                        expected.setdefault((start, stop), []).append(settled)
            if unsure:
                counter.note('skipped_depends_on_depth')
                continue
            counter.state(case, words)
            counter.step(3)
            actual = {}
            for match in parser.extract(text):
                range_ = match.span.start // 2, match.span.stop // 2 + 1
                actual.setdefault(range_, []).append(read(match))
                counter.trace()
            for range_ in sorted(set(expected) | set(actual)):
                one, two = sorted(actual.get(range_, []), key=repr), sorted(expected.get(range_, []), key=repr)
                if one != two:
                    raise Mismatch('%r: extract(%r) at %r gives %r, expected %r' % (
                        case, text, range_, one[:3], two[:3]
                    ))
            match = parser.match(text)
            found = match and read(match)
            wanted = expected.get((0, len(words)), [None])[0]
            counter.trace()
            if found != wanted:
                raise Mismatch('%r: match(%r) is %r, expected %r' % (case, text, found, wanted))
            for match in parser.findall(text):
                range_ = match.span.start // 2, match.span.stop // 2 + 1
                counter.trace()
                if read(match) != expected[range_][0]:
                    raise Mismatch('%r: findall(%r) at %r is %r, expected %r' % (
                        case, text, range_, read(match), expected[range_][0]
                    ))
    return check
