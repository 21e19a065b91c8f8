"""C13: agreement relations have the documented truth table."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub, tags
from mc.enum import sizes
from mc.yg import Parser

from yargy import rule, and_, or_, not_
from yargy.morph import Form, Grams
from yargy.predicates import eq
from yargy.relations import (
    gender_relation, number_relation, case_relation, gnc_relation, Relation
)

GENDER = ('masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr')
NUMBER = ('sing', 'plur', 'Sgtm', 'Pltm')
CASE = ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct')
FIXED = 'Fixd'


def gender_table(a, b):
    if 'plur' in a and 'plur' in b:
        return True
    for gram in ('masc', 'femn', 'neut'):
        if gram in a and gram in b:
            return True
    if 'GNdr' in a or 'GNdr' in b:
        return True
    common = {'Ms-f', 'ms-f'}
    two = {'masc', 'femn'}
    return bool((a & common and b & two) or (b & common and a & two))


def number_table(a, b):
    for gram in ('sing', 'plur'):
        if gram in a and gram in b:
            return True
    for only, gram in (('Sgtm', 'sing'), ('Pltm', 'plur')):
        if (only in a and gram in b) or (only in b and gram in a):
            return True
    return False


def case_table(a, b):
    if FIXED in a or FIXED in b:
        return True
    return (a & set(CASE)) == (b & set(CASE))


def gnc_table(a, b):
    return gender_table(a, b) and number_table(a, b) and case_table(a, b)


TABLES = {
    'gender': (gender_relation, gender_table),
    'number': (number_relation, number_table),
    'case': (case_relation, case_table),
    'gnc': (gnc_relation, gnc_table),
}


def subsets(grams):
    for size in range(len(grams) + 1):
        for chosen in itertools.combinations(grams, size):
            yield chosen


def form(grams):
    return Form('x', Grams(frozenset(grams)))


def universe(name, quick=True):
    if name == 'gender':
        # other grams must not matter
        return [
            gender + number
            for gender in subsets(GENDER)
            for number in ((), ('sing',), ('plur',), ('nomn', 'NOUN'))
        ]
    if name == 'number':
        return [
            number + other
            for number in subsets(NUMBER)
            for other in ((), ('masc', 'NOUN'), ('nomn', 'GNdr', 'Fixd'))
        ]
    if name == 'case':
        return [
            case + other
            for case in subsets(CASE + (FIXED,))
            for other in ((), ('masc', 'plur'))
        ]
    if name == 'gnc':
        genders = list(subsets(GENDER))
        if quick:
            genders = [_ for _ in genders if len(_) < 3]
            numbers = [(), ('sing',), ('plur',), ('Sgtm',), ('plur', 'Pltm')]
            cases = [(), ('nomn',), ('accs',), ('nomn', 'Fixd')]
        else:
            genders = [_ for _ in genders if len(_) < 3]
            numbers = list(subsets(NUMBER))[:9]
            cases = [(), ('nomn',), ('accs',), ('nomn', 'accs'), ('Fixd',), ('voct', 'Fixd')]
        return [a + b + c for a in genders for b in numbers for c in cases]
    raise ValueError(name)


def table_cases(name, quick=True):
    def cases():
        for grams in universe(name, quick):
            yield (name, grams)
    return cases


def run_table(quick):
    def run(case, counter):
        name, grams = case
        relation, table = TABLES[name]
        relation = relation()
        first = frozenset(grams)
        first_form = form(grams)
        for other in universe(name, quick):
            second = frozenset(other)
            second_form = form(other)
            counter.state(name, grams, other)
            counter.step(2)
            counter.trace(2)
            expected = table(first, second)
            actual = bool(relation(first_form, second_form))
            back = bool(relation(second_form, first_form))
            if actual != expected:
                raise Mismatch('%s(%s, %s) is %s, expected %s' % (
                    name, grams, other, actual, expected
                ))
            if back != actual:
                raise Mismatch('%s(%s, %s) is %s, but %s the other way' % (
                    name, grams, other, actual, back
                ))
    return run


# one reading per row of the tables
READINGS = [
    ('masc', 'sing', 'nomn'), ('masc', 'sing', 'gent'), ('femn', 'sing', 'nomn'),
    ('neut', 'sing', 'nomn'), ('plur', 'nomn'), ('plur', 'gent'),
    ('Ms-f', 'sing', 'nomn'), ('ms-f', 'sing', 'gent'), ('GNdr', 'sing', 'nomn'),
    ('masc', 'Sgtm', 'nomn'), ('Pltm', 'plur', 'nomn'), ('Pltm', 'nomn'),
    ('masc', 'sing', 'Fixd'), ('femn', 'plur', 'Fixd'), (), ('sing',), ('plur',),
    ('voct', 'masc', 'sing'), ('Sgtm', 'femn', 'accs'), ('neut', 'plur', 'loct'),
]
BASIC = ('gender', 'number', 'case', 'gnc')


def expressions(depth):
    """Boolean combinations: name | (not, x) | (and, (x, ...)) | (or, ...)"""
    if depth == 0:
        return list(BASIC)
    items = expressions(depth - 1)
    result = list(items)
    result += [('not', _) for _ in items]
    small = items if depth == 1 else items[:10]
    for first in small:
        for second in small:
            result.append(('and', (first, second)))
            result.append(('or', (first, second)))
    result.append(('and', ()))
    result.append(('or', (items[0],)))
    result.append(('and', tuple(items[:3])))
    result.append(('or', tuple(items[:3])))
    return result


def build(expression):
    if isinstance(expression, str):
        return TABLES[expression][0]()
    kind, items = expression
    if kind == 'not':
        return not_(build(items))
    operator = and_ if kind == 'and' else or_
    if not items:
        from yargy.relations import AndRelation, OrRelation
        return (AndRelation if kind == 'and' else OrRelation)([])
    return operator(*(build(_) for _ in items))


def evaluate(expression, a, b):
    if isinstance(expression, str):
        return TABLES[expression][1](a, b)
    kind, items = expression
    if kind == 'not':
        return not evaluate(items, a, b)
    values = [evaluate(_, a, b) for _ in items]
    return all(values) if kind == 'and' else any(values)


def expression_cases(depth):
    def cases():
        for expression in expressions(depth):
            yield (expression,)
    return cases


def run_expression(case, counter):
    expression, = case
    relation = build(expression)
    if not isinstance(relation, Relation):
        raise Mismatch('%r is not a relation' % (expression,))
    for first in READINGS:
        for second in READINGS:
            counter.state(expression, first, second)
            counter.step()
            counter.trace()
            expected = evaluate(expression, frozenset(first), frozenset(second))
            actual = bool(relation(form(first), form(second)))
            if actual != expected:
                raise Mismatch('%r of %s and %s is %s, expected %s' % (
                    expression, first, second, actual, expected
                ))
        # a reading and itself
        one = form(first)
        actual = bool(relation(one, one))
        expected = evaluate(expression, frozenset(first), frozenset(first))
        if actual != expected:
            raise Mismatch('%r of a reading %s and itself is %s, expected %s' % (
                expression, first, actual, expected
            ))


def parse_cases(depth):
    def cases():
        for expression in expressions(depth):
            for first in READINGS:
                yield (expression, first)
    return cases


def run_parse(case, counter):
    """The same through a parser: two words joined by the relation."""
    expression, first = case
    for second in READINGS:
        tokenizer = stub.tokenizer({
            'а': [('а', first)], 'б': [('б', second)]
        })
        relation = build(expression)
        parser = Parser(
            rule(eq('а').match(relation), eq('б').match(relation)),
            tokenizer=tokenizer
        )
        counter.state('parse', expression, first, second)
        counter.step()
        counter.trace()
        expected = evaluate(expression, frozenset(first), frozenset(second))
        actual = parser.match('а б') is not None
        if actual != expected:
            raise Mismatch('words %s and %s joined by %r: match is %s, expected %s' % (
                first, second, expression, actual, expected
            ))


# ------------------------------------------------ many parts

def size_cases(limit):
    for kind in ('and', 'or', 'not', 'alternating'):
        for count in sizes(limit):
            for special in sorted({0, count // 2, count - 1}):
                for name in ('gender', 'case'):
                    yield (kind, count, special, name)


def make_size(kind, count, special, name):
    """An expression one part of which decides."""
    if kind in ('and', 'or'):
        # parts that do not decide: always true in and, always false in or
        neutral = ('or', (name, ('not', name))) if kind == 'and' else ('and', (name, ('not', name)))
        return (kind, tuple(
            name if _ == special else 'number' if _ == special + 1 else neutral
            for _ in range(count)
        ))
    item = name
    for number in range(min(count, 100)):
        if kind == 'not' or number % 2:
            item = ('not', item)
        else:
            item = ('and' if number % 4 else 'or', (item, item if number < 8 else name))
    return item


def run_size(case, counter):
    kind, count, special, name = case
    expression = make_size(*case)
    relation = build(expression)
    for first in READINGS:
        for second in READINGS:
            counter.state(case, first, second)
            counter.step()
            counter.trace()
            expected = evaluate(expression, frozenset(first), frozenset(second))
            actual = bool(relation(form(first), form(second)))
            if actual != expected:
                raise Mismatch('%s of %d relations of %s and %s is %s, expected %s' % (
                    kind, count, first, second, actual, expected
                ))


def group_cases(size):
    for name in BASIC:
        for chosen in itertools.product(range(len(READINGS)), repeat=size):
            yield (name, chosen)


def run_group(case, counter):
    """More words in one group: every two of them agree."""
    name, chosen = case
    words = 'абвгд'[:len(chosen)]
    tokenizer = stub.tokenizer({
        letter: [(letter, READINGS[index])] for letter, index in zip(words, chosen)
    })
    relation = TABLES[name][0]()
    parser = Parser(
        rule(*(eq(_).match(relation) for _ in words)), tokenizer=tokenizer
    )
    counter.state(case)
    counter.step()
    counter.trace()
    together = all(
        TABLES[name][1](frozenset(READINGS[one]), frozenset(READINGS[two]))
        for one, two in itertools.combinations(chosen, 2)
    )
    actual = parser.match(' '.join(words)) is not None
    # words of one reading
    if actual != together:
        raise Mismatch('words %s joined by %s: match is %s' % (
            [READINGS[_] for _ in chosen], name, actual
        ))


# ------------------------------------------------ words of the dictionary

SOME = {
    'gender': [('masc',), ('femn', 'sing'), ('neut',), ('Ms-f',), ('ms-f', 'masc'), ('GNdr',), ('plur', 'femn'), ('plur',), ()],
    'number': [('sing',), ('plur',), ('Sgtm',), ('Pltm',), ('sing', 'Sgtm'), ('plur', 'Pltm'), ()],
    'case': [('nomn',), ('gent',), ('accs',), ('loct',), ('voct',), ('datv', 'Fixd'), ('ablt',), ('datv',), ('gen2',), ('gen2', 'gent'), ('nomn', 'accs'), ()],
}
SOME['gnc'] = [
    ('masc', 'sing', 'nomn'), ('femn', 'sing', 'gent'), ('neut', 'sing', 'accs'), ('plur', 'datv'),
    ('GNdr', 'sing', 'ablt'), ('masc', 'Ms-f', 'sing', 'loct'), ('Pltm', 'plur', 'nomn'),
    ('Fixd', 'Sgtm', 'femn', 'sing'), ('sing', 'nomn'), ('masc', 'nomn'), ('plur',), ()
]


def run_tags(case, counter):
    """Every set of grammemes of a real word, other grammemes do not matter."""
    for grams in tags.block(case):
        first = frozenset(grams)
        for name in BASIC:
            make, table = TABLES[name]
            relation = make()
            for other in [grams] + SOME[name]:
                second = frozenset(other)
                expected = table(first, second)
                counter.state(name, grams, other)
                counter.step(2)
                counter.trace(2)
                for one, two in ((grams, other), (other, grams)):
                    actual = bool(relation(form(one), form(two)))
                    if actual != expected:
                        raise Mismatch('%s(%s, %s) is %s, expected %s' % (
                            name, one, two, actual, expected
                        ))


class C13(Check):
    def families(self, tier):
        quick = tier == 'quick'
        families = [
            Family(name, table_cases(name, quick), run_table(quick),
                   'all pairs of %d sets of grammemes' % len(universe(name, quick)))
            for name in BASIC
        ]
        families += [
            Family('tags', tags.blocks, run_tags,
                   'every set of grammemes of the dictionary and itself and up to 12 others'),
            Family('boolean', expression_cases(2), run_expression,
                   'combinations of depth 0..2 over %d readings' % len(READINGS)),
            Family('parse', parse_cases(1 if quick else 2), run_parse,
                   'the relation between two words of a text'),
            Family('size', lambda: size_cases(70 if quick else 260), run_size,
                   'and_, or_ of up to %d relations, not_ as deep' % (70 if quick else 260)),
            Family('group', lambda: group_cases(3 if quick else 4), run_group,
                   '%d words joined by one relation' % (3 if quick else 4)),
        ]
        return families


CHECK = C13(
    'C13',
    rule='state = (relation, reading, reading); transition = one evaluation of '
         'the relation; trace = one value compared with the table',
    assumptions=[
        'two common-gender readings agree only through plural or a general '
        'gender, as in the code; the documentation is silent'
    ]
)
