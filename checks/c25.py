"""C25: tokens, spans, readings and facts are values."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub, values
from mc.enum import sizes
from mc.yg import Parser

from yargy import rule, or_
from yargy.span import Span
from yargy.token import Token
from yargy.morph import Form, Grams
from yargy.interpretation import fact, attribute
from yargy.predicates import eq, gram
from yargy.parser import Match


# Every value has a description: plain data. Values are equal when the
# descriptions are. Spans are also equal to pairs.

SPANS = [('span', a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
PAIRS = [('pair', a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
GRAMS = [('grams', _) for _ in ((), ('NOUN',), ('NOUN', 'sing'), ('VERB',))]
FORMS = [('form', word, grams) for word in ('а', 'б') for grams in GRAMS]
TOKENS = [
    ('token', value, span, type)
    for value in ('а', 'б')
    for span in (('span', 0, 1), ('span', 1, 2))
    for type in ('RU', 'X')
]
READINGS = [(), (FORMS[0],), (FORMS[1],), (FORMS[0], FORMS[1]), (FORMS[1], FORMS[0])]
MORPHED = [
    ('morph', token, forms) for token in TOKENS[:5] for forms in READINGS
]
TAGGED = [
    ('tagged', token, tag)
    for token in TOKENS[:3] + MORPHED[:7]
    for tag in ('A', 'B', None)
]
F = fact('F', ['a', attribute('b', 0), attribute('c').repeatable()])
F2 = fact('F', ['a', attribute('b', 0), attribute('c').repeatable()])
G = fact('G', [attribute('a', 'x'), 'b'])
E_ = fact('E', [])
CLASSES = {'F': F, 'F2': F2, 'G': G, 'E': E_}
DEFAULTS = {
    'F': (('a', None), ('b', 0), ('c', ())),
    'F2': (('a', None), ('b', 0), ('c', ())),
    'G': (('a', 'x'), ('b', None)),
    'E': (),
}
VALUES = (None, 0, 'x', ('fact', 'E', ()))


def fact_values():
    for name, defaults in sorted(DEFAULTS.items()):
        options = []
        for key, default in defaults:
            if key == 'c':
                options.append(((), ('x',), ('x', 0)))
            else:
                options.append(VALUES)
        for values in itertools.product(*options):
            yield ('fact', name, values)


FACTS = list(fact_values())


def make(item):
    kind = item[0]
    if kind == 'span':
        return Span(item[1], item[2])
    if kind == 'pair':
        return (item[1], item[2])
    if kind == 'grams':
        return Grams(frozenset(item[1]))
    if kind == 'form':
        return Form(item[1], make(item[2]))
    if kind == 'token':
        return Token(item[1], make(item[2]), item[3])
    if kind == 'morph':
        return make(item[1]).morphed([make(_) for _ in item[2]])
    if kind == 'tagged':
        return make(item[1]).tagged(item[2])
    if kind == 'fact':
        return CLASSES[item[1]](**{
            key: make_value(value)
            for (key, _), value in zip(DEFAULTS[item[1]], item[2])
        })
    raise ValueError(kind)


def make_value(value):
    if isinstance(value, tuple):
        if value[:1] == ('fact',):
            return make(value)
        return list(value)
    return value


def normal(item):
    """Equal values have equal normal descriptions."""
    if item[0] == 'pair':
        return ('span',) + item[1:]
    return item


def hashable(item):
    kind = item[0]
    if kind in ('span', 'pair', 'token', 'grams', 'form'):
        return True
    if kind == 'fact':
        return not any(
            isinstance(_, tuple) and _[:1] != ('fact',) for _ in item[2]
        )
    if kind == 'tagged':
        return item[1][0] == 'token'
    return False


GROUPS = {
    'spans': SPANS + PAIRS,
    'readings': GRAMS + FORMS,
    'tokens': TOKENS + MORPHED + TAGGED,
    'facts': FACTS,
    'mixed': SPANS[:4] + PAIRS[:4] + GRAMS + FORMS[:3] + TOKENS[:3]
             + MORPHED[:6] + TAGGED[:8] + FACTS[:4] + FACTS[-4:],
}


def pairs():
    for group, items in sorted(GROUPS.items()):
        for index in range(len(items)):
            yield (group, index)


def run_pairs(case, counter):
    group, index = case
    items = GROUPS[group]
    first = items[index]
    for second in items:
        a, b = make(first), make(second)
        equal = normal(first) == normal(second)
        counter.state(first, second)
        counter.step(4)
        counter.trace()
        where = '%r and %r' % (a, b)
        for value in (a == b, b == a, not (a != b), not (b != a)):
            if value not in (True, False) or value != equal:
                raise Mismatch('%s: equal should be %s: == %r %r, != %r %r' % (
                    where, equal, a == b, b == a, a != b, b != a
                ))
        if hashable(first) and hashable(second):
            if equal and hash(a) != hash(b):
                raise Mismatch('%s are equal, hashes are not' % where)
            if (b in {a}) != equal or ({a: 1}.get(b) == 1) != equal:
                raise Mismatch('%s: membership in a set is not equality' % where)
        if first[0] == 'span' and second[0] in ('span', 'pair'):
            before = first[1:] < second[1:]
            if (a < b) != before:
                raise Mismatch('%s: < is %s' % (where, a < b))
            if second[0] == 'span' and (b > a) != before:
                raise Mismatch('%s: > is %s' % (where, b > a))


OTHERS = (None, 0, '', 'а', (), [], {}, 1.5, object())


def alike(value):
    """Things of other kinds that have the same parts."""
    parts = list(value)
    yield parts
    yield iter(parts)
    if type(value) is not Span and type(value) is not tuple:
        yield tuple(parts)
    yield tuple(parts) + (None,)
    yield tuple(parts[:-1])
    yield dict(enumerate(parts))
    yield repr(value)
    if isinstance(value, (Span, tuple)):
        yield range(*parts)
        yield {_ for _ in parts}
        yield '%s%s' % tuple(parts)
        yield bytes(parts)
        yield sum(parts)
        yield slice(*parts)
        yield G(a=parts[0], b=parts[1])
        yield Form(*parts)


def singles():
    for group, items in sorted(GROUPS.items()):
        if group != 'mixed':
            for index in range(len(items)):
                yield (group, index)


def run_single(case, counter):
    """A value against things of other kinds, copies, and in a sorted list."""
    group, index = case
    item = GROUPS[group][index]
    value = make(item)
    counter.state(item)
    for other in OTHERS + (tuple(alike(value)) if item[0] not in ('pair', 'grams', 'fact') else ()):
        counter.step(4)
        counter.trace()
        if value == other or not (value != other) or other == value or not (other != value):
            raise Mismatch('%r equals %r' % (value, other))
    if not (value == value) or value != value:
        raise Mismatch('%r is not equal to itself' % (value,))
    if item[0] != 'pair':
        try:
            hash(value)
            can = True
        except TypeError:
            can = False
        if hashable(item) and not can:
            raise Mismatch('%r is not hashable' % (value,))


def run_sorted(case, counter):
    spans = [make(SPANS[_]) for _ in case]
    counter.state(case)
    counter.step()
    counter.trace()
    actual = [tuple(_) for _ in sorted(spans)]
    expected = sorted(SPANS[_][1:] for _ in case)
    if actual != expected:
        raise Mismatch('sorted %r is %r' % (spans, actual))
    if tuple(max(spans)) != expected[-1] or tuple(min(spans)) != expected[0]:
        raise Mismatch('min, max of %r' % spans)


def sorted_cases():
    for case in itertools.permutations(range(len(SPANS)), 3):
        yield case
    for case in itertools.permutations(range(0, len(SPANS), 2), 4):
        yield case


# ------------------------------------------------------------ facts

SCHEMES = (
    ('plain', 'a'), ('default', 'a', 0), ('default', 'a', 'x'),
    ('default', 'a', None), ('repeatable', 'a'), ('scheme', 'a'),
)


def fact_cases():
    """All classes of two attributes, all sets of passed values."""
    for first in SCHEMES:
        for second in SCHEMES:
            for passed in itertools.product((None, 0, 1, 2), repeat=2):
                yield (first, second, passed)


def scheme(item, name):
    if item[0] == 'plain':
        return name
    if item[0] == 'default':
        return attribute(name, item[2])
    if item[0] == 'repeatable':
        return attribute(name).repeatable()
    return attribute(name)


def run_fact(case, counter):
    first, second, passed = case
    cls = fact('H', [scheme(first, 'p'), scheme(second, 'q')])
    # 0: an empty value, 1: a value, 2: None itself, None: not passed
    values = ('', 'v', None)
    kwargs = {
        key: values[index]
        for key, index in zip('pq', passed) if index is not None
    }
    counter.state(case)
    counter.step(3)
    counter.trace()
    made = cls(**kwargs)
    other = cls(**kwargs)
    for key, item in zip('pq', (first, second)):
        if key in kwargs:
            expected = kwargs[key]
        elif item[0] == 'repeatable':
            expected = []
        elif item[0] == 'default':
            expected = item[2]
        else:
            expected = None
        value = getattr(made, key)
        if value != expected or type(value) is not type(expected):
            raise Mismatch('%r: attribute %s is %r, expected %r' % (
                case, key, value, expected
            ))
        if isinstance(value, list):
            value.append(1)
            if getattr(other, key) != expected or getattr(cls(**kwargs), key) != []:
                raise Mismatch('list of %s is shared between facts' % key)
            value.remove(1)
    if made != other or list(made) != [getattr(made, 'p'), getattr(made, 'q')]:
        raise Mismatch('%r != %r' % (made, other))
    for bad in ('r', 'P', 'name', 'as_json', '_raw', '__attributes__'):
        for more in ({}, kwargs):
            try:
                cls(**dict(more, **{bad: 1}))
            except KeyError:
                continue
            raise Mismatch('%r accepts unknown attribute %r' % (case, bad))
    # a class is not changed by its facts
    again = cls()
    for key, item in zip('pq', (first, second)):
        expected = [] if item[0] == 'repeatable' else (
            item[2] if item[0] == 'default' else None
        )
        if getattr(again, key) != expected:
            raise Mismatch('default of %s became %r' % (key, getattr(again, key)))


# ------------------------------------------------------------ results

READING_SETS = {
    'а': [('а', ('NOUN', 'sing')), ('аз', ('VERB',))],
    'б': [('б', ('NOUN',))],
}
TEXTS = ('а', 'а б', 'а  б', ' а б', 'б а', 'А б', 'а а', 'б')
RULES = {
    'plain': lambda: or_(rule(eq('а'), eq('б')), rule(eq('а')), rule('б', 'а')),
    'gram': lambda: or_(rule(gram('NOUN'), eq('б')), rule(gram('VERB')), rule('б', gram('NOUN'))),
    'fact': lambda: or_(
        rule(eq('а').interpretation(F.a), eq('б').interpretation(F.c)),
        rule(eq('б').interpretation(F.c.__class__ and F.b)),
        rule(eq('а').interpretation(F.c), eq('а').interpretation(F.c)),
    ).interpretation(F),
}


def observe_match(match):
    return (
        tuple(match.span),
        tuple(
            (_.value, tuple(_.span), _.type, stub.forms_of(_) if hasattr(_, 'forms') else None)
            for _ in match.tokens
        )
    )


def match_cases():
    for first in sorted(RULES):
        for second in sorted(RULES):
            for text in TEXTS:
                yield (first, second, text)


def run_matches(case, counter):
    """Matches of different parsers are equal when all they report is."""
    first, second, text = case
    tokenizer = stub.tokenizer(READING_SETS)
    parsers = [Parser(RULES[_](), tokenizer=tokenizer) for _ in (first, second)]
    left = list(parsers[0].extract(text))
    right = [
        match for other in TEXTS for match in parsers[1].extract(other)
    ]
    for a in left:
        for b in right:
            counter.state(case, observe_match(a), observe_match(b))
            counter.step(2)
            counter.trace()
            expected = observe_match(a) == observe_match(b)
            if (a == b) != expected or (b == a) != expected or (a != b) == expected:
                raise Mismatch('%r == %r is %s' % (a, b, a == b))
            if first == 'fact' and second == 'fact':
                x, y = a.fact, b.fact
                same = (x.a, x.b, x.c) == (y.a, y.b, y.c)
                if (x == y) != same or (x != y) == same:
                    raise Mismatch('%r == %r is %s' % (x, y, x == y))
                if x != F(a=x.a, b=x.b, c=list(x.c)):
                    raise Mismatch('%r is not equal to the fact made by hand' % x)


# ------------------------------------------------------------ big values, new objects

def fresh(value):
    """An equal object that is not the same one."""
    if isinstance(value, int):
        return int(str(value))
    if isinstance(value, str):
        return ''.join(list(value))
    if isinstance(value, tuple):
        return tuple(fresh(_) for _ in value)
    return value


def offsets():
    result = {0, 1, 2, 2 ** 31, 2 ** 61 - 2, 2 ** 61 - 1, 2 ** 61, 2 ** 61 + 1, 2 ** 64, 10 ** 30}
    for base in (255, 256, 257, 999, 65535, 65536, 10 ** 6):
        result.update((base, base + 1))
    return sorted(result)


def big_cases():
    numbers = offsets()
    for a in numbers:
        for b in numbers:
            yield ('span', a, b)
    for count in sizes(70):
        yield ('word', 'слово' * count, 0)
        yield ('readings', count, 0)
        yield ('grams', count, 0)
        yield ('match', count, 0)
        yield ('attributes', count, 0)
        yield ('list', count, 0)
        yield ('deep', min(count, 40), 0)


def compare(one, other, equal, where, counter):
    counter.step(4)
    counter.trace()
    for value in (one == other, other == one, not one != other, not other != one):
        if value not in (True, False) or value != equal:
            raise Mismatch('%s: equal should be %s: == %r %r, != %r %r' % (
                where, equal, one == other, other == one, one != other, other != one
            ))
    if equal:
        try:
            hash(one)
        except TypeError:
            return
        if hash(one) != hash(other) or other not in {one}:
            raise Mismatch('%s: equal values have different hashes' % where)


def positions_of(count):
    return sorted({0, count // 2, count - 1})


def run_big(case, counter):
    kind, a, b = case
    counter.state(case)
    if kind == 'span':
        one = Span(fresh(a), fresh(b))
        for c in offsets():
            for d in {a, b, c}:
                other = Span(fresh(c), fresh(d))
                equal = (a, b) == (c, d)
                compare(one, other, equal, '%r and %r' % (one, other), counter)
                compare(one, (fresh(c), fresh(d)), equal, '%r and the pair' % (one,), counter)
                if (one < other) != ((a, b) < (c, d)) or (one > other) != ((a, b) > (c, d)):
                    raise Mismatch('order of %r and %r' % (one, other))
        return
    if kind == 'word':
        for position in positions_of(len(a)):
            changed = a[:position] + 'ъ' + a[position + 1:]
            for value in (fresh(a), changed):
                where = 'words of %d letters, %r' % (len(a), value == a)
                span = ('span', 0, len(a))
                compare(make(('token', a, span, 'RU')), make(('token', value, fresh(span), fresh('RU'))),
                        value == a, where, counter)
                grams = GRAMS[1]
                compare(make(('form', a, grams)), make(('form', value, fresh(grams))),
                        value == a, where, counter)
                compare(G(a=a), G(a=value), value == a, where, counter)
                compare(make(('tagged', TOKENS[0], a)), make(('tagged', TOKENS[0], value)),
                        value == a, where, counter)
        return
    count = a
    for position in [None] + positions_of(count):
        where = '%s of %d, %s differs' % (kind, count, position)
        if kind == 'readings':
            forms = [FORMS[_ % len(FORMS)] for _ in range(count)]
            other = list(forms)
            if position is not None:
                other[position] = FORMS[(position + 1) % len(FORMS)]
            compare(make(('morph', TOKENS[0], forms)), make(('morph', fresh(TOKENS[0]), fresh(tuple(other)))),
                    position is None, where, counter)
            # one more reading
            compare(make(('morph', TOKENS[0], forms)), make(('morph', TOKENS[0], other + [FORMS[0]])),
                    False, where + ', one more', counter)
        elif kind == 'grams':
            names = ['g%d' % _ for _ in range(count)]
            other = list(names)
            if position is not None:
                other[position] = 'x'
            compare(make(('grams', names)), make(('grams', fresh(tuple(other[::-1])))),
                    position is None, where, counter)
            compare(make(('form', 'а', ('grams', names))), make(('form', 'а', ('grams', other))),
                    position is None, where, counter)
        elif kind == 'match':
            letters = ['аб'[_ % 2] for _ in range(count)]
            other = list(letters)
            if position is not None:
                other[position] = 'в'
            matches = [
                Parser(rule(*_), tokenizer=stub.tokenizer(READING_SETS)).match(' '.join(_))
                for _ in (letters, other)
            ]
            compare(matches[0], matches[1], position is None, where, counter)
        elif kind == 'attributes':
            names = ['a%d' % _ for _ in range(count)]
            cls = fact('Many', names)
            passed = {name: 'v%d' % index for index, name in enumerate(names)}
            other = dict(passed)
            if position is not None:
                other[names[position]] = None
            compare(cls(**passed), cls(**other), position is None, where, counter)
            made = cls(**other)
            if [getattr(made, _) for _ in names] != [other[_] for _ in names]:
                raise Mismatch('%s: %r' % (where, made))
            try:
                cls(**dict(passed, **{'a%d' % count: 1}))
            except KeyError:
                pass
            else:
                raise Mismatch('%s: unknown attribute is not refused' % where)
        elif kind == 'list':
            items = [E_() if _ % 3 else 'v%d' % _ for _ in range(count)]
            other = [E_() if _ % 3 else 'v%d' % _ for _ in range(count)]
            if position is not None:
                other[position] = None
            compare(F(c=items), F(c=other), position is None, where, counter)
            compare(F(c=items), F(c=other + [None]), False, where + ', one more', counter)
        else:
            one, other = 'x', 'x' if position is None else 'y'
            for index in range(count):
                one, other = [
                    F(c=[0, _]) if index % 3 == 1 else G(b=_) if index % 3 else F(a=_)
                    for _ in (one, other)
                ]
            compare(one, other, position is None, where, counter)


# ------------------------------------------------------------ values of all sorts

def sort_cases():
    for name in sorted(values.anything()):
        if name not in ('nan', 'not implemented'):
            yield name


def run_sort(name, counter):
    """What a fact keeps may be anything, the list of them too."""
    cls = fact('H', ['p', attribute('q', 0)])
    items = values.anything()
    first = items[name]
    for other in sort_cases():
        second = items[other]
        counter.state(name, other)
        equal = bool(first == second)
        compare(cls(p=first), cls(p=second), equal, 'facts of %r and %r' % (name, other), counter)
        compare(cls(q=first), cls(q=second), equal, 'facts of %r and %r' % (name, other), counter)
        compare(F(c=[first]), F(c=[second]), equal, 'facts of lists of %r and %r' % (name, other), counter)
    for key in 'pq':
        made = cls(**{key: first})
        if getattr(made, key) is not first:
            raise Mismatch('%s passed as %r is %r' % (name, key, getattr(made, key)))
    # as a default
    if not isinstance(first, (list, dict, set)):
        made = fact('H', [attribute('p', first)])()
        if made.p is not first:
            raise Mismatch('default %s is %r' % (name, made.p))


class C25(Check):
    def families(self, tier):
        return [
            Family('pairs', pairs, run_pairs, 'all pairs in 5 groups of values'),
            Family('single', singles, run_single, 'all values against other kinds'),
            Family('sorted', sorted_cases, run_sorted, 'all arrangements of 3..4 spans'),
            Family('fact', fact_cases, run_fact, 'all classes of two attributes, all passed values'),
            Family('match', match_cases, run_matches, 'all pairs of matches of 3 rules on 8 texts'),
            Family('big', big_cases, run_big,
                   'all pairs of %d offsets, values of up to 70 parts one of which differs' % len(offsets())),
            Family('sorts', sort_cases, run_sort, 'all pairs of values of %d sorts in a fact' % len(list(sort_cases()))),
        ]


CHECK = C25(
    'C25',
    rule='state = pair of values; transition = one comparison or construction; '
         'trace = one pair compared with the model (plain data)',
)
