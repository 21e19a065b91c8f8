"""C18: attribute values are normalised as declared."""
import functools
import itertools
import operator
from decimal import Decimal
from fractions import Fraction

from mc.core import Check, Family, Mismatch
from mc import enum, interp, stub, tags
from mc.values import Method, anything
from mc.yg import Parser, ReadyTokenizer

from yargy import rule, or_, and_, forward
from yargy.interpretation import attribute, const, custom, fact, inflected, normalized
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import eq, gram, in_, true
from yargy.relations import Relation
from yargy.span import Span
from yargy.token import Token

class Text(str):
    pass


CLASSES = interp.make_classes()
F = CLASSES['F']
G = CLASSES['G']

GENT = frozenset({'gent'})
SING = frozenset({'nomn', 'sing'})
ANY = frozenset()
PLUR = frozenset({'plur', 'datv'})

WORDS = {
    'Стали': [
        ('сталь', ('NOUN',), {GENT: 'сталью', SING: 'сталь1', ANY: 'стали1'}),
        ('стать', ('VERB',), {GENT: 'ставшего', SING: 'ставший'}),
    ],
    'дом': [('дом', ('NOUN',), {GENT: 'дома'})],
    'ПО': [('по', ('PREP',)), ('пол', ('NOUN',), {SING: 'пол'})],
    '12': None,
    'Ab': None,
    '-': None,
}
READINGS = {
    key.lower(): value for key, value in WORDS.items() if value
}
TOKENIZER = stub.tokenizer(READINGS)

UP = ('custom', 'upper')
WRAP = ('custom', 'wrapped')
NORMAL = ('normalized',)
HOWS = (
    (NORMAL,),
    (('inflected', ()),),
    (('inflected', ('gent',)),),
    (('inflected', ('plur', 'datv')),),
    (('inflected', (None,)),),
    (('inflected', (None,)), UP),
    (('const', 'К'),),
    (('const', None),),
    (('const', 0),),
    (UP,),
    (('custom', 'none'),),
    (UP, ('custom', 'double')),
    (('custom', 'double'), WRAP),
    (NORMAL, UP),
    (NORMAL, WRAP),
    (('inflected', ()), UP),
    (('inflected', ('gent',)), ('custom', 'double')),
)


def kind_of(word):
    if word.isdigit():
        return 'digit'
    if not word.isalpha():
        return 'other'
    return 'latin' if word[0] < 'z' else 'russian'


def gaps_of(words):
    return [
        (' ', '  ', '\t ') if kind_of(a) == kind_of(b) else ('', ' ', ' \t')
        for a, b in zip(words, words[1:])
    ]


def make_text(words, gaps, readings=WORDS, before=''):
    """String and the text of the model."""
    string = before
    items = []
    for index, word in enumerate(words):
        if index:
            string += gaps[index - 1]
        items.append((word, len(string), readings[word]))
        string += word
    return string, interp.Text(items)


def styles_of(how):
    """Ways to give the same normaliser, as functions of the inner AST."""
    if not how:
        return [
            ('attribute', lambda x: ('attr', 'F', 'a', x)),
            ('twice', lambda x: ('attr', 'F', 'a', ('attr', 'F', 'b', x))),
            ('inner', lambda x: ('attr', 'F', 'a', ('attr', 'G', 'x', x))),
        ]
    result = [
        ('attribute', lambda x: ('norm', 'F', 'a', how, x)),
        ('separate', lambda x: ('attr', 'F', 'a', ('only', how, x))),
        ('inner', lambda x: ('attr', 'F', 'a', ('norm', 'G', 'x', how, x))),
        ('list', lambda x: ('attr', 'F', 'c', ('only', how, x))),
    ]
    if len(how) == 2:
        first, second = how
        result.append((
            'steps',
            lambda x: ('norm', 'F', 'a', (second,), ('only', (first,), x))
        ))
        result.append((
            'apart',
            lambda x: ('attr', 'F', 'a', ('only', (second,), ('only', (first,), x)))
        ))
    return result


def check(where, match, ast, text, counter):
    counter.step()
    counter.trace()
    if match is None:
        raise Mismatch('%s: no match' % where)
    expected = interp.root_value(text, ast)
    actual = interp.read(lambda: match.fact, CLASSES)
    if actual != expected:
        raise Mismatch('%s: fact is %r, expected %r' % (where, actual, expected))


# ---------------------------------------------- phrases, blanks, normalisers

def phrase_cases(high, hows):
    for size in range(1, high + 1):
        for words in itertools.product(sorted(WORDS), repeat=size):
            for how in hows:
                yield (words, how)


def sequence(words):
    items = tuple(('w', _) for _ in range(len(words)))
    return items[0] if len(items) == 1 else ('seq', items)


def run_phrase(case, counter):
    words, how = case
    for name, style in styles_of(how):
        ast = ('fact', 'F', style(sequence(words)))
        parser = Parser(
            interp.build(ast, CLASSES, lambda _: eq(words[_])),
            tokenizer=TOKENIZER
        )
        for gaps in itertools.product(*gaps_of(words)):
            string, text = make_text(words, gaps)
            counter.state(case, gaps)
            check(
                '%s, text %r' % (interp.show(ast), string),
                parser.match(string), ast, text, counter
            )


# ---------------------------------------------- where the marked part stands

def place_shared(part):
    # the other use is absent
    return or_(rule(part, 'zz', part), part)


def place_forward(part):
    result = forward()
    result.define(or_(rule('zz', result), part))
    return result


PLACES = {
    'alone': lambda _: _,
    'rule': lambda _: rule(rule(_)),
    'or': lambda _: or_(rule('zz'), _),
    'optional': lambda _: _.optional(),
    'reverse': lambda _: _.optional(reverse=True),
    'repeat': lambda _: _.repeatable(),
    'bounded': lambda _: _.repeatable(min=1, max=3),
    'named': lambda _: _.named('N'),
    'shared': place_shared,
    'forward': place_forward,
    'before': lambda _: rule(_, rule('zz').optional()),
    'after': lambda _: rule(rule('zz').optional(), _),
}
# nested inside the marked part
INSIDE = {
    'words': lambda parts: rule(*parts),
    'nested': lambda parts: rule(*[rule(rule(_)) for _ in parts]),
    'choice': lambda parts: rule(*[or_(rule('zz'), rule(_)) for _ in parts]),
    'left': lambda parts: (
        rule(rule(*parts[:-1]), parts[-1]) if len(parts) > 1 else rule(*parts)
    ),
    'right': lambda parts: (
        rule(parts[0], rule(*parts[1:])) if len(parts) > 1 else rule(*parts)
    ),
    'optional': lambda parts: rule(*(
        _ for part in parts for _ in (rule('zz').optional(), part)
    )),
    'repeat': lambda parts: or_(*[rule(_) for _ in parts]).repeatable(),
}


def place_cases(hows, phrases):
    for words in phrases:
        for how in hows:
            for place in sorted(PLACES):
                for inside in sorted(INSIDE):
                    if inside == 'repeat' and place in ('repeat', 'bounded'):
                        # which of the two continues is C03
                        continue
                    yield (words, how, place, inside)


def mark(part, how, style):
    if not how:
        return part.interpretation(F.a)
    if style == 'attribute':
        return part.interpretation(interp.add_normalizers(F.a, how))
    return part.interpretation(
        interp.add_normalizers(interp.Bank(), how)
    ).interpretation(F.a)


def run_place(case, counter):
    words, how, place, inside = case
    string, text = make_text(words, [' '] * len(words))
    ast = ('fact', 'F', (
        ('norm', 'F', 'a', how, sequence(words)) if how
        else ('attr', 'F', 'a', sequence(words))
    ))
    counter.state(case)
    for style in ('attribute', 'separate'):
        marked = mark(INSIDE[inside]([eq(_) for _ in words]), how, style)
        root = PLACES[place](marked).interpretation(F)
        parser = Parser(root, tokenizer=TOKENIZER)
        where = '%s, %s inside %s, %s, text %r' % (
            interp.show(ast), inside, place, style, string
        )
        check(where, parser.match(string), ast, text, counter)
        found = list(parser.findall('! (' + string + ') ;'))
        if len(found) != 1:
            raise Mismatch('%s: %d matches in a longer text' % (where, len(found)))
        check(where + ' in a longer text', found[0], ast, text, counter)
        # the same part in other rules
        for other in (rule(marked), rule('zz', marked), marked):
            Parser(other.interpretation(F), tokenizer=TOKENIZER).match(string)
            check(where + ', used again', parser.match(string), ast, text, counter)


# ---------------------------------------------- readings left by the rule

NARROW = {
    'any': (lambda: true(), lambda grams: True),
    'g0': (lambda: gram('g0'), lambda grams: 'g0' in grams),
    'g1': (lambda: gram('g1'), lambda grams: 'g1' in grams),
    'both': (
        lambda: and_(gram('g0'), gram('g1')),
        lambda grams: 'g0' in grams and 'g1' in grams
    ),
}


def reading_lists(high):
    kinds = [('g0',), ('g1',), ('g0', 'g1'), ()]
    for size in range(1, high + 1):
        for grams in itertools.product(kinds, repeat=size):
            yield grams


def entry(word, grams):
    return [
        ('%s%d' % (word, index), _, {GENT: '%sа%d' % (word, index)})
        for index, _ in enumerate(grams)
    ]


def narrow_cases(high, hows):
    for grams in reading_lists(high):
        for name in sorted(NARROW):
            for how in hows:
                yield (grams, name, how)


def run_narrow(case, counter):
    grams, name, how = case
    readings = {'слово': entry('слово', grams), 'ещё': [('ещё', ())]}
    tokenizer = stub.tokenizer(readings)
    make, holds = NARROW[name]
    # and_ keeps the readings compatible with each part
    left = [_ for _ in readings['слово'] if holds(_[1])]
    words = ('слово', 'ещё')
    if name == 'both':
        left = None
    for size in (1, 2):
        ast = ('fact', 'F', ('norm', 'F', 'a', how, sequence(words[:size])))
        for style in ('attribute', 'separate'):
            parts = [rule(make()), rule('ещё')][:size]
            root = mark(rule(*parts), how, style).interpretation(F)
            parser = Parser(root, tokenizer=tokenizer)
            string = ' '.join(words[:size])
            match = parser.match(string)
            counter.state(case, size)
            if left == []:
                counter.trace()
                if match:
                    raise Mismatch('%s on %r: match without a reading' % (name, grams))
                continue
            remaining = left
            if left is None:
                # the readings reported by the match decide
                if not match:
                    continue
                numbers = [
                    readings['слово'][int(_.normalized[-1])]
                    for _ in match.tokens[0].forms
                ]
                remaining = numbers
            string, text = make_text(
                words[:size], [' '],
                {'слово': remaining, 'ещё': readings['ещё']}
            )
            check(
                '%s, %s of readings %r, %s' % (interp.show(ast), name, grams, style),
                match, ast, text, counter
            )


class Same(Relation):
    __attributes__ = []
    label = 'same'

    def __call__(self, form, other):
        return bool(numbers_of(form) & numbers_of(other))


def numbers_of(form):
    return {_ for _ in form.grams.values if _.startswith('r')}


def agree_cases(high, hows):
    kinds = ['r0', 'r1', 'r2']
    lists = [
        _ for size in range(1, high + 1)
        for _ in itertools.permutations(kinds, size)
    ]
    for first in lists:
        for second in lists:
            for how in hows:
                yield (first, second, how)


def run_agree(case, counter):
    first, second, how = case
    readings = {
        'а': [('а%d' % i, (_,), {GENT: 'ая%d' % i}) for i, _ in enumerate(first)],
        'б': [('б%d' % i, (_,), {GENT: 'бя%d' % i}) for i, _ in enumerate(second)],
    }
    tokenizer = stub.tokenizer(readings)
    left = {
        'а': [_ for _ in readings['а'] if _[1][0] in second],
        'б': [_ for _ in readings['б'] if _[1][0] in first],
    }
    words = ('а', 'б')
    string, text = make_text(words, [' '], left)
    whole = ('norm', 'F', 'a', how, ('seq', (('w', 0), ('w', 1))))
    apart = ('seq', (
        ('norm', 'F', 'a', how, ('w', 0)), ('norm', 'F', 'b', how, ('w', 1))
    ))
    nested = ('seq', (
        ('attr', 'F', 'a', ('fact', 'G', ('norm', 'G', 'a', how, ('w', 0)))),
        ('norm', 'F', 'b', how, ('w', 1))
    ))
    relation = Same()
    a, b = eq('а'), eq('б')
    normal = lambda item: interp.add_normalizers(item, how)  # noqa
    rules = [
        (whole, rule(a.match(relation), b.match(relation)).interpretation(normal(F.a))),
        (apart, rule(
            a.match(relation).interpretation(normal(F.a)),
            b.match(relation).interpretation(normal(F.b))
        )),
        (apart, rule(
            rule(a).interpretation(normal(F.a)).match(relation),
            rule(b).interpretation(normal(F.b)).match(relation)
        )),
        (apart, rule(
            rule(a).match(relation).interpretation(normal(F.a)),
            rule(rule(b).match(relation)).interpretation(normal(F.b))
        )),
        (nested, rule(
            rule(a).interpretation(normal(G.a)).interpretation(G)
            .interpretation(F.a).match(relation),
            rule(b).interpretation(normal(F.b)).match(relation)
        )),
    ]
    for number, (ast, item) in enumerate(rules):
        parser = Parser(item.interpretation(F), tokenizer=tokenizer)
        ast = ('fact', 'F', ast)
        counter.state(case, number)
        match = parser.match(string)
        where = '%s, agreement %d of readings %r and %r' % (
            interp.show(ast), number, first, second
        )
        if not left['а']:
            counter.trace()
            if match:
                raise Mismatch('%s: match without agreement' % where)
            continue
        check(where, match, ast, text, counter)
        check(where + ' again', parser.match(string), ast, text, counter)


# ---------------------------------------------- lines of dictionaries

LINES = ('дом', 'Стали', 'стали  ДОМ', 'Ab', '12', 'дом-12', 'Ab Ab')
KINDS = {
    'exact': pipeline, 'caseless': caseless_pipeline, 'morph': morph_pipeline
}


def line_cases(hows):
    for kind in sorted(KINDS):
        for line in LINES:
            for how in hows:
                for place in sorted(PLACES):
                    if place in ('repeat', 'bounded') and len(split(line)) > 1:
                        # which repetition continues is C03
                        continue
                    yield (kind, line, how, place)


def split(line):
    return tuple(line.replace('-', ' - ').split())


def run_line(case, counter):
    kind, line, how, place = case
    words = split(line)
    readings = {_: READINGS.get(_.lower()) for _ in words}
    marks = [('attribute', None), ('separate', None)]
    variants = [
        ('itself', lambda item: item, True),
        ('in rule', lambda item: rule(item), True),
        ('twice', lambda item: rule(rule(item)), True),
        ('with a word', lambda item: rule(item, rule('zz').optional()), None),
    ]
    for gaps in ([' '] * len(words), ['  '] * len(words)):
        string, text = make_text(words, gaps, readings)
        for name, inner, whole in variants:
            if whole is None and how and how[0] == NORMAL:
                continue
            items = ('chain', tuple(range(len(words))), line if whole else None)
            value = text.made_value(items, how) if how else text.value(items)
            for style, _ in marks:
                dictionary = KINDS[kind](LINES)
                root = PLACES[place](mark(inner(dictionary), how, style))
                parser = Parser(root.interpretation(F), tokenizer=TOKENIZER)
                match = parser.match(string)
                counter.state(case, name, tuple(gaps))
                counter.trace()
                counter.step()
                where = '%s dictionary, line %r, %s, %s, %s, %s, text %r' % (
                    kind, line, interp.show_how(how), name, place, style, string
                )
                if match is None:
                    raise Mismatch('%s: no match' % where)
                actual = interp.observe(match.fact.a, CLASSES)
                if actual != value:
                    raise Mismatch('%s: value %r, expected %r' % (
                        where, actual, value
                    ))


# ---------------------------------------------- functions of values of facts

def value_cases():
    inner = [
        ('w', 0),
        ('fact', 'G', ('attr', 'G', 'a', ('w', 0))),
        ('fact', 'G', ('seq', (('attr', 'G', 'c', ('w', 0)), ('attr', 'G', 'c', ('w', 1))))),
        ('fact', 'G', ('norm', 'G', 'a', (NORMAL,), ('w', 0))),
        ('only', (NORMAL,), ('w', 0)),
        ('only', (('const', 5),), ('w', 0)),
        ('norm', 'G', 'a', (UP,), ('w', 0)),
    ]
    steps = [WRAP, ('const', 'К'), ('custom', 'none')]
    for item in inner:
        for size in (1, 2, 3):
            for chain in itertools.product(steps, repeat=size):
                for marks in itertools.product(('only', 'F', 'G'), repeat=size):
                    if marks[-1] != 'only':
                        yield (item, chain, marks)


def run_value(case, counter):
    ast, chain, marks = case
    for step, name in zip(chain, marks):
        if name == 'only':
            ast = ('only', (step,), ast)
        else:
            ast = ('norm', name, 'a', (step,), ast)
    ast = ('fact', marks[-1], ast)
    words = ('Стали', 'дом')[:2 if 'seq' in repr(ast) else 1]
    string, text = make_text(words, [' '])
    parser = Parser(
        interp.build(ast, CLASSES, lambda _: eq(words[_])), tokenizer=TOKENIZER
    )
    counter.state(case)
    check(interp.show(ast), parser.match(string), ast, text, counter)


# ---------------------------------------------- equal values that differ

EQUAL = [
    [1, True, 1.0, Decimal(1), Fraction(1), complex(1)],
    [0, False, 0.0, -0.0, Decimal(0), Decimal('0.00'), Decimal('-0')],
    [(1, 2), (True, 2), (1.0, 2.0)],
    [frozenset({1}), frozenset({True})],
    [Text('слово'), 'слово'],
    [10 ** 20, 1e20, Decimal(10) ** 20],
]


def equal_cases():
    for number, values in enumerate(EQUAL):
        for count in (2, 3):
            for chosen in itertools.permutations(range(len(values)), count):
                for way in ('one parser', 'parsers', 'function'):
                    yield (number, chosen, way)


def run_equal(case, counter):
    number, chosen, way = case
    values = [EQUAL[number][_] for _ in chosen]
    words = ['дом', 'сад', 'лес'][:len(values)]
    if way == 'function':
        items = [
            rule(eq(word)).interpretation(F.a.custom(lambda _, kept=value: kept))
            for word, value in zip(words, values)
        ]
    else:
        items = [
            rule(eq(word)).interpretation(F.a.const(value))
            for word, value in zip(words, values)
        ]
    if way == 'parsers':
        parsers = [Parser(_.interpretation(F), tokenizer=TOKENIZER) for _ in items]
    else:
        parsers = [Parser(or_(*items).interpretation(F), tokenizer=TOKENIZER)] * len(items)
    counter.state(case)
    for times in range(2):
        for word, value, parser in zip(words, values, parsers):
            actual = parser.match(word).fact.a
            counter.step()
            counter.trace()
            if type(actual) is not type(value) or repr(actual) != repr(value):
                raise Mismatch('%s, %r of %r: value %r, expected %r' % (
                    way, word, list(zip(words, values)), actual, value
                ))


# ---------------------------------------------- any values, any functions

FUNCTIONS = {
    'lambda': lambda value: lambda _: value,
    'partial': lambda value: functools.partial(lambda kept, _: kept, value),
    'object': lambda value: Method(value),
    'method': lambda value: Method(value).give,
    'default': lambda value: lambda _, kept=value: kept,
    'star': lambda value: lambda *args, **kwargs: value,
}


def anything_cases():
    for name in sorted(anything()):
        for place in ('attribute', 'separate', 'list', 'root', 'outer'):
            yield (name, place, 'const')
            for kind in sorted(FUNCTIONS):
                yield (name, place, kind)
                yield (name, place, kind + ' of normalized')
                yield (name, place, kind + ' twice')


def run_anything(case, counter):
    name, place, kind = case
    value = anything()[name]
    H = fact('H', ['x', attribute('all').repeatable()])
    if kind == 'const':
        attribute_, normaliser = H.x.const(value), const(value)
    else:
        kind, _, more = kind.partition(' ')
        function = FUNCTIONS[kind](value)
        if more == 'of normalized':
            attribute_, normaliser = H.x.normalized().custom(function), normalized().custom(function)
        elif more == 'twice':
            attribute_ = H.x.custom(lambda _: 'other').custom(function)
            normaliser = custom(lambda _: 'other').custom(function)
        else:
            attribute_, normaliser = H.x.custom(function), custom(function)
    word = rule(true())
    if place == 'attribute':
        item = word.interpretation(attribute_).interpretation(H)
    elif place == 'separate':
        item = word.interpretation(normaliser).interpretation(H.x).interpretation(H)
    elif place == 'list':
        item = word.interpretation(normaliser).interpretation(H.all).interpretation(H)
    elif place == 'outer':
        item = word.interpretation(attribute_).interpretation(H.all).interpretation(H)
    else:
        item = word.interpretation(normaliser)
    match = Parser(item, tokenizer=TOKENIZER).match('Стали')
    for _ in range(2):
        made = match.fact
        if place == 'root':
            actual = made
        elif place in ('list', 'outer'):
            actual = made.all[0] if len(made.all) == 1 else made.all
        else:
            actual = made.x
        counter.state(case)
        counter.step()
        counter.trace()
        if actual is not value:
            raise Mismatch('%s, %s: the value is %r, expected %r' % (place, kind, actual, value))


# ---------------------------------------------- functions of all sorts

class Text(str):
    pass


def outer(value):
    return ('outer', value)


FUNCTION_KINDS = {
    'int': int, 'float': float, 'str': str, 'len': len, 'bool': bool, 'list': list, 'tuple': tuple,
    'subclass': Text, 'repr': repr, 'hash': lambda _: ('hash', _), 'upper': str.upper,
    'lambda': lambda _: ('lambda', _), 'function': outer,
    'partial': functools.partial(outer), 'object': Method('kept'), 'method': Method('given').give,
    'getter': operator.itemgetter(0), 'dictionary': {'1': 'one', 'один': 'ein'}.get, 'next': lambda _: (_, 1),
    'builtin method': '1'.__add__, 'nothing': lambda _: None, 'no': lambda _: False, 'empty': lambda _: '',
}


def functions_cases(size):
    for names in itertools.product(sorted(FUNCTION_KINDS), repeat=size):
        for first in ('plain', 'normalized', 'inflected'):
            yield (names, first)


def run_functions(case, counter):
    names, first = case
    functions = [FUNCTION_KINDS[_] for _ in names]
    word = '1'
    expected = word
    try:
        for function in functions:
            expected = function(expected)
    except (TypeError, ValueError, IndexError, AttributeError) as error:
        expected = type(error)
    H = fact('H', ['x'])
    counter.state(case)
    ways = []
    start = {
        'plain': lambda item: item, 'normalized': lambda item: item.normalized(),
        'inflected': lambda item: item.inflected({'gent'}),
    }[first]
    single = {'plain': None, 'normalized': normalized(), 'inflected': inflected({'gent'})}[first]
    # not more than two functions are chained on an attribute
    if len(functions) <= (2 if first == 'plain' else 1):
        item = start(H.x)
        made = single
        for function in functions:
            item = item.custom(function)
            made = made.custom(function) if made else custom(function)
        ways.append(('attribute', [item]))
        ways.append(('separate', [made, H.x]))
    steps = [custom(_) for _ in functions]
    if single:
        steps.insert(0, single)
    ways.append(('apart', steps + [H.x]))
    ways.append(('last', steps[:-1] + [H.x.custom(functions[-1])]))
    for name, marks in ways:
        item = rule(eq(word))
        for mark_ in marks:
            item = item.interpretation(mark_)
        match = Parser(item.interpretation(H), tokenizer=TOKENIZER).match(word)
        counter.step()
        counter.trace()
        try:
            actual = match.fact.x
        except (TypeError, ValueError, IndexError, AttributeError) as error:
            actual = type(error)
        if type(actual) is not type(expected) or actual != expected:
            raise Mismatch('%s of %s then %s: %r, expected %r' % (
                name, first, ', '.join(names), actual, expected
            ))


# ---------------------------------------------- long phrases

LONG = {
    '': lambda words: ' '.join(words),
    'normalized': lambda words: ' '.join(WORDS[_][0][0] for _ in words),
    'inflected': lambda words: ' '.join(WORDS[_][0][2][GENT] if len(WORDS[_][0]) > 2 else WORDS[_][0][0] for _ in words),
    'custom': lambda words: ' '.join(words).upper(),
    'normalized custom': lambda words: ' '.join(WORDS[_][0][0] for _ in words).upper(),
}


def size_cases(limit):
    for size in enum.sizes(limit):
        for how in sorted(LONG):
            yield (size, how)


def run_size(case, counter):
    size, how = case
    H = fact('H', ['x'])
    marked = H.x
    for step in how.split():
        marked = {
            'normalized': lambda: marked.normalized(), 'inflected': lambda: marked.inflected({'gent'}),
            'custom': lambda: marked.custom(lambda _: _.upper())
        }[step]()
    words = [('Стали', 'дом', 'ПО')[_ % 3] for _ in range(size)]
    parser = Parser(
        rule(true()).repeatable().interpretation(marked).interpretation(H), tokenizer=TOKENIZER
    )
    expected = LONG[how](words)
    for gap in (' ', '  '):
        match = parser.match(gap.join(words))
        counter.state(case, gap)
        counter.step()
        counter.trace()
        if match is None or match.fact.x != expected:
            raise Mismatch('%d words, %s: %s, expected %s' % (
                size, how, str(match and match.fact.x)[-200:], expected[-200:]
            ))


# ---------------------------------------------- grammemes asked for

FORMS = ('nomn', 'gent', 'sing', 'plur')
ASKED = [
    frozenset(_) for size in range(len(FORMS) + 1) for _ in itertools.combinations(FORMS, size)
]


def asked_cases():
    for own in ASKED:
        for asked in ASKED:
            for place in range(4):
                yield (own, asked, place)


def run_asked(case, counter):
    """A word is inflected to the grammemes given, whatever it has already."""
    own, asked, place = case
    for missing in (False, True):
        table = {_: 'я'.join(('',) + tuple(sorted(_))) + 'я' for _ in ASKED if not (missing and _ == asked)}
        readings = {
            'слово': [('начало', own, table), ('другое', ('gent', 'sing'), {_: 'плохо' for _ in ASKED})],
            'ещё': [('ещё', own)]
        }
        word = 'начало' if missing else table[asked]
        given = [set(asked), frozenset(asked), tuple(sorted(asked)), sorted(asked)][place]
        item = rule('слово')
        if place % 2:
            item = item.interpretation(F.a.inflected(given))
        else:
            item = item.interpretation(inflected(given)).interpretation(F.a)
        parser = Parser(item.interpretation(F), tokenizer=stub.tokenizer(readings))
        for _ in range(2):
            counter.state(case)
            counter.step()
            counter.trace()
            value = parser.match('слово').fact.a
            if value != word:
                raise Mismatch('word of grammemes %r inflected to %r%s is %r, expected %r' % (
                    sorted(own), given, ', which it has not' if missing else '', value, word
                ))


# ---------------------------------------------- words of every kind

def run_tag(case, counter):
    """The value of a word does not depend on what kind of word it is."""
    for grams in tags.block(case):
        readings = {
            'слово': [
                ('начало', grams, {GENT: 'начала', SING: 'начальный', PLUR: 'началам'}),
                ('другое', ('NOUN',), {GENT: 'другого', SING: 'другой', PLUR: 'другим'})
            ],
            'ещё': [('конец', (), {GENT: 'конца'}), ('слово', grams)]
        }
        tokenizer = tags.tokenizer(readings)
        for words, how, expected in (
                (('Слово',), lambda _: _.normalized(), 'начало'),
                (('Слово',), lambda _: _.inflected({'gent'}), 'начала'),
                (('Слово',), lambda _: _.inflected(), 'начальный'),
                (('Слово',), lambda _: _.inflected({'datv', 'plur'}), 'началам'),
                (('Слово',), lambda _: _.inflected({'femn'}), 'начало'),
                (('Слово',), lambda _: _.normalized().custom(str.upper), 'НАЧАЛО'),
                (('Слово',), lambda _: _.custom(str.upper), 'СЛОВО'),
                (('Слово',), lambda _: _.const(1), 1),
                (('Слово',), lambda _: _, 'Слово'),
                (('слово', 'Ещё'), lambda _: _.normalized(), 'начало конец'),
                (('слово', 'Ещё'), lambda _: _.inflected({'gent'}), 'начала конца'),
                (('слово', 'Ещё'), lambda _: _, 'слово Ещё'),
        ):
            parser = Parser(
                rule(*(true() for _ in words)).interpretation(how(F.a)).interpretation(F),
                tokenizer=tokenizer
            )
            counter.state(case, grams)
            counter.step()
            counter.trace()
            match = parser.match(' '.join(words))
            value = match and match.fact.a
            if value != expected:
                raise Mismatch('a word of grammemes %s in %r has value %r, expected %r' % (
                    ','.join(grams), words, value, expected
                ))
        # the value of a dictionary line is the line
        parser = Parser(
            morph_pipeline(['Начало', 'слово  ещё']).interpretation(F.a.normalized()).interpretation(F),
            tokenizer=tokenizer
        )
        for text, line in (('слово', 'Начало'), ('СЛОВО', 'Начало'), ('слово ещё', 'слово  ещё')):
            match = parser.match(text)
            counter.step()
            counter.trace()
            if not match or match.fact.a != line:
                raise Mismatch('dictionary line for %r of grammemes %s is %r, expected %r' % (
                    text, ','.join(grams), match and match.fact.a, line
                ))


# ---------------------------------------------- forms that are equal

SAME = ('дом', 'дома', 'дому', 'ДОМ')


def same_cases():
    for typed in ('дом', 'Дом', 'ДОМА', 'дома'):
        for normal in SAME:
            for asked in SAME + (None,):
                for usual in SAME + (None,):
                    yield (typed, normal, asked, usual)


def run_same(case, counter):
    """A form is what the dictionary says, also if it is the word itself."""
    typed, normal, asked, usual = case
    forms = {}
    if asked:
        forms[GENT] = asked
    if usual:
        forms[SING] = usual
    grams = ('NOUN', 'gent') if asked == typed.lower() else ('NOUN', 'nomn', 'sing')
    for exact in (stub.Dictionary, stub.ExactDictionary):
        tokenizer = stub.tokenizer(
            {_: [(normal, grams, forms)] for _ in (typed, typed.lower())}, dictionary=exact
        )
        for how, expected in (
                (lambda _: _, typed), (lambda _: _.normalized(), normal),
                (lambda _: _.inflected({'gent'}), asked or normal),
                (lambda _: _.inflected(), usual or normal),
                (lambda _: _.inflected({'gent'}).custom(str.upper), (asked or normal).upper()),
                (lambda _: _.inflected({'plur'}), normal)):
            parser = Parser(rule(true()).interpretation(how(F.a)).interpretation(F), tokenizer=tokenizer)
            counter.state(case)
            counter.step()
            counter.trace()
            value = parser.match(typed).fact.a
            if value != expected:
                raise Mismatch('word %r of normal form %r and forms %r has value %r, expected %r' % (
                    typed, normal, forms, value, expected
                ))


# ---------------------------------------------- letters of words without readings

def letter_cases():
    for start in range(0, 0x110000, 0x1000):
        yield (start, start + 0x1000)


LETTER_HOWS = [
    (lambda _: _, lambda _: _), (lambda _: _.normalized(), str.lower),
    (lambda _: _.inflected({'gent'}), str.lower), (lambda _: _.inflected(), str.lower),
    (lambda _: _.normalized().custom(len), lambda _: len(_.lower())),
    (lambda _: _.custom(len), len),
]


def run_letter(case, counter):
    parsers = [
        (Parser(rule(true()).interpretation(how(F.a)).interpretation(F), tokenizer=ReadyTokenizer(TOKENIZER)), expected)
        for how, expected in LETTER_HOWS
    ]
    for code in range(*case):
        letter = chr(code)
        kinds = {letter, letter.lower(), letter.casefold(), letter.upper(), letter.title(), letter.swapcase()}
        if len(kinds) == 1:
            continue
        counter.state(code)
        for word in (letter, 'Ab' + letter, letter + 'Z', 'A' + letter + 'c'):
            token = Token(word, Span(0, len(word)), 'OTHER')
            for parser, expected in parsers:
                counter.step()
                counter.trace()
                value = parser.match([token]).fact.a
                if value != expected(word):
                    raise Mismatch('word %r without readings has value %r, expected %r' % (
                        word, value, expected(word)
                    ))


class C18(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        phrases = [('Стали',), ('12', 'дом'), ('Стали', 'ПО')]
        if deep:
            phrases += [('Ab',), ('ПО', '-', 'дом'), ('Стали', 'дом', 'ПО')]
        hows = ((),) + HOWS
        main = ((), (NORMAL,), (('inflected', ('gent',)),), (UP,), (NORMAL, UP))
        return [
            Family(
                'phrases', lambda: phrase_cases(3, hows if deep else main),
                run_phrase,
                'phrases up to 3 of %d words, 3 kinds of gaps, %d normalisers' % (
                    len(WORDS), len(hows if deep else main))
            ),
            Family(
                'normalisers', lambda: phrase_cases(2, hows), run_phrase,
                'phrases up to 2 words, %d normalisers' % len(hows)
            ),
            Family(
                'places', lambda: place_cases(hows if deep else main, phrases),
                run_place, '%d places, %d shapes, %d phrases' % (
                    len(PLACES), len(INSIDE), len(phrases))
            ),
            Family(
                'narrow', lambda: narrow_cases(
                    4 if deep else 3, HOWS[:3] + ((NORMAL, UP),)
                ), run_narrow, 'up to %d readings' % (4 if deep else 3)
            ),
            Family(
                'agree', lambda: agree_cases(3, HOWS if deep else HOWS[:3]),
                run_agree, 'two words with up to 3 readings'
            ),
            Family(
                'lines', lambda: line_cases(hows if deep else main), run_line,
                '%d lines, 3 kinds, %d places' % (len(LINES), len(PLACES))
            ),
            Family(
                'anything', anything_cases, run_anything,
                '%d values as constants and results of %d kinds of functions, 5 places' % (
                    len(anything()), len(FUNCTIONS))
            ),
            Family(
                'equal', equal_cases, run_equal,
                'up to 3 of %d lists of values that are equal and differ' % len(EQUAL)
            ),
            Family(
                'functions', lambda: itertools.chain.from_iterable(
                    functions_cases(_) for _ in range(1, 4 if deep else 3)
                ), run_functions,
                'chains of up to %d functions of %d sorts given in 4 ways' % (3 if deep else 2, len(FUNCTION_KINDS))
            ),
            Family(
                'grammemes', asked_cases, run_asked,
                'words of all %d sets of grammemes inflected to all of them, given in 4 ways' % len(ASKED)
            ),
            Family(
                'kinds', tags.blocks, run_tag,
                'words of every set of grammemes of the dictionary, 13 normalisers'
            ),
            Family(
                'same', same_cases, run_same,
                'all equalities between a word, its normal form and two other forms'
            ),
            Family(
                'letters', letter_cases, run_letter,
                'words without readings with every letter of Unicode that has a case'
            ),
            Family(
                'size', lambda: size_cases(400 if deep else 130), run_size,
                'phrases of up to %d words' % (400 if deep else 130)
            ),
            Family(
                'values', value_cases, run_value,
                'chains of up to 3 functions and constants over facts and values'
            ),
        ]


CHECK = C18(
    'C18',
    rule='state = (phrase, blanks, normalisers, place); transition = one fact '
         'read; trace = one fact compared with the model',
    assumptions=['morphology is a small stand-in for pymorphy2, C27 ties the '
                 'analyser to it']
)
