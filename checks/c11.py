"""C11: predicates decide exactly their documented condition."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub, tags
from mc.enum import sizes
from mc.yg import Parser, ReadyTokenizer

from yargy import rule, and_, or_, not_
from yargy import predicates as bank
from yargy.span import Span
from yargy.tagger import Tagger
from yargy.token import Token

NORMALS = {
    'стали': [('сталь', ('NOUN', 'sing')), ('стать', ('VERB', 'plur'))],
    'сталь': [('сталь', ('NOUN', 'sing'))],
    'стать': [('стать', ('VERB',))],
    'дом': [('дом', ('NOUN', 'sing')), ('дом', ('NOUN', 'Sgtm'))],
    'дома': [('дом', ('NOUN', 'plur')), ('дома', ('PREP',))],
    'сани': [('сани', ('NOUN', 'plur', 'Pltm'))],
    'пары': [('пара', ('NOUN', 'sing')), ('пар', ('NOUN', 'plur'))],
    'молоко': [('молоко', ('NOUN', 'Sgtm'))],
}


def readings(word):
    return NORMALS.get(word.lower(), [(word.lower(), ())])


TOKENIZER = ReadyTokenizer(stub.tokenizer(NORMALS))
MORPH = TOKENIZER.morph


class Labels(Tagger):
    tags = ['A', 'B']

    def __call__(self, tokens):
        return tokens


# a token: (value, type, with readings, tag)
VALUES = (
    ('стали', 'RU'), ('Стали', 'RU'), ('СТАЛЬ', 'RU'), ('стать', 'RU'),
    ('дом', 'RU'), ('ДОМА', 'RU'), ('дОма', 'RU'), ('сани', 'RU'),
    ('молоко', 'RU'), ('пары', 'RU'), ('ё', 'RU'), ('Ёж', 'RU'), ('ЁЖ', 'RU'),
    ('x', 'LATIN'), ('X', 'LATIN'), ('xy', 'LATIN'), ('Xy', 'LATIN'),
    ('xY', 'LATIN'), ('XY', 'LATIN'), ('XyZ', 'LATIN'),
    ('0', 'INT'), ('7', 'INT'), ('8', 'INT'), ('007', 'INT'), ('12', 'INT'),
    ('123', 'INT'), ('٣', 'INT'), ('99999999999999999999', 'INT'),
    ('-', 'PUNCT'), ('7', 'OTHER'), ('ß', 'OTHER'), ('É', 'OTHER'),
    ('ǅ', 'OTHER'), ('\n', 'EOL'), ('дом', 'OTHER'), ('12', 'LATIN'),
)


def token_items():
    for value, type in VALUES:
        yield (value, type, False, None)
        yield (value, type, False, 'A')
        if type in ('RU', 'LATIN'):
            yield (value, type, True, None)
            yield (value, type, True, 'B')


TOKENS = list(token_items())


def fresh(value):
    return value and ''.join(list(value))


def make_token(item):
    value, type, morph, tag = item
    # equal strings, not the same ones
    value, type, tag = fresh(value), fresh(type), fresh(tag)
    # the condition is about the value, not about its place
    token = Token(value, Span(5, 6 + 2 * len(value)), type)
    if morph:
        token = token.morphed(MORPH(value))
    if tag:
        token = token.tagged(tag)
    return token


def lengthy(value):
    return len(value) > 2


def numeric(value):
    return value.isdigit() and int(value) > 9


def truthy(value):
    # custom functions may return anything
    return value.strip('x7')


FUNCTIONS = {'lengthy': lengthy, 'numeric': numeric, 'truthy': truthy}


def number_bound(compare):
    def holds(item, value):
        return item[1] == 'INT' and compare(int(item[0]), value)
    return holds


def token_normals(item):
    if item[2]:
        return {_[0] for _ in readings(item[0])}
    return {item[0].lower()}


def word_normals(word):
    return {_[0] for _ in readings(word)}


def some_reading(item, test):
    return item[2] and any(test(set(grams)) for _, grams in readings(item[0]))


def holds_custom(item, value):
    name, types = value
    if types:
        types = (types,) if isinstance(types, str) else types
        if item[1] not in types:
            return False
    return bool(FUNCTIONS[name](item[0]))


# name -> (constructor of the predicate, meaning, values)
WORDS = ('стали', 'Стали', 'сталь', 'дома', 'дом', 'X', 'xy', '7', 'ё', 'ЁЖ', 'ß', 'é', 'ǆ', 'ничего')
SETS = ((), ('x',), ('X', 'дом'), ('СТАЛЬ', '7', 'xY'), ('xyz', '-'))
PREDICATES = {
    'true': (lambda _: bank.true(), lambda item, _: True, (None,)),
    'eq': (bank.eq, lambda item, v: item[0] == v, WORDS + ('12', '٣', '\n', '')),
    'caseless': (bank.caseless, lambda item, v: item[0].lower() == v.lower(), WORDS + ('É', 'SS', 'XYZ')),
    'in_': (lambda v: bank.in_(set(v)), lambda item, v: item[0] in v, SETS),
    'in_list': (lambda v: bank.in_(list(v)), lambda item, v: item[0] in v, SETS),
    'in_tuple': (lambda v: bank.in_(tuple(v)), lambda item, v: item[0] in v, SETS),
    'in_keys': (lambda v: bank.in_(dict.fromkeys(v, '7')), lambda item, v: item[0] in v, SETS),
    'in_string': (bank.in_, lambda item, v: item[0] in v, ('', 'x', 'xyz', 'Дом дома', '012')),
    'in_caseless_list': (
        lambda v: bank.in_caseless(list(v)),
        lambda item, v: item[0].lower() in [_.lower() for _ in v], SETS
    ),
    'in_caseless': (
        lambda v: bank.in_caseless(set(v)),
        lambda item, v: item[0].lower() in [_.lower() for _ in v], SETS + (('É', 'ёж'),)
    ),
    'gte': (bank.gte, number_bound(lambda a, b: a >= b), (-1, 0, 3, 7, 8, 12, 124, 10 ** 19, 2.5, 12.5)),
    'lte': (bank.lte, number_bound(lambda a, b: a <= b), (-1, 0, 3, 7, 8, 12, 124, 10 ** 20, 2.5, 11.5)),
    'length_eq': (bank.length_eq, lambda item, v: len(item[0]) == v, (0, 1, 2, 3, 5)),
    'is_lower': (lambda _: bank.is_lower(), lambda item, _: item[0].islower(), (None,)),
    'is_upper': (lambda _: bank.is_upper(), lambda item, _: item[0].isupper(), (None,)),
    'is_title': (lambda _: bank.is_title(), lambda item, _: item[0].istitle(), (None,)),
    'is_capitalized': (
        lambda _: bank.is_capitalized(), lambda item, _: item[0][:1].isupper(), (None,)
    ),
    'normalized': (
        bank.normalized, lambda item, v: bool(token_normals(item) & word_normals(v)),
        WORDS + ('стать', 'пар', 'Пары', 'САНИ')
    ),
    'dictionary': (
        lambda v: bank.dictionary(set(v)),
        lambda item, v: bool(token_normals(item) & set().union(*(word_normals(_) for _ in v))),
        SETS + (('стали',), ('пары', 'дом'), ('Молоко',), ('стать', 'xy'))
    ),
    'gram': (
        bank.gram, lambda item, v: some_reading(item, lambda grams: v in grams),
        ('NOUN', 'VERB', 'PREP', 'sing', 'plur', 'Sgtm', 'Pltm', 'femn')
    ),
    'type': (bank.type, lambda item, v: item[1] == v, ('RU', 'LATIN', 'INT', 'OTHER', 'EOL')),
    'tag': (bank.tag, lambda item, v: item[3] == v, ('A', 'B')),
    'is_single': (
        lambda _: bank.is_single(),
        lambda item, _: some_reading(item, lambda grams: grams & {'sing', 'Sgtm'}), (None,)
    ),
    'custom': (
        lambda v: bank.custom(FUNCTIONS[v[0]], types=list(v[1]) if isinstance(v[1], tuple) and len(v[1]) == 1 else v[1])
        if v[1] is not None else bank.custom(FUNCTIONS[v[0]]),
        holds_custom,
        tuple(
            (name, types)
            for name in sorted(FUNCTIONS)
            for types in (None, 'INT', ('RU', 'LATIN'), 'OTHER', ('INT',))
        )
    ),
}
# have to be resolved against the tokenizer first
SCHEMES = ('normalized', 'dictionary', 'gram', 'type', 'tag', 'custom')


def basic():
    for name in sorted(PREDICATES):
        for index in range(len(PREDICATES[name][2])):
            yield ('p', name, index)


def build(expression):
    kind = expression[0]
    if kind == 'p':
        construct, _, values = PREDICATES[expression[1]]
        return construct(values[expression[2]])
    if kind == 'not':
        return not_(build(expression[1]))
    return (and_ if kind == 'and' else or_)(*(build(_) for _ in expression[1]))


def evaluate(expression, item):
    kind = expression[0]
    if kind == 'p':
        _, holds, values = PREDICATES[expression[1]]
        return bool(holds(item, values[expression[2]]))
    if kind == 'not':
        return not evaluate(expression[1], item)
    values = [evaluate(_, item) for _ in expression[1]]
    return all(values) if kind == 'and' else any(values)


def names(expression):
    if expression[0] == 'p':
        return {expression[1]}
    if expression[0] == 'not':
        return names(expression[1])
    return set().union(*(names(_) for _ in expression[1]))


def run(case, counter):
    expression = case
    predicate = build(expression)
    direct = not names(expression) & set(SCHEMES)
    parser = Parser(rule(predicate), tokenizer=TOKENIZER, tagger=Labels())
    for item in TOKENS:
        token = make_token(item)
        expected = evaluate(expression, item)
        counter.state(expression, item)
        counter.step()
        counter.trace()
        match = parser.match([token])
        if (match is not None) != expected:
            raise Mismatch('%r of %r is %s, expected %s' % (
                expression, item, match is not None, expected
            ))
        if direct:
            counter.step()
            if bool(predicate(token)) != expected:
                raise Mismatch('%r called on %r is %s, expected %s' % (
                    expression, item, predicate(token), expected
                ))
    # a parser built later from the same predicate
    other = Parser(rule(predicate), tokenizer=TOKENIZER, tagger=Labels())
    for item in TOKENS[::7]:
        counter.step()
        if (other.match([make_token(item)]) is not None) != evaluate(expression, item):
            raise Mismatch('%r resolved again differs on %r' % (expression, item))


LEAFS = (
    ('p', 'gram', 0), ('p', 'is_single', 0), ('p', 'caseless', 5),
    ('p', 'type', 1), ('p', 'normalized', 0), ('p', 'tag', 0),
    ('p', 'gte', 3), ('p', 'is_capitalized', 0), ('p', 'true', 0),
    ('p', 'dictionary', 2), ('p', 'custom', 1), ('p', 'in_', 3),
)


def level(items, size):
    for item in items:
        yield ('not', item)
    for count in range(size + 1):
        for chosen in itertools.product(items, repeat=count):
            yield ('and', chosen)
            yield ('or', chosen)


def depth1():
    for item in level(LEAFS, 2):
        yield item
    for item in level(LEAFS[:4], 3):
        yield item


def depth2(count, leafs):
    def cases():
        items = [('and', ()), ('or', ())] + list(LEAFS[:leafs]) + list(level(LEAFS[:leafs], 2))[2:]
        for item in level(items[:count + 2], 2):
            yield item
    return cases


def run_text(case, counter):
    """Through the tokenizer, for every word of the table."""
    parser = Parser(rule(build(case)), tokenizer=TOKENIZER.tokenizer)
    for value, type in VALUES:
        tokens = list(TOKENIZER.tokenizer(value))
        if len(tokens) != 1 or value == '12' and type != 'INT':
            continue
        if tokens[0].type != type:
            continue
        item = (value, type, type == 'RU', None)
        counter.state('text', case, item)
        counter.step()
        counter.trace()
        if (parser.match(value) is not None) != evaluate(case, item):
            raise Mismatch('%r of the text %r is %s' % (
                case, value, not evaluate(case, item)
            ))


def basic_text():
    for item in basic():
        if item[1] != 'tag':
            yield item


# ------------------------------------------------ every character

BLOCK = 256


def char_cases(limit):
    for start in range(0, limit, BLOCK):
        yield (start,)


def char_token(value, type='OTHER'):
    return Token(value, Span(0, len(value)), type)


def run_chars(case, counter):
    start, = case
    case_tests = [
        ('is_lower', bank.is_lower(), str.islower),
        ('is_upper', bank.is_upper(), str.isupper),
        ('is_title', bank.is_title(), str.istitle),
        ('is_capitalized', bank.is_capitalized(), lambda _: _[:1].isupper()),
        ('length_eq', bank.length_eq(2), lambda _: len(_) == 2),
    ]
    for code in range(start, start + BLOCK):
        if 0xD800 <= code < 0xE000:
            continue
        char = chr(code)
        values = [char, char + 'a', 'A' + char, 'Aa' + char]
        for value in values:
            token = char_token(value)
            counter.state(value)
            for name, predicate, test in case_tests:
                counter.step()
                if bool(predicate(token)) != test(value):
                    raise Mismatch('%s of %r is %r' % (name, value, predicate(token)))
        for one, other in itertools.product((char, char.upper(), char.lower(), char.swapcase()), repeat=2):
            token = char_token(other)
            for name, predicate, expected in (
                    ('eq', bank.eq(one), one == other),
                    ('caseless', bank.caseless(one), one.lower() == other.lower()),
                    ('in_', bank.in_({one, '-'}), other in (one, '-')),
                    ('in_caseless', bank.in_caseless({one, '-'}), other.lower() in (one.lower(), '-')),
            ):
                counter.step()
                counter.trace()
                if bool(predicate(token)) != expected:
                    raise Mismatch('%s(%r) of %r is %r, expected %r' % (
                        name, one, other, predicate(token), expected
                    ))


# ------------------------------------------------ big parameters

def word(number):
    """Different words of Russian letters."""
    return ''.join('абвгдежзик'[int(_)] for _ in str(number))


def size_cases(limit):
    for kind in sorted(SIZED):
        for count in sizes(limit):
            yield (kind, count)


def some(count):
    """Numbers to look at: the ends, the middle and one after the end."""
    return sorted({0, 1, 2, count // 2, count - 2, count - 1, count, count + 1} - {-1})


def alternating(count, inner):
    """not_(or_(not_(and_(... to the depth of count."""
    item = inner
    for number in range(count):
        item = [not_, and_, not_, or_][number % 4](item)
    return item


def refused(count):
    """Is the word refused under that many levels."""
    return sum(number % 2 == 0 for number in range(count)) % 2 == 1


def words_up_to(count):
    return [word(_) for _ in range(count)]


SIZED = {
    # name -> (predicate, [(value, type, expected)])
    'in_': lambda n: (bank.in_(set(words_up_to(n))), [
        (word(_), 'RU', _ < n) for _ in some(n)]),
    'in_caseless': lambda n: (bank.in_caseless({_.upper() for _ in words_up_to(n)}), [
        (word(_).capitalize(), 'RU', _ < n) for _ in some(n)]),
    'dictionary': lambda n: (bank.dictionary(set(words_up_to(n))), [
        (word(_), 'RU', _ < n) for _ in some(n)]),
    'or': lambda n: (or_(*(bank.eq(word(_)) for _ in range(n))), [
        (word(_), 'RU', _ < n) for _ in some(n)]),
    'or normalized': lambda n: (or_(*(bank.normalized(word(_)) for _ in range(n))), [
        (word(_), 'RU', _ < n) for _ in some(n)]),
    'and': lambda n: (and_(*(not_(bank.eq(word(_))) for _ in range(n))), [
        (word(_), 'RU', _ >= n) for _ in some(n)]),
    'and type': lambda n: (and_(*(bank.type('RU') if _ < n - 1 else bank.eq('а') for _ in range(n))), [
        ('а', 'RU', True), ('б', 'RU', False), ('а', 'OTHER', n == 1)]),
    'not': lambda n: (alternating(n % 100, bank.eq('а')), [
        ('а', 'RU', not refused(n % 100)), ('б', 'RU', refused(n % 100))]),
    'length_eq': lambda n: (bank.length_eq(n), [
        ('x' * _, 'LATIN', _ == n) for _ in some(n)[1:]]),
    'gte': lambda n: (bank.gte(n), [
        (str(_), 'INT', _ >= n) for _ in some(n) + [2 * n, n * n]] + [('0' * n + str(n), 'INT', True)]),
    'lte': lambda n: (bank.lte(n), [
        (str(_), 'INT', _ <= n) for _ in some(n) + [2 * n, 10 * n + 1]] + [('0' * n + str(n), 'INT', True)]),
    # numbers of n digits
    'digits gte': lambda n: (bank.gte(10 ** n), [
        ('1' + '0' * n, 'INT', True), ('9' * n, 'INT', False), ('9' * (n + 1), 'INT', True)]),
    'digits lte': lambda n: (bank.lte(10 ** n), [
        ('1' + '0' * n, 'INT', True), ('9' * n, 'INT', True), ('1' + '0' * n + '1', 'INT', False)]),
    'eq': lambda n: (bank.eq('x' * n), [
        ('x' * n, 'LATIN', True), ('x' * n + 'y', 'LATIN', False), ('x' * (n - 1) + 'y', 'LATIN', False)]),
    'caseless': lambda n: (bank.caseless('xY' * n), [
        ('Xy' * n, 'LATIN', True), ('xY' * n + 'x', 'LATIN', False), ('xY' * (n - 1) + 'xx', 'LATIN', False)]),
    'is_lower': lambda n: (bank.is_lower(), [('x' * n, 'LATIN', True), ('x' * n + 'X', 'LATIN', False)]),
    'is_upper': lambda n: (bank.is_upper(), [('X' * n, 'LATIN', True), ('X' * n + 'x', 'LATIN', False)]),
    'is_title': lambda n: (bank.is_title(), [('X' + 'x' * n, 'LATIN', True), ('Xx' * (n + 1), 'LATIN', False)]),
    'is_capitalized': lambda n: (bank.is_capitalized(), [('X' + 'x' * n, 'LATIN', True), ('x' + 'X' * n, 'LATIN', False)]),
    'custom': lambda n: (bank.custom(lambda _: len(_) == n, types=['LATIN'] * n), [
        ('x' * n, 'LATIN', True), ('x' * n, 'INT', False), ('x' * (n + 1), 'LATIN', False)]),
}


def digit_cases(high):
    for kind in ('gte', 'lte', 'digits gte', 'digits lte'):
        for count in (639, 640, 641, 2000, 4299, 4300, 4301, 5000, 10000, high):
            yield (kind, count)


def run_size(case, counter):
    kind, count = case
    predicate, items = SIZED[kind](count)
    parser = Parser(rule(predicate), tokenizer=TOKENIZER, tagger=Labels())
    for value, type, expected in items:
        if not value:
            continue
        counter.state(case, value)
        counter.step()
        counter.trace()
        if (parser.match([char_token(value, type)]) is not None) != expected:
            raise Mismatch('%s of the size %d of %s %r is %s' % (
                kind, count, type, value[:40], not expected
            ))
        if type == 'RU' and kind in ('dictionary', 'or normalized', 'in_', 'or', 'and'):
            # and with readings
            counter.step()
            token = char_token(value, type).morphed(MORPH(value))
            if (parser.match([token]) is not None) != expected:
                raise Mismatch('%s of the size %d of %s %r with readings is %s' % (
                    kind, count, type, value[:40], not expected
                ))


# ------------------------------------------------ words of every kind

def run_tags(case, counter):
    """Predicates on words with every set of grammemes."""
    for grams in tags.block(case):
        items = {'Слово': [('начало', grams), ('другое', ())]}
        tokenizer = tags.tokenizer({_.lower(): items[_] for _ in items})
        token, = tokenizer('Слово')
        words = set(grams)
        for predicate, expected in [
                (bank.normalized('начало'), True), (bank.normalized('другое'), True),
                (bank.normalized('слово'), True), (bank.normalized('чужое'), False),
                (bank.dictionary({'начало', 'я'}), True), (bank.dictionary({'чужое'}), False),
                (bank.dictionary(['другое']), True),
                (bank.eq('Слово'), True), (bank.eq('начало'), False),
                (bank.caseless('слово'), True), (bank.in_({'Слово'}), True),
                (bank.in_caseless({'СЛОВО'}), True), (bank.type('RU'), True),
                (bank.length_eq(5), True), (bank.is_capitalized(), True), (bank.is_title(), True),
                (bank.is_lower(), False), (bank.is_upper(), False),
                (bank.is_single(), bool({'sing', 'Sgtm'} & words)),
        ] + [
                (bank.gram(_), _ in words)
                for _ in grams + ('NOUN', 'VERB', 'sing', 'plur', 'nomn')
        ]:
            rules = rule(predicate)
            match = Parser(rules, tokenizer=tokenizer).match('Слово')
            counter.state(grams, str(predicate))
            counter.step()
            counter.trace()
            if (match is not None) != expected:
                raise Mismatch('%r of a word of grammemes %s is %s' % (
                    predicate, ','.join(grams), not expected
                ))


class C11(Check):
    def families(self, tier):
        quick = tier == 'quick'
        return [
            Family('basic', basic, run, 'all predicates and parameters of the table, %d tokens' % len(TOKENS)),
            Family('text', basic_text, run_text, 'the same through the tokenizer'),
            Family('depth1', depth1, run, 'and_, or_, not_ over 12 predicates'),
            Family('depth2', depth2(28 if quick else 80, 3 if quick else 5), run,
                   'nested and_, or_, not_'),
            Family('tags', tags.blocks, run_tags,
                   'words of every set of grammemes of the dictionary'),
            Family('chars', lambda: char_cases(0x10000 if quick else 0x110000), run_chars,
                   'every character up to %x, alone and in words' % (0x10000 if quick else 0x110000)),
            Family('digits', lambda: digit_cases(20000 if quick else 200000), run_size,
                   'numbers of up to %d digits' % (20000 if quick else 200000)),
            Family('size', lambda: size_cases(260 if quick else 2100), run_size,
                   'parameters of up to %d words, letters, digits or levels' % (260 if quick else 2100)),
        ]


CHECK = C11(
    'C11',
    rule='state = (predicate, token); transition = one evaluation, alone or '
         'inside a parser; trace = one value compared with the documented '
         'condition',
)
