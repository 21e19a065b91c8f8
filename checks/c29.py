"""C29: everything prints as what it is."""
import collections
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, gram as grammars
from mc.yg import PLAIN, Parser, describe

from yargy import rule, or_, and_, not_, empty
from yargy.interpretation import fact, attribute
from yargy.morph import Form, Grams
from yargy import predicates as bank
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.relations import (
    gnc_relation, gender_relation, number_relation, case_relation, main
)
from yargy.span import Span
from yargy.token import Token
from yargy.tokenizer import TokenRule

from checks import c05, c28

try:
    from IPython.lib.pretty import pretty as ipython
except ImportError:
    ipython = None


# ------------------------------------------------ a printer

class Indent(object):
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class Printer(object):
    """What an interactive shell gives to _repr_pretty_"""

    def __init__(self):
        self.parts = []
        self.stack = []

    def text(self, value):
        if not isinstance(value, str):
            raise TypeError('text expected, got %r' % (value,))
        self.parts.append(value)

    def break_(self):
        self.parts.append('\n')

    def breakable(self, sep=' '):
        self.parts.append(sep)

    def indent(self, _):
        return Indent()

    def group(self, indent=0, open='', close=''):
        printer = self
        printer.text(open)

        class Group(Indent):
            def __exit__(self, *_):
                printer.text(close)
                return False
        return Group()

    def begin_group(self, indent=0, open=''):
        self.text(open)

    def end_group(self, dedent=0, close=''):
        self.text(close)

    def pretty(self, item):
        cycle = id(item) in self.stack
        self.stack.append(id(item))
        try:
            if not isinstance(item, type) and hasattr(item, '_repr_pretty_'):
                item._repr_pretty_(self, cycle)
            elif cycle:
                self.text('...')
            elif type(item) in (list, tuple):
                self.text('[' if type(item) is list else '(')
                for index, value in enumerate(item):
                    if index:
                        self.text(', ')
                    self.pretty(value)
                if type(item) is tuple and len(item) == 1:
                    self.text(',')
                self.text(']' if type(item) is list else ')')
            else:
                self.text(repr(item))
        finally:
            self.stack.pop()


def shown(item):
    printer = Printer()
    printer.pretty(item)
    return ''.join(printer.parts)


def squeeze(text):
    return ''.join(text.split())


def displays(item):
    yield shown(item)
    if ipython:
        yield ipython(item)


# ------------------------------------------------ facts

NAMES = ('F', 'Имя', '_x', 'Match', 'Token')
ATTRIBUTES = ('x', 'y', 'имя', 'fact', 'value', 'name', 'spans', 'tokens', 'rules')
PLAIN_VALUES = (
    None, True, 0, 1.5, '', 'а', 'a\'b"c', 'x, y=2)', '\n\t\\', '...', (), (1,), (1, 'a'), [], ['a', None],
    {}, {'k': [1]}, b'x',
)
FEW_VALUES = (None, 0, 'a\'"', [], ['а', 1], (1,))


def model(item):
    """Text of a description."""
    if isinstance(item, Described):
        return '%s(%s)' % (
            item.name, ', '.join('%s=%s' % (key, model(value)) for key, value in item.parts)
        )
    if type(item) is list:
        return '[%s]' % ', '.join(model(_) for _ in item)
    return repr(item)


class Described(object):
    def __init__(self, name, parts):
        self.name = name
        self.parts = parts


def made(item, classes):
    """Description -> object."""
    if isinstance(item, Described):
        return classes[item.name](**{key: made(value, classes) for key, value in item.parts})
    if type(item) is list:
        return [made(_, classes) for _ in item]
    return item


def fact_cases(deep):
    for name in NAMES:
        for key in ATTRIBUTES:
            yield ('one', name, key)
    for size in range(5 if deep else 4):
        for keys in itertools.permutations(ATTRIBUTES[:size + 1], size):
            yield ('order', keys)
    for depth in range(1, 5 if deep else 4):
        for places in itertools.product(('x', 'y', 'list', 'lists'), repeat=depth):
            yield ('nested', places)
    for form in ('self', 'list', 'pair'):
        yield ('cycle', form)


def run_fact(deep):
    values = PLAIN_VALUES if deep else FEW_VALUES

    def run(case, counter):
        kind = case[0]
        if kind == 'one':
            _, name, key = case
            for value in PLAIN_VALUES:
                for repeatable in (False, True):
                    check_fact(Described(name, [(key, [value, value] if repeatable else value)]),
                               {name: fact(name, [attribute(key).repeatable() if repeatable else key])},
                               counter)
        elif kind == 'order':
            keys = case[1]
            scheme = fact('F', list(keys))
            for chosen in itertools.product(values if len(keys) < 3 else FEW_VALUES[:3], repeat=len(keys)):
                check_fact(Described('F', list(zip(keys, chosen))), {'F': scheme}, counter)
        elif kind == 'nested':
            places = case[1]
            classes = {}
            item = 'а'
            for level, place in reversed(list(enumerate(places))):
                name = 'F%d' % level
                classes[name] = fact(name, ['x', attribute('y', 7)])
                if place in ('x', 'y'):
                    parts = [('x', item if place == 'x' else None), ('y', item if place == 'y' else 7)]
                else:
                    parts = [('x', [item, item] if place == 'lists' else [item]), ('y', 7)]
                item = Described(name, parts)
            check_fact(item, classes, counter)
        else:
            scheme = fact('F', ['x', 'y'])
            item = scheme(x=1)
            item.y = {'self': item, 'list': [item], 'pair': [1, item]}[case[1]]
            expected = 'F(x=1,y=%s)' % {
                'self': 'F(...)', 'list': '[F(...)]', 'pair': '[1,F(...)]'
            }[case[1]]
            for text in displays(item):
                counter.trace()
                if squeeze(text) != expected:
                    raise Mismatch('a fact inside itself is shown as %r' % text)
    return run


def check_fact(description, classes, counter):
    item = made(description, classes)
    same = made(description, classes)
    expected = model(description)
    counter.state(expected)
    for text, name in ((repr(item), 'repr'), (str(item), 'str'), ('%s' % item, '%s'), ('{}'.format(item), 'format')):
        counter.step()
        counter.trace()
        if text != expected:
            raise Mismatch('%s of a fact is %r instead of %r' % (name, text, expected))
    texts = list(displays(item))
    for text in texts:
        counter.step()
        counter.trace()
        if squeeze(text) != squeeze(expected):
            raise Mismatch('%s is displayed as %r' % (expected, text))
        lines = text.splitlines()
        if description.parts and (lines[0] != description.name + '(' or lines[-1].strip() != ')'):
            raise Mismatch('%s is displayed as %r' % (expected, text))
    if item != same:
        raise Mismatch('%r changed when it was shown' % expected)
    for text in [repr(item)] + texts:
        back = eval(text, dict(classes))
        counter.trace()
        if back != same or type(back) is not type(same):
            raise Mismatch('%r reads back as another fact' % text)


# what is printed is what is there now

def change_cases():
    for first in range(len(PLAIN_VALUES)):
        yield (first,)


def run_change(case, counter):
    first, = case
    scheme = fact('F', ['x', attribute('y').repeatable()])
    for value in PLAIN_VALUES:
        for key in ('x', 'y', 'item', 'inner'):
            inner = scheme(x=2)
            item = scheme(x=inner if key == 'inner' else 1, y=[PLAIN_VALUES[first]])
            before = repr(item), list(displays(item)), str(item)
            if key in ('x', 'y'):
                setattr(item, key, value)
            elif key == 'item':
                item.y.append(value)
            else:
                inner.x = value
            described_ = Described('F', [
                ('x', Described('F', [('x', value), ('y', [])]) if key == 'inner' else value if key == 'x' else 1),
                ('y', value if key == 'y' else [PLAIN_VALUES[first]] + ([value] if key == 'item' else []))
            ])
            expected = model(described_)
            counter.state(expected)
            counter.step()
            counter.trace()
            if repr(item) != expected or str(item) != expected:
                raise Mismatch('after %r, %s prints as %r' % (before[0], expected, repr(item)))
            for text in displays(item):
                if squeeze(text) != squeeze(expected):
                    raise Mismatch('after %r, %s is displayed as %r' % (before[0], expected, text))


# long things

def size_cases(limit):
    for size in enum.sizes(limit):
        yield (size,)


def run_size(case, counter):
    size, = case
    scheme = fact('F', ['x', 'y'])
    many = ['x%d' % _ for _ in range(size)]
    deep_ = None
    for _ in range(min(size, 60)):
        deep_ = Described('F', [('x', deep_), ('y', 1)])
    for description, classes in (
            (Described('F', [('x', 'а' * size), ('y', 1)]), {'F': scheme}),
            (Described('F', [('x', list(range(size))), ('y', ['а'] * size)]), {'F': scheme}),
            (Described('F', [(key, 1) for key in many]), {'F': fact('F', many)}),
            (Described('F' * size, [('x' * size, 1)]), {'F' * size: fact('F' * size, ['x' * size])}),
            (deep_, {'F': scheme}),
    ):
        item = made(description, classes)
        expected = model(description)
        counter.state(size, expected[:20])
        counter.step()
        counter.trace()
        if repr(item) != expected:
            raise Mismatch('%s... of size %d prints as %r' % (expected[:20], size, repr(item)[:2000]))
        if squeeze(shown(item)) != squeeze(expected):
            raise Mismatch('%s... of size %d is displayed as %r' % (expected[:20], size, shown(item)[:2000]))
    # rules, grammars, charts
    words = ['w%d' % _ for _ in range(size)]
    for item, whole in ((rule(*words), True), (or_(*(rule(_, 'x') for _ in words)), True),
                        (pipeline(words), False), (bank.in_(words), False)):
        text = repr(item)
        in_order([repr(_) for _ in words], text, 'size %d' % size)
        if squeeze(shown(item)) != squeeze(text):
            raise Mismatch('size %d: %r is displayed as %r' % (size, text[:1000], shown(item)[:1000]))
        if whole:
            bnf = item.normalized.as_bnf
            in_order([repr(_) for _ in words], ' '.join(bnf.source), 'size %d' % size)
            lines = list(bnf.source)
            if shown(bnf).rstrip('\n').split('\n') != lines:
                raise Mismatch('size %d: grammar is displayed as %r' % (size, shown(bnf)[:1000]))
    parser = Parser(rule(bank.eq('а')).repeatable(), tokenizer=PLAIN)
    match = parser.match('а ' * min(size, 200))
    check_match(match, counter)


# facts of matches

F = fact('F', ['x', attribute('y', 1), attribute('z').repeatable(), attribute('n')])
G = fact('G', ['x'])
PARTS = (
    lambda: bank.eq('а').interpretation(F.x),
    lambda: bank.eq('а').interpretation(F.y.custom(str.upper)),
    lambda: bank.eq('а').interpretation(F.z),
    lambda: bank.eq('а').interpretation(F.x.const(3)),
    lambda: bank.eq('а').interpretation(F.x.normalized()),
    lambda: rule(bank.eq('а').interpretation(G.x)).interpretation(G).interpretation(F.n),
    lambda: rule(bank.eq('а').interpretation(G.x.const(None))).interpretation(G).interpretation(F.z),
    lambda: bank.eq('а'),
)


def found_cases(high):
    for size in range(1, high + 1):
        for chosen in itertools.product(range(len(PARTS)), repeat=size):
            yield chosen


def run_found(case, counter):
    parser = Parser(rule(*(PARTS[_]() for _ in case)).interpretation(F), tokenizer=c28.STUB)
    text = ' '.join('а' for _ in case)
    match = parser.match(text)
    if match is None:
        raise Mismatch('no match of %r' % (case,))
    one, other = match.fact, match.fact
    before = describe(match)
    expected = model(described(one))
    counter.state(case)
    counter.step()
    for item in (one, other):
        counter.trace()
        if repr(item) != expected:
            raise Mismatch('%s prints as %r' % (expected, repr(item)))
        for text in displays(item):
            if squeeze(text) != squeeze(expected):
                raise Mismatch('%s is displayed as %r' % (expected, text))
            if eval(text, {'F': F, 'G': G}) != other:
                raise Mismatch('%r reads back as another fact' % text)
    if match.fact != one or describe(match) != before:
        raise Mismatch('printing a fact changed its match')
    check_match(match, counter)


def described(value):
    """By the values it has now."""
    for scheme in (F, G):
        if type(value) is scheme:
            keys = ('x', 'y', 'z', 'n') if scheme is F else ('x',)
            return Described(scheme.__name__, [(key, described(getattr(value, key))) for key in keys])
    if type(value) is list:
        return [described(_) for _ in value]
    return value


# ------------------------------------------------ tokens, spans, readings, matches

STRINGS = ('а', '', "'", '"', 'a\nb', '\\', 'x, y', ')', '1')
OFFSETS = ((0, 0), (0, 1), (9, 10), (10 ** 9, 10 ** 9 + 1))


def show_span(span):
    return '[%d, %d)' % span


def show_form(form):
    normalized, values = form
    return 'Form(%r, Grams(%s))' % (normalized, ','.join(sorted(values)))


FORMS = (
    (), (('а', ('B', 'A', 'C')),), (('', ()), ("'", ('x',))), (('а', ('A',)), ('а', ('A',))),
)


def token_cases():
    for value in STRINGS:
        for span in OFFSETS:
            yield (value, span)


def run_token(case, counter):
    value, span = case
    for type_ in STRINGS[:5]:
        plain = Token(value, Span(*span), type_)
        start = 'value=%r, span=%s, type=%r' % (value, show_span(span), type_)
        expect(plain, 'Token(%s)' % start, counter)
        for tag in (None, 'x', "'"):
            tagged = plain.tagged(tag)
            expect(tagged, 'TagToken(%s, tag=%r)' % (start, tag), counter)
            for forms in FORMS:
                morphed = plain.morphed([Form(_, Grams(set(values))) for _, values in forms])
                forms = '[%s]' % ', '.join(show_form(_) for _ in forms)
                expect(morphed, 'MorphToken(%s, forms=%s)' % (start, forms), counter)
                expect(morphed.tagged(tag), 'MorphTagToken(%s, tag=%r, forms=%s)' % (start, tag, forms), counter)
    expect(Span(*span), show_span(span), counter)
    for values in ((), ('A',), ('B', 'A'), ('C', 'B', 'A', 'D')):
        for container in (set, frozenset):
            grams = Grams(container(values))
            expect(grams, 'Grams(%s)' % ','.join(sorted(values)), counter)
            expect(Form(value, grams), 'Form(%r, Grams(%s))' % (value, ','.join(sorted(values))), counter)
    for type_ in STRINGS:
        if type_ and value:
            expect_shown(TokenRule(type_, 'a'), 'TokenRule(type=%r, pattern=%r)' % (type_, 'a'), counter)


def expect(item, expected, counter):
    counter.state(expected)
    counter.step()
    counter.trace()
    if repr(item) != expected or str(item) != expected:
        raise Mismatch('%s prints as %r' % (expected, repr(item)))
    expect_shown(item, expected, counter)


def expect_shown(item, expected, counter):
    for text in displays(item):
        counter.trace()
        if squeeze(text) != squeeze(expected):
            raise Mismatch('%s is displayed as %r' % (expected, text))


def show_token(token):
    kind = type(token).__name__
    text = '%s(value=%r, span=[%d, %d), type=%r' % (
        kind, token.value, token.span.start, token.span.stop, token.type
    )
    if 'Tag' in kind:
        text += ', tag=%r' % (token.tag,)
    if 'Morph' in kind:
        text += ', forms=[%s]' % ', '.join(
            show_form((_.normalized, _.grams.values)) for _ in token.forms
        )
    return text + ')'


def check_match(match, counter):
    start, stop = match.span
    expect(match, 'Match(tokens=[%s], span=[%d, %d))' % (
        ', '.join(show_token(_) for _ in match.tokens), start, stop
    ), counter)


# ------------------------------------------------ rules

def in_order(parts, text, what):
    """Every part stands in the text, one after another."""
    place = 0
    for part in parts:
        index = text.find(part, place)
        if index < 0:
            raise Mismatch('%s: %s is not shown, or not in its place, in %r' % (what, part, text[:2000]))
        place = index + len(part)


def terminals(ast):
    if ast[0] == 't':
        yield ast[2]
    elif ast[0] in ('seq', 'or'):
        for item in ast[1]:
            for _ in terminals(item):
                yield _
    elif ast[0] in ('opt', 'rep', 'named'):
        for _ in terminals(ast[1]):
            yield _


TEXTS = tuple(enum.words('ab', 0, 2))


def rule_cases(low, high):
    for ast in enum.canonical_asts(low, high):
        yield (ast, ())


def looped_cases(alternatives):
    for grammar in enum.cfgs(1, 2, alternatives):
        yield grammar
    for grammar in enum.cfgs(2, 2, 1):
        if enum.reachable(grammar):
            yield grammar


def run_rule(case, counter):
    """Never fails, changes nothing, shows all the terminals of a rule in order."""
    numbered = grammars.number_grammar(case)
    item = grammars.build(numbered)
    text = repr(item)
    counter.state(case)
    shared = bool(numbered[1])
    if not shared:
        in_order(['uid=%d,' % _ for _ in terminals(numbered[0])], text, 'rule')
    for other in displays(item):
        counter.trace()
        # what a forward stands for is not repeated in its repr
        if not other or (not shared and squeeze(other) != squeeze(text)):
            raise Mismatch('%r is displayed as %r' % (text, other))
    if repr(item) != text or str(item) != text:
        raise Mismatch('rule prints differently the second time: %r, %r' % (text, repr(item)))
    if not shared and repr(grammars.build(numbered)) != text:
        raise Mismatch('the same rule prints differently: %r' % text)
    normalized = item.normalized
    repr(normalized), shown(normalized)
    bnf = normalized.as_bnf
    check_bnf(bnf, counter)
    parser = Parser(item, tokenizer=PLAIN)
    for thing in (parser.rule, bnf, bnf.start):
        counter.step()
        if repr(thing) != repr(thing):
            raise Mismatch('%r prints differently the second time' % thing)
        if str(thing) == '':
            raise Mismatch('printed as nothing')
        shown(thing)
    for letters in TEXTS:
        text_ = ' '.join(letters)
        fresh = Parser(grammars.build(numbered), tokenizer=PLAIN)
        match, same = parser.match(text_), fresh.match(text_)
        counter.trace()
        if describe(match) != describe(same):
            raise Mismatch('%r: %r after printing instead of %r' % (text_, match, same))
        if match:
            check_tree(match, counter)
        chart = parser.chart(text_)
        repr(chart), str(chart)
        for column in chart.columns:
            repr(column), str(column), shown(column)
            for state in column:
                repr(state), str(state)
        check_lines(chart, list(chart.source), counter)
    if repr(item) != text:
        raise Mismatch('rule prints differently after parsing: %r, %r' % (text, repr(item)))


def check_bnf(bnf, counter):
    lines = list(bnf.source)
    check_lines(bnf, lines, counter)
    if len(lines) != len(bnf.rules) or any(str(one) != line for one, line in zip(bnf.rules, lines)):
        raise Mismatch('%r are the lines of %r' % (lines, [str(_) for _ in bnf.rules]))


def check_lines(item, lines, counter):
    for text in displays(item):
        counter.trace()
        if text.rstrip('\n').split('\n') != '\n'.join(lines).rstrip('\n').split('\n'):
            raise Mismatch('%r is displayed as %r' % (lines, text))


def check_tree(match, counter):
    text = repr(match.tree)
    shown(match.tree)
    in_order([repr(_) for _ in match.tokens], text, 'tree')
    for item in (match.tree.normalized, match.tree.root, match.rule, match.tree.as_dot):
        counter.step()
        repr(item), str(item)
        for other in displays(item):
            if not squeeze(other):
                raise Mismatch('displayed as nothing: %r' % item)
    check_match(match, counter)


# different rules

def group_cases(low, high):
    for size in range(low, high + 1):
        yield size


def run_group(case, counter):
    """Rules that print alike are the same."""
    groups = collections.defaultdict(list)
    for ast in enum.asts(case):
        numbered = grammars.number_grammar((ast, ()))
        item = grammars.build(numbered)
        counter.state(ast)
        counter.step()
        groups[repr(item)].append((numbered, item))
        if repr(item) != repr(item):
            raise Mismatch('prints differently the second time')
    for text, items in groups.items():
        counter.trace()
        first, one = items[0]
        for numbered, other in items[1:]:
            counter.trace()
            if canonical(numbered[0]) != canonical(first[0]):
                raise Mismatch('%s and %s both print as %r' % (
                    grammars.show(first[0]), grammars.show(numbered[0]), text
                ))


def canonical(ast):
    kind = ast[0]
    if kind in ('seq', 'or'):
        return (kind, tuple(canonical(_) for _ in ast[1]))
    if kind in ('opt', 'rep', 'named'):
        return (kind, canonical(ast[1])) + tuple(ast[2:])
    return ast


# ------------------------------------------------ predicates, relations, attributes

def upper(value):
    return value.upper()


PREDICATES = collections.OrderedDict((
    ('eq', (('а',), ('б',), ("'",), ('',))),
    ('caseless', (('а',), ('б',))),
    ('in_', ((('а',),), (('а', 'б'),), ('аб',))),
    ('in_caseless', ((('а',),), (('а', 'б'),))),
    ('gte', ((1,), (2,), (10 ** 20,))),
    ('lte', ((1,), (2,), (-1,))),
    ('length_eq', ((1,), (2,))),
    ('normalized', (('а',), ('б',))),
    ('dictionary', ((('а',),), (('а', 'б'),))),
    ('gram', (('NOUN',), ('VERB',))),
    ('type', (('RU',), ('INT',))),
    ('tag', (('x',), ('y',))),
    ('custom', ((upper,), (str.lower,), (upper, ('RU',)), (upper, 'INT'))),
    ('true', ((),)),
    ('is_lower', ((),)),
    ('is_upper', ((),)),
    ('is_title', ((),)),
    ('is_capitalized', ((),)),
    ('is_single', ((),)),
))
BASIC = [(name, args) for name, many in PREDICATES.items() for args in many]
def make_basic(item):
    name, args = item
    return getattr(bank, name)(*args)


def compose(items, operators, depth):
    """Compositions: ('and', (...)), ('or', (...)), ('not', (x,)) over items."""
    level = [('item', _) for _ in items]
    for _ in range(depth):
        more = [('not', (_,)) for _ in level]
        for operator in operators:
            more.extend((operator, (one,)) for one in level)
            more.extend((operator, pair) for pair in itertools.product(level, repeat=2))
        level = level + more
    seen = set()
    for item in level:
        if item not in seen:
            seen.add(item)
            yield item


def build(item, basic):
    if item[0] == 'item':
        return basic(item[1])
    parts = [build(_, basic) for _ in item[1]]
    if item[0] == 'not':
        return not_(*parts)
    return (and_ if item[0] == 'and' else or_)(*parts)


def parts_of(item):
    if item[0] == 'item':
        yield item[1]
    else:
        for part in item[1]:
            for _ in parts_of(part):
                yield _


RELATION = {
    'gender': gender_relation, 'number': number_relation, 'case': case_relation, 'gnc': gnc_relation
}


def predicate_cases(deep):
    yield 'predicates', 0
    yield 'predicates', 1
    yield 'relations', 0
    yield 'relations', 1
    if deep:
        yield 'relations', 2
    yield 'attributes', 0
    for depth in range(1, 4 if deep else 3):
        yield 'constructs', depth


def run_predicates(case, counter):
    kind, depth = case
    if kind == 'predicates':
        descriptions = list(compose(BASIC if depth < 2 else BASIC[:3], ('and', 'or'), depth))
        builder = make_basic
    elif kind == 'relations':
        descriptions = list(compose(sorted(RELATION)[:4 if depth < 2 else 2], ('and', 'or'), depth))

        def builder(name):
            return RELATION[name]()
    elif kind == 'constructs':
        descriptions = list(itertools.product(sorted(CONSTRUCTS), repeat=depth))

        def builder(name):
            return None
    else:
        descriptions = list(ATTRIBUTE_MARKS)

        def builder(name):
            return None
    texts = {}
    for description in descriptions:
        if kind == 'attributes':
            item, same = attribute_of(description), attribute_of(description)
        elif kind == 'constructs':
            item, same = construct(description), construct(description)
            in_order([SHOWN[_] for _ in reversed(description) if _ in SHOWN][:1], repr(item), 'rule')
        else:
            item, same = build(description, builder), build(description, builder)
        text = repr(item)
        counter.state(case, str(description))
        counter.step()
        counter.trace()
        if text != repr(same) or str(item) != text:
            raise Mismatch('%r and %r are the same' % (text, repr(same)))
        if text in texts:
            raise Mismatch('%r and %r both print as %r' % (texts[text], description, text))
        texts[text] = description
        for other in displays(item):
            if not other or item != same:
                raise Mismatch('%r changed when it was shown' % text)
        if shown(item).count('<') == 0 and squeeze(shown(item)) != squeeze(text):
            raise Mismatch('%r is displayed as %r' % (text, shown(item)))
        if kind == 'predicates':
            in_order([name + '(' for name, _ in parts_of(description)], text, 'predicate')
            label = item.label
            if label != same.label or not isinstance(label, str) or not label:
                raise Mismatch('label of %r is %r' % (text, label))
            in_order([make_basic(part).label for part in parts_of(description)], label, 'label of predicate')
        elif kind == 'relations':
            in_order([name + '_relation(' for name in parts_of(description)], text, 'relation')
            if item.label != same.label or not item.label:
                raise Mismatch('label of %r is %r' % (text, item.label))
            in_order([RELATION[name]().label for name in parts_of(description)], item.label, 'label of relation')
        # through a rule
        whole = rule(item)
        if kind == 'predicates':
            whole = rule(item)
        elif kind == 'relations':
            whole = rule('а').match(item)
        elif kind == 'attributes':
            whole = rule('а').interpretation(item)
        if text not in repr(whole) and kind != 'attributes':
            raise Mismatch('%r is not shown in %r' % (text, repr(whole)))
        repr(whole.normalized), shown(whole), check_bnf(whole.normalized.as_bnf, counter)


CONSTRUCTS = {
    'rule': lambda _: rule(_), 'pair': lambda _: rule(_, _), 'main': lambda _: rule('х', main(_)),
    'not main': lambda _: rule('х', _), 'or': lambda _: or_(_, _), 'optional': lambda _: _.optional(),
    'optional reverse': lambda _: _.optional(reverse=True), 'repeatable': lambda _: _.repeatable(),
    'repeatable reverse': lambda _: _.repeatable(reverse=True), 'min': lambda _: _.repeatable(min=2),
    'max': lambda _: _.repeatable(max=2), 'min max': lambda _: _.repeatable(min=2, max=3),
    'min min': lambda _: _.repeatable(min=3), 'exactly': lambda _: _.repeatable(min=2, max=2),
    'max reverse': lambda _: _.repeatable(max=2, reverse=True), 'name': lambda _: _.named('N'),
    'other name': lambda _: _.named('M'), 'gnc': lambda _: _.match(gnc_relation()),
    'gender': lambda _: _.match(gender_relation()), 'x': lambda _: _.interpretation(F.x),
    'z': lambda _: _.interpretation(F.z), 'G.x': lambda _: _.interpretation(G.x), 'fact': lambda _: _.interpretation(F),
    'other fact': lambda _: _.interpretation(G), 'custom': lambda _: _.interpretation(F.x.custom(upper)),
    'with lines': lambda _: rule(_, pipeline(['а', 'б'])), 'with less lines': lambda _: rule(_, pipeline(['а'])),
    'with morph lines': lambda _: rule(_, morph_pipeline(['а'])), 'empty': lambda _: rule(_, empty()),
    'with caseless lines': lambda _: rule(_, caseless_pipeline(['а'])),
}
# of the outermost construct
SHOWN = {
    'name': "'N'", 'other name': "'M'", 'gnc': 'gnc_relation()', 'gender': 'gender_relation()',
    'x': "name='x'", 'z': "name='z'", 'G.x': "name='x'", 'fact': 'F', 'other fact': 'G',
    'with lines': "['а', 'б']", 'with less lines': "['а']", 'with morph lines': "['а']",
}


def construct(names):
    item = rule('а', 'б')
    for name in names:
        item = CONSTRUCTS[name](item)
    return item


ATTRIBUTE_MARKS = (('z', ''),) + tuple(itertools.product(
    ('x', 'y', 'n'),
    ('', 'normalized', 'inflected', 'inflected plur', 'const', 'const 2', 'custom', 'custom 2',
     'normalized custom', 'inflected custom', 'custom custom')
))


def attribute_of(description):
    key, how = description
    item = getattr(F, key)
    return {
        '': lambda: item,
        'normalized': lambda: item.normalized(),
        'inflected': lambda: item.inflected(),
        'inflected plur': lambda: item.inflected({'plur'}),
        'const': lambda: item.const(1),
        'const 2': lambda: item.const('1'),
        'custom': lambda: item.custom(upper),
        'custom 2': lambda: item.custom(int),
        'normalized custom': lambda: item.normalized().custom(upper),
        'inflected custom': lambda: item.inflected().custom(upper),
        'custom custom': lambda: item.custom(upper).custom(int),
    }[how]()


# ------------------------------------------------ the recipes

def recipe_cases():
    for name in sorted(c05.RECIPES):
        for index in range(3):
            yield (name, index)


def run_recipe(case, counter):
    name, index = case

    def fresh():
        return c05.RECIPES[name]()[index]

    item = fresh()
    counter.state(case)
    text = repr(item)
    quiet = Parser(fresh(), tokenizer=c28.STUB, tagger=c05.Labels())
    for other in displays(item):
        counter.trace()
        if not other:
            raise Mismatch('displayed as nothing')
    check_bnf(item.normalized.as_bnf, counter)
    graph = item.as_dot
    if repr(graph) != shown(graph) or '\n' in repr(graph):
        raise Mismatch('drawing prints as %r' % graph)
    loud = Parser(item, tokenizer=c28.STUB, tagger=c05.Labels())
    repr(loud), repr(loud.rule), shown(loud.rule), repr(loud.tokenizer), repr(loud.tagger)
    for line in c05.TEXTS:
        one, two = quiet.match(line), loud.match(line)
        counter.step()
        counter.trace()
        if describe(one) != describe(two):
            raise Mismatch('%r: %r after printing instead of %r' % (line, two, one))
        if two:
            check_tree(two, counter)
            value, again = c05.read(lambda: one.fact), c05.read(lambda: two.fact)
            repr(value), shown(again)
            chart = loud.chart(line)
            repr(chart)
            check_lines(chart, list(chart.source), counter)
    if repr(item) != text:
        raise Mismatch('%r prints as %r after parsing' % (text, repr(item)))


class C29(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('facts', lambda: fact_cases(deep), run_fact(deep),
                   'facts with all values, orders of attributes and nestings'),
            Family('found', lambda: found_cases(4 if deep else 3), run_found,
                   'facts of all sequences of <= %d of %d parts' % (4 if deep else 3, len(PARTS))),
            Family('changes', change_cases, run_change, 'facts changed after they were printed, all pairs of values'),
            Family('size', lambda: size_cases(3000 if deep else 300), run_size, 'up to %d parts' % (3000 if deep else 300)),
            Family('values', token_cases, run_token, 'tokens, spans, readings of all kinds'),
            Family('rules', lambda: rule_cases(1, 5 if deep else 4), run_rule,
                   'all rules of <= %d nodes' % (5 if deep else 4)),
            Family('looped', lambda: looped_cases(3 if deep else 2), run_rule,
                   'recursive rules of <= %d alternatives' % (3 if deep else 2)),
            Family('different', lambda: group_cases(1, 5 if deep else 4), run_group,
                   'all pairs of rules of the same size <= %d' % (5 if deep else 4)),
            Family('predicates', lambda: predicate_cases(deep), run_predicates,
                   'all pairs of predicates, relations and attributes, and of their compositions',
                   cpu_limit=400),
            Family('recipes', recipe_cases, run_recipe, 'recipes and texts of C05'),
        ]


CHECK = C29(
    'C29',
    rule='state = a thing that is printed; transition = one printing; '
         'trace = one text compared with the model, read back, or the thing compared after it was printed'
)
