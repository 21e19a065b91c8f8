"""C31: parts written by the user work as the built-in ones."""
import copy
import functools
import itertools
import re

from mc.core import Check, Family, Mismatch
from mc import enum, stub
from mc.yg import PLAIN, Parser, describe

from yargy import rule, or_, and_, not_, forward
from yargy.interpretation import fact, attribute, normalized, custom as custom_normalizer
from yargy.interpretation.normalizer import Normalizer
from yargy.morph import MorphAnalyzer, Form, Grams
from yargy.pipelines import morph_pipeline, pipeline
from yargy.predicates import (
    eq, in_, caseless, gram, normalized as normal, dictionary, type as type_,
    tag, true, is_capitalized, is_single, custom, Predicate
)
from yargy.predicates.constructors import PredicateScheme
from yargy.relations import Relation, main, number_relation, gender_relation
from yargy.tagger import Tagger, TaggersComposition
from yargy.token import Token, MorphToken
from yargy.tokenizer import Tokenizer, MorphTokenizer

from checks import c05

READINGS = {
    'а': [('х', ('r0', 'NOUN', 'sing', 'masc', 'nomn')), ('у', ('r1', 'VERB', 'plur'))],
    'б': [('х', ('r0', 'VERB', 'sing', 'femn')), ('х', ('r1', 'NOUN', 'plur', 'nomn'))],
    'в': [('я', ('r1', 'NOUN', 'sing', 'masc', 'gent'))],
}
WORDS = ('а', 'б', 'в', '!')


# ------------------------------------------------------------ styles

class Loud(Exception):
    pass


def loud(*_):
    raise Loud('compared')


MANNERS = {
    'usual': {},
    # no truth of its own
    'empty': {'__len__': lambda self: 0},
    'false': {'__bool__': lambda self: False},
    # may not be compared, may not be put in a set
    'unhashable': {'__hash__': None},
    'loud': {'__eq__': loud, '__ne__': loud, '__hash__': loud},
    # equal to everything, to nothing
    'everything': {
        '__eq__': lambda self, other: True, '__ne__': lambda self, other: False,
        '__hash__': lambda self: 1
    },
    'nothing': {
        '__eq__': lambda self, other: False, '__ne__': lambda self, other: True,
        '__hash__': lambda self: id(self)
    },
}
TRUE = (1, 'да', [0], -1)
FALSE = (0, '', [], None)


def made(base, manner, **namespace):
    namespace.update(MANNERS[manner])
    return type(base.__name__, (base,), namespace)


# same decision, the label of the original
def wrapped_predicate(item, manner, answer):
    def activate(self, context):
        return wrapped_predicate(item.activate(context), manner, answer)

    def constrain(self, token):
        return item.constrain(token)

    return made(
        Predicate, manner,
        __call__=lambda self, token: answer(item(token)),
        activate=activate,
        constrain=constrain,
        label=property(lambda self: item.label)
    )()


def scheme_predicate(item, manner, answer):
    return made(
        PredicateScheme, manner,
        activate=lambda self, context: wrapped_predicate(item.activate(context), manner, answer),
        label=property(lambda self: item.label)
    )()


def subclass_predicate(item, manner, answer):
    base = type(item)

    def call(self, token):
        return answer(base.__call__(self, token))

    result = object.__new__(made(base, manner, __call__=call))
    result.__dict__.update(item.__dict__)
    return result


def wrapped_relation(item, manner, answer):
    return made(
        Relation, manner,
        __call__=lambda self, form, other: answer(item(form, other)),
        label=property(lambda self: item.label)
    )()


def subclass_relation(item, manner, answer):
    base = type(item)
    return made(
        base, manner,
        __call__=lambda self, form, other: answer(base.__call__(self, form, other))
    )()


class Answers(object):
    """Truth told in other words, each time in the next ones."""

    def __init__(self):
        self.asked = 0

    def __call__(self, value):
        self.asked += 1
        return (TRUE if value else FALSE)[self.asked % 4]


def same(value):
    return value


class Iterator(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)


class OwnToken(Token):
    pass


class OwnMorphToken(MorphToken):
    pass


def own_tokens(items):
    for item in items:
        if isinstance(item, MorphToken):
            yield OwnMorphToken(item.value, item.span, item.type, item.forms)
        else:
            yield OwnToken(item.value, item.span, item.type)


SHAPES = {
    # tokens of classes of the user
    'tokens': lambda items: own_tokens(items),
    'generator': lambda items: (_ for _ in items),
    'list': list,
    'tuple': lambda items: tuple(items),
    'iterator': lambda items: Iterator(iter(items)),
    # looks at the whole text before the first token is given
    'late': lambda items: iter(list(items)),
}


def own_tokenizer(item, manner, shape):
    base = type(item)

    def call(self, text):
        return SHAPES[shape](base.__call__(self, text))

    result = object.__new__(made(base, manner, __call__=call))
    result.__dict__.update(item.__dict__)
    return result


def far_tokenizer(item, manner, shape):
    """Has nothing of the original one but its answers."""
    return made(
        Tokenizer, manner,
        __init__=lambda self: None,
        __call__=lambda self, text: SHAPES[shape](item(text)),
        split=lambda self, text: item.split(text),
        check_type=lambda self, type: item.check_type(type),
        morph=property(lambda self: item.morph)
    )()


def own_tagger(item, manner, shape):
    return made(
        Tagger, manner,
        __call__=lambda self, tokens: SHAPES[shape](item(tokens)),
        check_tag=lambda self, tag: item.check_tag(tag)
    )()


class OwnForm(Form):
    pass


class OwnGrams(Grams):
    pass


def own_morph(item, manner, kind):
    """kind: what the readings are."""
    def call(self, word):
        forms = item(word)
        if kind == 'own':
            return [OwnForm(_.normalized, OwnGrams(_.grams.values), raw=_.raw) for _ in forms]
        if kind == 'tuple':
            return tuple(forms)
        if kind == 'lists':
            # grammemes in a list
            return [Form(_.normalized, Grams(sorted(_.grams.values)), raw=_.raw) for _ in forms]
        return forms

    return made(
        MorphAnalyzer, manner,
        __init__=lambda self: None,
        __call__=call,
        check_gram=lambda self, gram: item.check_gram(gram),
    )()


class Called(object):
    def __init__(self, function):
        self.function = function

    def __call__(self, value):
        return self.function(value)


def own_function(function, manner):
    result = made(Called, manner)(function)
    result.__name__ = function.__name__
    return result


class NormalForms(Normalizer):
    """normalized() once more"""
    label = 'normalized()'

    def __call__(self, item):
        return normalized()(item)


def own_normalizer(manner):
    return made(NormalForms, manner)()


# ------------------------------------------------------------ worlds

class World(object):
    """Makes parts. Every part of the kinds `own` is made in the given style."""

    def __init__(self, own=(), style='wrapper', manner='usual', told='bool', shape='generator', kind='usual'):
        self.own = own
        self.style = style
        self.manner = manner
        self.told = told
        self.shape = shape
        self.kind = kind

    def answer(self):
        return Answers() if self.told == 'words' else same

    def predicate(self, item):
        if 'predicate' not in self.own:
            return item
        make = {
            'wrapper': wrapped_predicate, 'scheme': scheme_predicate,
            'subclass': wrapped_predicate if isinstance(item, PredicateScheme) else subclass_predicate
        }[self.style]
        return make(item, self.manner, self.answer())

    def relation(self, item):
        if 'relation' not in self.own:
            return item
        make = subclass_relation if self.style == 'subclass' else wrapped_relation
        return make(item, self.manner, self.answer())

    def function(self, item):
        if 'function' not in self.own:
            return item
        return own_function(item, self.manner)

    def normal_forms(self):
        if 'function' not in self.own:
            return normalized()
        return own_normalizer(self.manner)

    def tokenizer(self):
        morph = stub.analyzer(READINGS)
        if 'morph' in self.own:
            morph = own_morph(morph, self.manner, self.kind)
        tokenizer = MorphTokenizer(morph=morph)
        if 'tokenizer' in self.own:
            make = own_tokenizer if self.style == 'subclass' else far_tokenizer
            tokenizer = make(tokenizer, self.manner, self.shape)
        return tokenizer

    def tagger(self):
        tagger = c05.Labels()
        if 'tagger' in self.own:
            tagger = own_tagger(tagger, self.manner, self.shape)
            if self.style == 'scheme':
                tagger = TaggersComposition([tagger])
        return tagger


def not_b(value):
    return value != 'б'


def mark(value):
    return value + '+'


def twice(value):
    return [value, value]


# ------------------------------------------------------------ rules

def words(w):
    p, q = w.predicate(eq('а')), w.predicate(in_({'а', 'б'}))
    return rule(p, q.optional(), w.predicate(true()))


def choices(w):
    p, q = w.predicate(caseless('А')), w.predicate(normal('х'))
    return or_(rule(p, p), rule(q, p), rule(q).repeatable(reverse=True))


def combined(w):
    p, q = w.predicate(gram('NOUN')), w.predicate(custom(w.function(not_b), types='RU'))
    return rule(and_(p, q), or_(p, w.predicate(eq('!')), w.predicate(in_({'б'}))), not_(q).optional())


def narrowed(w):
    F = fact('F', ['a', 'b'])
    p, q = w.predicate(gram('NOUN')), w.predicate(gram('VERB'))
    return rule(
        p.interpretation(F.a.normalized()), q.optional().interpretation(F.b.normalized())
    ).interpretation(F)


def typed(w):
    p, q = w.predicate(type_('RU')), w.predicate(tag('T'))
    return rule(or_(p, q), q.optional(), p.repeatable(max=2))


def agreed(w):
    r = w.relation(number_relation())
    p = w.predicate(gram('r1'))
    return rule(w.predicate(type_('RU')).match(r), or_(rule(p), rule('б', main(p))).match(r))


def doubly(w):
    r, s = w.relation(number_relation()), w.relation(gender_relation())
    p = w.predicate(true())
    both, other, any = and_(r, s), not_(s), or_(r, not_(s))
    return or_(
        rule(p.match(both), p.match(both), 'в'),
        rule(p.match(other), p.match(other)),
        rule(p.match(any), p.match(any), p.match(other).optional())
    )


def twofold(w):
    r, s = w.relation(number_relation()), w.relation(number_relation())
    p = w.predicate(type_('RU'))
    F = fact('F', ['a', 'b'])
    n = w.normal_forms()
    return rule(
        p.match(r).interpretation(n).interpretation(F.a),
        p.match(s).interpretation(F.b.normalized()),
        p.match(r).optional(), rule(p).match(s).optional()
    ).interpretation(F)


def valued(w):
    F = fact('F', ['a', attribute('b', 0), attribute('c').repeatable()])
    p = w.predicate(in_({'а', 'в'}))
    return or_(
        rule(p.interpretation(F.a.custom(w.function(mark)).custom(w.function(twice))), 'б'),
        rule(p.interpretation(F.b.normalized().custom(w.function(mark)))),
        rule(rule(p, p).interpretation(custom_normalizer(w.function(mark))).interpretation(F.c)).repeatable(),
    ).interpretation(F)


def lined(w):
    F = fact('F', ['a'])
    part = morph_pipeline(['а б', 'х', 'в'])
    return rule(
        part.interpretation(w.normal_forms()).interpretation(F.a), w.predicate(true()).optional()
    ).interpretation(F)


def recursed(w):
    item = forward()
    p, q = w.predicate(eq('а')), w.predicate(dictionary({'х', 'я'}))
    item.define(or_(rule(p, item), rule(item, q), rule(q).named('Q')))
    return item


def singles(w):
    p = w.predicate(is_single())
    return rule(p, or_(p, not_(p)).repeatable(min=1, max=2))


RULES = {
    _.__name__: _ for _ in (
        words, choices, combined, narrowed, typed, agreed, doubly, twofold,
        valued, lined, recursed, singles
    )
}


def shape(tree):
    return tuple((_.label, len(_.children)) for _ in tree.walk())


def plain_name(line):
    # functions print with their address
    return re.sub(r'<[^>]* at 0x[0-9a-f]+>', '<...>', line)


def seen(item):
    return c05.read(lambda: tuple(
        tuple(plain_name(_) for _ in source) for source in (
            item.normalized.as_bnf.source, item.as_dot.source, item.normalized.as_dot.source
        )
    ))


def told(match):
    """Description of the match, tokens are not told by the names of their classes."""
    if match is None:
        return None
    span, tokens = describe(match)
    return span, tuple((_[0].replace('Own', ''),) + _[1:] for _ in tokens)


def answers(parser, text):
    result = []
    for method in ('match', 'find', 'findall', 'extract'):
        value = c05.read(lambda: getattr(parser, method)(text))
        if isinstance(value, tuple) or value is None:
            result.append((method, value))
            continue
        items = [value] if method in ('match', 'find') else c05.read(lambda: list(value))
        if isinstance(items, tuple):
            result.append((method, items))
            continue
        for match in items:
            result.append((method, told(match), shape(match.tree), c05.read(lambda: c05.fact_of(match))))
    return result


def behaviour(name, world, size):
    item = RULES[name](world)
    tokenizer, tagger = world.tokenizer(), world.tagger()
    looks = seen(item)
    parser = Parser(item, tokenizer=tokenizer, tagger=tagger)
    result = [('looks', looks)]
    for count in range(size + 1):
        for letters in itertools.product(WORDS, repeat=count):
            text = ' '.join(letters)
            result.append((text, answers(parser, text)))
    return result


@functools.lru_cache(None)
def expected(name, size):
    return behaviour(name, World(), size)


KINDS = ('predicate', 'relation', 'tokenizer', 'tagger', 'morph', 'function')
SLOTS = {
    'words': ('predicate',), 'choices': ('predicate',), 'combined': ('predicate', 'function'),
    'narrowed': ('predicate',), 'typed': ('predicate',), 'agreed': ('predicate', 'relation'),
    'doubly': ('predicate', 'relation'), 'twofold': ('predicate', 'relation', 'function'),
    'valued': ('predicate', 'function'), 'lined': ('predicate', 'function'),
    'recursed': ('predicate',), 'singles': ('predicate',),
}


def twin_cases(size):
    for name in sorted(RULES):
        slots = SLOTS[name] + ('tokenizer', 'tagger', 'morph')
        # all the sets of kinds, written in the plainest way
        for count in range(1, len(slots) + 1):
            for own in itertools.combinations(slots, count):
                yield (name, own, 'wrapper', 'usual', 'bool', 'generator', 'usual', size)
        for kind in slots:
            styles = {
                'predicate': ('wrapper', 'scheme', 'subclass'), 'relation': ('wrapper', 'subclass'),
                'tokenizer': ('wrapper', 'subclass'), 'tagger': ('wrapper', 'scheme'),
            }.get(kind, ('wrapper',))
            told = ('bool', 'words') if kind in ('predicate', 'relation') else ('bool',)
            shapes = {
                'tokenizer': sorted(SHAPES), 'tagger': sorted(set(SHAPES) - {'tokens'})
            }.get(kind, ('generator',))
            readings = ('usual', 'own', 'tuple', 'lists') if kind == 'morph' else ('usual',)
            for style, manner, answer, shape, reading in itertools.product(
                    styles, sorted(MANNERS), told, shapes, readings):
                if shape != 'generator' and manner not in ('usual', 'empty'):
                    continue
                yield (name, (kind,), style, manner, answer, shape, reading, size)
        # everything at once
        for style, manner in itertools.product(('wrapper', 'scheme', 'subclass'), sorted(MANNERS)):
            yield (name, slots, style, manner, 'words', 'iterator', 'own', size)


def run_twin(case, counter):
    name, own, style, manner, told, shape, kind, size = case
    world = World(own, style, manner, told, shape, kind)
    actual = behaviour(name, world, size)
    for (text, value), (_, item) in zip(expected(name, size), actual):
        counter.state(name, text, own, style)
        counter.step()
        counter.trace()
        if item != value:
            raise Mismatch('rule %s with own %s (%s, %s, %s, %s, %s), %s: %s' % (
                name, '+'.join(own), style, manner, told, shape, kind, text,
                c05.difference(item, value)
            ))


# ------------------------------------------------------------ namesakes

class Secret(Predicate):
    """Nothing shows which words it takes."""
    __attributes__ = []
    label = 'secret'

    def __init__(self, letters):
        self.letters = letters

    def __call__(self, token):
        return token.value in self.letters

    def __repr__(self):
        return 'Secret()'


class Hidden(Relation):
    __attributes__ = []
    label = 'hidden'

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, form, other):
        return self.kind(form, other)


# skeleton: letters of the AST stand for secret predicates
SKELETONS = (
    ('seq', 0, 1),
    ('seq', 0, 1, 2),
    ('or', ('seq', 0, 1), ('seq', 1, 2)),
    ('or', ('seq', 0), ('seq', 1), ('seq', 2, 0)),
    ('seq', ('opt', 0), 1, 2),
    ('seq', ('rep', 0), 1),
    ('seq', ('rep', ('or', ('seq', 0), ('seq', 1, 2)))),
    ('seq', ('named', 0), ('named', 1), ('opt', ('named', 2))),
    ('seq', ('named', ('seq', 0, 1)), ('named', ('seq', 1, 2))),
    ('seq', ('both', 0, 1), 2),
    ('seq', ('either', 0, ('no', 1)), ('no', 2)),
    ('or', ('named', ('seq', ('both', 0, 2))), ('named', ('seq', ('either', 0, 1), 2))),
)


def build(ast, leafs):
    if isinstance(ast, int):
        return leafs[ast]
    kind, items = ast[0], [build(_, leafs) for _ in ast[1:]]
    if kind == 'seq':
        return rule(*items)
    if kind == 'or':
        return or_(*items)
    if kind == 'opt':
        return items[0].optional()
    if kind == 'rep':
        return items[0].repeatable()
    if kind == 'named':
        return items[0].named('Имя')
    return {'both': and_, 'either': or_, 'no': not_}[kind](*items)


def decides(ast, sets, word):
    if isinstance(ast, int):
        return word in sets[ast]
    values = [decides(_, sets, word) for _ in ast[1:]]
    return {'both': all, 'either': any, 'no': lambda _: not _[0]}[ast[0]](values)


def stops(ast, sets, text, start):
    """Where derivations from start stop."""
    if isinstance(ast, int) or ast[0] in ('both', 'either', 'no'):
        return {start + 1} if start < len(text) and decides(ast, sets, text[start]) else set()
    kind, items = ast[0], ast[1:]
    if kind == 'or':
        return set().union(*(stops(_, sets, text, start) for _ in items))
    if kind == 'opt':
        return {start} | stops(items[0], sets, text, start)
    if kind == 'rep':
        result, front = set(), {start}
        while front:
            front = set().union(*(stops(items[0], sets, text, _) for _ in front)) - result
            result |= front
        return result
    front = {start}
    for item in items:
        front = set().union(*(stops(item, sets, text, _) for _ in front)) if front else front
    return front


SETS = ('', 'а', 'б', 'аб')


def secret_cases(size):
    for index in range(len(SKELETONS)):
        for sets in itertools.product(SETS, repeat=3):
            yield (index, sets, size)


def run_secret(case, counter):
    index, sets, size = case
    ast = SKELETONS[index]
    parser = Parser(build(ast, [Secret(_) for _ in sets]), tokenizer=PLAIN)
    for text in enum.words('аб', 1, size):
        counter.state(index, sets, text)
        counter.step()
        counter.trace()
        string = ' '.join(text)
        ranges = {
            (start, stop) for start in range(len(text))
            for stop in stops(ast, sets, text, start) if stop > start
        }
        actual = {
            (_.span.start // 2, (_.span.stop + 1) // 2) for _ in parser.extract(string)
        }
        if actual != ranges:
            raise Mismatch('%r with %r, text %r: ranges %r, expected %r' % (
                ast, sets, string, sorted(actual), sorted(ranges)
            ))
        if bool(parser.match(string)) != ((0, len(text)) in ranges):
            raise Mismatch('%r with %r does not match %r' % (ast, sets, string))


def always(form, other):
    return True


def never(form, other):
    return False


def shared(form, other):
    return bool(form.grams.values & other.grams.values)


def alien(form, other):
    return not shared(form, other)


HIDDEN = (always, never, shared, alien)
SINGLE = {
    'а': [('а', ('r0',))],
    'б': [('б', ('r1',))],
    'в': [('в', ('r0', 'r1'))],
}
SINGLES = stub.tokenizer(SINGLE)


def relation_cases(size):
    # which relation object each of the words has
    for groups in itertools.product((None, 0, 1), repeat=size):
        used = sorted(set(groups) - {None})
        if not used or (0 not in used):
            continue
        for kinds in itertools.product(range(len(HIDDEN)), repeat=len(used)):
            yield (groups, kinds)


def run_relation(case, counter):
    groups, kinds = case
    relations = [Hidden(HIDDEN[_]) for _ in kinds]
    parser = Parser(rule(*[
        true() if _ is None else true().match(relations[_]) for _ in groups
    ]), tokenizer=SINGLES)
    for text in itertools.product('абв', repeat=len(groups)):
        forms = [SINGLES.morph(_)[0] for _ in text]
        fits = all(
            relations[a](one, two) and relations[a](two, one)
            for (a, one), (b, two) in itertools.combinations(list(zip(groups, forms)), 2)
            if a == b and a is not None
        )
        counter.state(groups, kinds, text)
        counter.step()
        counter.trace()
        actual = parser.match(' '.join(text))
        if bool(actual) != fits:
            raise Mismatch('words joined %r by %r, text %r: %s' % (
                groups, [HIDDEN[_].__name__ for _ in kinds], text,
                'found' if actual else 'not found'
            ))


# functions, constants, facts and attributes that look the same

def suffix(value):
    def function(item):
        return item + value
    return function


VALUES = {
    'functions': [lambda a, n=_: a.custom(suffix(n)) for _ in ('1', '2')],
    'chains': [
        lambda a, n=_: a.custom(suffix(n[0])).custom(suffix(n[1])) for _ in ('12', '21', '11', '22')
    ],
    'constants': [lambda a, n=_: a.const(n) for _ in (1, True, 1.0, 0, False, -0.0)],
    'lists': [lambda a, n=_: a.const(n) for _ in ((), (0,), (False,))],
    'mixed': [
        lambda a: a, lambda a: a.normalized(), lambda a: a.inflected({'r1'}),
        lambda a: a.inflected({'r0'}), lambda a: a.custom(str), lambda a: a.const('а')
    ],
}
GIVES = {
    'functions': [lambda t, n=_: t + n for _ in ('1', '2')],
    'chains': [lambda t, n=_: t + n for _ in ('12', '21', '11', '22')],
    'constants': [lambda t, n=_: n for _ in (1, True, 1.0, 0, False, -0.0)],
    'lists': [lambda t, n=_: n for _ in ((), (0,), (False,))],
    'mixed': [
        lambda t: t, lambda t: NORMAL[t], lambda t: INFLECTED.get((t, 'r1'), NORMAL[t]),
        lambda t: INFLECTED.get((t, 'r0'), NORMAL[t]), lambda t: t, lambda t: 'а'
    ],
}
INFLECTIONS = {
    'а': [('х', ('r0',), {frozenset({'r0'}): 'а0', frozenset({'r1'}): 'а1'})],
    'б': [('у', ('r1',), {frozenset({'r1'}): 'б1'})],
}
NORMAL = {'а': 'х', 'б': 'у'}
INFLECTED = {('а', 'r0'): 'а0', ('а', 'r1'): 'а1', ('б', 'r1'): 'б1'}
MORPHS = stub.tokenizer(INFLECTIONS)


def value_cases(size):
    for kind in sorted(VALUES):
        for chosen in itertools.product(range(len(VALUES[kind])), repeat=size):
            for place in ('attributes', 'classes', 'alternatives', 'normalizers', 'defaults', 'list'):
                yield (kind, chosen, place)


def value_rule(kind, chosen, place):
    from yargy import interpretation as i
    makers = [VALUES[kind][_] for _ in chosen]
    if place == 'attributes':
        # each under its own attribute of one class
        F = fact('F', ['a%d' % _ for _ in range(len(makers))])
        return rule(*[
            true().interpretation(make(getattr(F, 'a%d' % index)))
            for index, make in enumerate(makers)
        ]).interpretation(F)
    if place == 'defaults':
        # the attribute has an equal value before
        F = fact('F', [attribute('a%d' % _, (1, 0, 'а')[_ % 3]) for _ in range(len(makers))])
        return rule(*[
            true().interpretation(make(getattr(F, 'a%d' % index)))
            for index, make in enumerate(makers)
        ]).interpretation(F)
    if place == 'classes':
        # classes with the same name and attributes
        facts = [fact('G', ['a']) for _ in makers]
        F = fact('F', ['a%d' % _ for _ in range(len(makers))])
        return rule(*[
            true().interpretation(make(G.a)).interpretation(G).interpretation(getattr(F, 'a%d' % index))
            for index, (make, G) in enumerate(zip(makers, facts))
        ]).interpretation(F)
    if place == 'alternatives':
        F = fact('F', ['a'])
        return or_(*[
            rule(true().interpretation(make(F.a))) for make in makers
        ]).interpretation(F)
    if place == 'list':
        F = fact('F', [attribute('x').repeatable()])
        parts = []
        for make in makers:
            try:
                part = true().interpretation(make(i))
            except (AttributeError, TypeError):
                part = true()
            parts.append(part.interpretation(F.x))
        return rule(*parts).interpretation(F)
    if place == 'normalizers':
        # the module in place of an attribute gives bare normalisers
        F = fact('F', ['a%d' % _ for _ in range(len(makers))])
        parts = []
        for index, make in enumerate(makers):
            try:
                chain = make(i)
            except AttributeError:
                chain = i
            part = true() if chain is i else true().interpretation(chain)
            parts.append(part.interpretation(getattr(F, 'a%d' % index)))
        return rule(*parts).interpretation(F)


def tell(value):
    return (type(value).__name__, repr(value))


def run_value(case, counter):
    kind, chosen, place = case
    parser = Parser(value_rule(*case), tokenizer=MORPHS)
    gives = [GIVES[kind][_] for _ in chosen]
    for text in enum.words('аб', 1 if place == 'alternatives' else len(chosen),
                           1 if place == 'alternatives' else len(chosen)):
        counter.state(kind, chosen, place, text)
        counter.step()
        counter.trace()
        string = ' '.join(text)
        if place == 'alternatives':
            actual = [tell(_.fact.a) for _ in parser.extract(string)]
            model = [tell(give(string)) for give in gives]
            actual.sort()
            model.sort()
        else:
            made = parser.match(string).fact
            actual = made.x if place == 'list' else [getattr(made, 'a%d' % _) for _ in range(len(gives))]
            if place == 'classes':
                actual = [_.a for _ in actual]
            actual = [tell(_) for _ in actual]
            json = list(made.as_json.values())
            if place == 'list':
                json, = json
            if place == 'classes':
                json = [_['a'] for _ in json]
            json = [tell(_) for _ in json]
            if [tuple(_) for _ in made.spans] != [(_ * 2, _ * 2 + 1) for _ in range(len(gives))]:
                raise Mismatch('%s %r as %s, text %r: spans %r' % (
                    kind, chosen, place, string, made.spans
                ))
            if json != actual:
                raise Mismatch('%s %r as %s, text %r: values %r, as JSON %r' % (
                    kind, chosen, place, string, actual, json
                ))
            model = [tell(give(word)) for give, word in zip(gives, text)]
        if actual != model:
            raise Mismatch('%s %r as %s, text %r: values %r, expected %r' % (
                kind, chosen, place, string, actual, model
            ))


# ------------------------------------------------------------ labels

class Nameless(Predicate):
    __attributes__ = ['a', 'b']

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __call__(self, token):
        return token.value in (self.a, self.b)


class NamelessRelation(Relation):
    __attributes__ = ['a']

    def __init__(self, a):
        self.a = a

    def __call__(self, form, other):
        return True


PARTS = ('а', '"', '\\', '$', '\n', "'", ' | ', '', None, 7, ('а',))


def label_cases(size):
    for first, second in itertools.product(PARTS, repeat=2):
        yield (first, second)


def run_label(case, counter):
    first, second = case
    predicate = Nameless(first, second)
    relation = NamelessRelation(first)
    name = 'Nameless(a=%r, b=%r)' % (first, second)
    other = 'NamelessRelation(a=%r)' % (first,)
    checks = [
        ('label', predicate.label, name),
        ('label', relation.label, other),
        ('label', and_(predicate, not_(predicate)).label, 'and_(%s, not_(%s))' % (name, name)),
        ('label', or_(relation, not_(relation)).label, 'or_(%s, not_(%s))' % (other, other)),
        ('repr', repr(predicate), name),
        ('repr', repr(relation), other),
        ('BNF', list(rule(predicate).normalized.as_bnf.source), ['R0 -> ' + name]),
        ('BNF', list(rule(predicate.match(relation)).normalized.as_bnf.source), None),
    ]
    for kind, actual, model in checks:
        counter.state(case, kind)
        counter.step()
        counter.trace()
        if model is None:
            if not any(other in _ for _ in actual) or not any(name in _ for _ in actual):
                raise Mismatch('%s of %s joined by %s: %r' % (kind, name, other, actual))
        elif actual != model:
            raise Mismatch('%s of %s: %r, expected %r' % (kind, name, actual, model))


class C31(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        size = 4 if deep else 3
        return [
            Family('twins', lambda: twin_cases(size), run_twin,
                   '12 rules, predicates, relations, functions and normalisers, tokenizer, tagger and analyser of '
                   'the user: all sets of kinds, and each kind in every style, manner of comparison and truth, way '
                   'to answer; all texts of <=%d of 4 words' % size, cpu_limit=120),
            Family('secrets', lambda: secret_cases(6 if deep else 4), run_secret,
                   '12 skeletons, 3 predicates that look the same with all choices of words they take, all texts '
                   'of <=%d words' % (6 if deep else 4)),
            Family('relations', lambda: relation_cases(5 if deep else 4), run_relation,
                   'phrases of %d words joined in all ways by two relations that look the same, of 4 behaviours' % (
                       5 if deep else 4)),
            Family('values', lambda: value_cases(4 if deep else 3), run_value,
                   'functions with one name, equal constants of different types, classes with one name: all tuples of %d in 4 places' % (
                       4 if deep else 3)),
            Family('labels', lambda: label_cases(2), run_label,
                   'predicates and relations without a label, all pairs of 11 parameters'),
        ]


CHECK = C31(
    'C31',
    rule='state = (rule, parts of the user, text); transition = one text parsed; '
         'trace = one result compared with that of the built-in parts or of the model'
)
