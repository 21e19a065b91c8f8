"""C23: ill-formed rules are refused when they are built."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, stub, tags
from mc.yg import PLAIN, Parser

from yargy import rule, or_, and_, not_, forward, empty
from yargy.interpretation import fact, attribute
from yargy.interpretation.normalizer import NormalizedNormalizer
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import (
    eq, gram, in_, dictionary, normalized, true, tag, type as type_, custom, is_single
)
from yargy.relations import (
    main, gnc_relation, gender_relation, Relation
)
from yargy.span import Span
from yargy.tagger import Tagger, TaggersComposition, PassTagger
from yargy.token import Token
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule

from checks import c21

REFUSED = (TypeError, ValueError)
TOKENIZER = stub.tokenizer({})
TEXTS = ('', 'а', 'а б', 'слово 1')

F = fact('F', ['a', attribute('b').repeatable(), attribute('c', 7)])
G = fact('G', ['a'])


class Tags(Tagger):
    tags = ['X', 'Y']

    def __call__(self, tokens):
        return tokens


def function(value):
    return value


def attempt(build):
    """The value, or Refused."""
    try:
        return build(), None
    except REFUSED as error:
        return None, error


def expect(case, build, accepted, counter):
    """build() has to give a rule that can be parsed, or to be refused."""
    counter.state(case)
    counter.step()
    try:
        value = build()
    except REFUSED as error:
        if accepted:
            raise Mismatch('%r is refused: %s: %s' % (case, error.__class__.__name__, error))
        counter.trace()
        return None
    except Exception as error:
        raise Mismatch('%r fails with %s: %s' % (case, error.__class__.__name__, error))
    if not accepted:
        raise Mismatch('%r is not refused' % (case,))
    counter.trace()
    return value


def use(case, item, tokenizer=None, tagger=None):
    """A rule that is accepted can be parsed."""
    try:
        parser = Parser(item, tokenizer=tokenizer or TOKENIZER, tagger=tagger)
        for text in TEXTS:
            list(parser.extract(text))
            parser.match(text)
            parser.findall(text)
    except Exception as error:
        raise Mismatch('%r is accepted and fails with %s: %s' % (
            case, error.__class__.__name__, error
        ))


# ------------------------------------------------ kinds of arguments

def defined():
    return forward().define('а')


POOL = {
    'predicate': lambda: eq('а'),
    'scheme': lambda: gram('NOUN'),
    'composition': lambda: or_(eq('а'), true()),
    'rule': lambda: rule('а'),
    'forward': defined,
    'pipeline': lambda: pipeline(['а', 'а б']),
    'optional': lambda: rule('а').optional(),
    'or': lambda: or_(rule('а'), rule('б')),
    'empty': lambda: empty(),
    'interpreted': lambda: eq('а').interpretation(F.a),
    'relation': gnc_relation,
    'and relation': lambda: and_(gnc_relation(), gender_relation()),
    'main': lambda: main(eq('а')),
    'string': lambda: 'а',
    'none': lambda: None,
    'number': lambda: 1,
    'list': lambda: [eq('а')],
    'fact': lambda: F,
    'object': lambda: F(),
    'attribute': lambda: F.a,
    'repeatable attribute': lambda: F.b,
    'normalized attribute': lambda: F.a.normalized(),
    'inflected attribute': lambda: F.c.inflected({'nomn'}),
    'const attribute': lambda: F.a.const(1),
    'custom attribute': lambda: F.a.custom(function),
    'scheme of attribute': lambda: attribute('x'),
    'normalizer': NormalizedNormalizer,
    'class': lambda: object,
    'predicate class': lambda: eq,
    'relation class': lambda: gnc_relation,
    'function': lambda: function,
    'token': lambda: Token('а', Span(0, 1), 'RU'),
    'tokenizer': lambda: TOKENIZER,
    'tagger': lambda: Tags(),
    'parser': lambda: Parser(rule('а'), tokenizer=PLAIN),
}
PREDICATES = {'predicate', 'scheme', 'composition'}
RULES = {'rule', 'forward', 'pipeline', 'optional', 'or', 'empty', 'interpreted'}
RELATIONS = {'relation', 'and relation'}
ATTRIBUTES = {
    'attribute', 'repeatable attribute', 'normalized attribute',
    'inflected attribute', 'const attribute', 'custom attribute'
}


def kind_of(name):
    for kind, names in (('p', PREDICATES), ('r', RULES), ('rel', RELATIONS)):
        if name in names:
            return kind


def composition_cases(size):
    for count in range(1, size + 1):
        for names in itertools.product(sorted(POOL), repeat=count):
            if count > 2 and len({kind_of(_) for _ in names} - {None}) < 2:
                # pairs have shown it
                continue
            for operator in ('and_', 'or_'):
                yield (operator, names)
    for name in sorted(POOL):
        yield ('not_', (name,))


def run_composition(case, counter):
    operator, names = case
    kinds = {kind_of(_) for _ in names}
    kind = kinds.pop() if len(kinds) == 1 else None
    accepted = kind in ('p', 'rel') or kind == 'r' and operator == 'or_'
    item = expect(case, lambda: {'and_': and_, 'or_': or_, 'not_': not_}[operator](
        *(POOL[_]() for _ in names)), accepted, counter)
    if item is None:
        return
    if kind == 'p':
        use(case, rule(item, item.optional(), item.repeatable(max=2)))
    elif kind == 'r':
        use(case, item)
        use(case, rule(item.optional(), item.repeatable(max=2)))
    else:
        use(case, rule(true().match(item), rule(true()).match(item)))


SLOTS = {
    'main': (lambda x: main(x), PREDICATES | RULES, lambda x: rule('а', x)),
    'named': (lambda x: rule('а').named(x), {'string'}, None),
    'predicate named': (lambda x: eq('а').named(x), {'string'}, None),
    'match': (lambda x: rule('а').match(x), RELATIONS, None),
    'predicate match': (lambda x: eq('а').match(x), RELATIONS, None),
    'optional match': (lambda x: rule('а').optional().match(x), RELATIONS, None),
    'interpretation': (
        lambda x: rule('а').interpretation(x), ATTRIBUTES | {'fact', 'normalizer'}, None),
    'named interpretation': (
        lambda x: rule('а').named('N').interpretation(x), ATTRIBUTES | {'fact', 'normalizer'}, None),
    'pipeline interpretation': (
        lambda x: pipeline(['а']).interpretation(x), ATTRIBUTES | {'fact', 'normalizer'}, None),
    'predicate interpretation': (
        lambda x: eq('а').interpretation(x), ATTRIBUTES | {'normalizer'}, None),
    'composition interpretation': (
        lambda x: and_(eq('а'), true()).interpretation(x), ATTRIBUTES | {'normalizer'}, None),
    'define': (lambda x: forward().define(x), RULES - {'forward'} | PREDICATES | {'main', 'string'}, None),
    'optional reverse': (lambda x: rule('а').optional(reverse=x), set(), None),
    'repeatable reverse': (lambda x: rule('а').repeatable(reverse=x), set(), None),
    'min reverse': (lambda x: rule('а').repeatable(min=2, reverse=x), set(), None),
    'max reverse': (lambda x: rule('а').repeatable(max=2, reverse=x), set(), None),
    'min max reverse': (lambda x: rule('а').repeatable(min=2, max=3, reverse=x), set(), None),
    'predicate reverse': (lambda x: eq('а').repeatable(reverse=x), set(), None),
    'tokenizer': (
        lambda x: Parser(rule('а'), tokenizer=x), {'tokenizer', 'none'}, 'parser'),
    'tagger': (
        lambda x: Parser(rule('а'), tokenizer=TOKENIZER, tagger=x), {'tagger', 'none'}, 'parser'),
    'token rules': (lambda x: Tokenizer([x]), set(), 'parser'),
    'token rules 2': (lambda x: Tokenizer([TokenRule('A', 'а'), x]), set(), 'parser'),
    'add_rules': (lambda x: Tokenizer().add_rules(x), set(), 'parser'),
    'add_rules 2': (lambda x: Tokenizer().add_rules(TokenRule('A', 'а'), x), set(), 'parser'),
    'pipeline': (lambda x: pipeline([x]), {'string'}, None),
    'pipeline 2': (lambda x: pipeline(['б', x]), {'string'}, None),
    'caseless_pipeline': (lambda x: caseless_pipeline([x]), {'string'}, None),
    'caseless_pipeline 2': (lambda x: caseless_pipeline([x, 'б']), {'string'}, None),
    'morph_pipeline': (lambda x: morph_pipeline([x]), {'string'}, None),
    'morph_pipeline 2': (lambda x: morph_pipeline(['б', x, 'в']), {'string'}, None),
    'attribute': (lambda x: attribute('a', x).repeatable(), {'none'}, 'parser'),
    'pattern': (lambda x: Tokenizer().remove_types(x), set(), 'parser'),
}
# what is not said anywhere
FREE = {
    'define': set(POOL) - RULES - PREDICATES - {'main', 'string'},
    'main': set(),
    # any value is compared with types
    'pattern': set(),
}


def slot_cases():
    for slot in sorted(SLOTS):
        for name in sorted(POOL):
            if name not in FREE.get(slot, ()):
                yield (slot, name)


def run_slot(case, counter):
    slot, name = case
    build, accepted, context = SLOTS[slot]
    value = POOL[name]()
    if slot == 'tokenizer' and name == 'none':
        # the real dictionary, loaded by other checks
        return
    item = expect(case, lambda: build(value), name in accepted, counter)
    if item is None or context == 'parser':
        return
    use(case, context(item) if context else item)
    use(case, rule(item, 'б') if not context else rule(context(item), 'б'))


# ------------------------------------------------ numbers

BOUNDS = (None, 0, -2, -1, 1, 2, 3, 7)
TARGETS = {
    'rule': lambda: rule('а'),
    'predicate': lambda: eq('а'),
    'or': lambda: or_(rule('а'), rule('б')),
    'named': lambda: rule('а').named('N'),
    'optional': lambda: rule('а').optional(),
    'repeatable': lambda: rule('а').repeatable(max=2),
    'pipeline': lambda: pipeline(['а']),
    'forward': defined,
    'interpreted': lambda: rule('а').interpretation(F.a),
}


def bound_cases():
    for target in sorted(TARGETS):
        for low in BOUNDS:
            for high in BOUNDS:
                for reverse in (False, True, 1, None, 'x'):
                    yield (target, low, high, reverse)


def run_bounds(case, counter):
    target, low, high, reverse = case
    accepted = isinstance(reverse, bool)
    if low and low < 0 or high and high < 0:
        accepted = False
    if low and high and low > high:
        accepted = False
    item = expect(case, lambda: TARGETS[target]().repeatable(
        min=low, max=high, reverse=reverse), accepted, counter)
    if item is not None:
        use(case, item)


# ------------------------------------------------ main

PARTS = {
    'p': lambda: eq('а'), 'r': lambda: rule('а'), 's': lambda: 'а',
    'm': lambda: main(eq('а')), 'M': lambda: main(rule('а', 'б')),
    'i': lambda: rule('а', main(eq('б'))), 'I': lambda: main(rule('а', main(rule('б')))),
}


def main_cases(size):
    for count in range(size + 1):
        for parts in itertools.product(sorted(PARTS), repeat=count):
            for way in ('rule', 'define'):
                if way == 'rule' or parts:
                    yield (way, ''.join(parts))


def run_main(case, counter):
    way, parts = case
    accepted = sum(_ in 'mMI' for _ in parts) < 2
    items = [PARTS[_]() for _ in parts]
    item = expect(
        case,
        lambda: rule(*items) if way == 'rule' else forward().define(*items),
        accepted, counter
    )
    if item is not None and parts:
        use(case, item)


# ------------------------------------------------ what is known only to the parser



NO_RU = MorphTokenizer([TokenRule('A', 'а'), TokenRule('B', 'б')], morph=stub.analyzer({}))
MORE = stub.tokenizer({}).add_rules(TokenRule('A', 'а'))
LESS = stub.tokenizer({}).remove_types('RU', 'INT')


class Z(Tagger):
    tags = {'Z'}

    def __call__(self, tokens):
        return tokens


TAGGERS = {
    'none': lambda: None,
    'pass': PassTagger,
    'tags': Tags,
    'both': lambda: TaggersComposition([Tags(), Z()]),
    'nested': lambda: TaggersComposition([PassTagger(), TaggersComposition([Z()])]),
    'no': lambda: TaggersComposition([]),
}
KNOWN_TAGS = {
    'none': set(), 'pass': set(), 'tags': {'X', 'Y'}, 'both': {'X', 'Y', 'Z'},
    'nested': {'Z'}, 'no': set(),
}
TOKENIZERS = {'default': TOKENIZER, 'no': NO_RU, 'more': MORE, 'less': LESS}
DEFAULT_TYPES = {'RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER'}


def types_of(name, tokenizer):
    return {
        'default': DEFAULT_TYPES, 'more': DEFAULT_TYPES | {'A'},
        'no': {'A', 'B'}, 'less': DEFAULT_TYPES - {'RU', 'INT'},
    }[name]


# (kind, value)
TERMS = [
    ('gram', _) for _ in ('NOUN', 'XXX', 'noun', '', 'NOUN ', 'r0', 'ms-f')
] + [
    ('type', _) for _ in ('RU', 'INT', 'A', 'B', 'XXX', 'ru', '', 'OTHER', 'EMAIL', 'PUNCT')
] + [
    ('tag', _) for _ in ('X', 'Y', 'Z', 'x', '')
] + [
    ('custom', _) for _ in (None, 'RU', 'XXX', ('RU', 'INT'), ('RU', 'XXX'), ('XXX', 'RU'), ('A', 'LATIN'))
] + [
    ('fine', _) for _ in ('dictionary', 'normalized', 'is_single', 'in_')
]

P_CONTEXTS = {
    'and': lambda x: and_(true(), x), 'and first': lambda x: and_(x, eq('а')),
    'or': lambda x: or_(x, eq('а')), 'or last': lambda x: or_(eq('а'), eq('б'), x),
    'not': lambda x: not_(x),
}
R_CONTEXTS = {
    'rule': lambda x: rule(x),
    'after': lambda x: rule('а', x),
    'before': lambda x: rule(x, 'а'),
    'main': lambda x: rule('а', main(x)),
    'or': lambda x: or_(rule('а'), x),
    'or first': lambda x: or_(x, rule('а'), empty()),
    'optional': lambda x: x.optional(),
    'repeatable': lambda x: x.repeatable(),
    'reverse': lambda x: x.repeatable(reverse=True),
    'min': lambda x: x.repeatable(min=2),
    'max': lambda x: x.repeatable(max=2),
    'min max': lambda x: x.repeatable(min=2, max=3),
    'optional repeatable': lambda x: x.optional().repeatable(),
    'named': lambda x: x.named('N'),
    'match': lambda x: x.match(gnc_relation()),
    'attribute': lambda x: x.interpretation(F.a),
    'fact': lambda x: x.interpretation(F),
    'forward': lambda x: forward().define(x),
    'forward rule': lambda x: forward().define('а', x),
    'recursive': lambda x: recursive(x),
}


def recursive(x):
    item = forward()
    item.define(or_(rule('а', item), rule(x)))
    return item


def make_term(kind, value):
    if kind == 'gram':
        return gram(value)
    if kind == 'type':
        return type_(value)
    if kind == 'tag':
        return tag(value)
    if kind == 'custom':
        return custom(function, types=list(value) if isinstance(value, tuple) else value)
    return {
        'dictionary': lambda: dictionary({'слово'}), 'normalized': lambda: normalized('слово'),
        'is_single': is_single, 'in_': lambda: in_({'а'}),
    }[value]()


def term_accepted(kind, value, tokenizer, tagger):
    if kind == 'gram':
        return value in stub.GRAMS
    if kind == 'type':
        return value in types_of(tokenizer, None)
    if kind == 'tag':
        return value in KNOWN_TAGS[tagger]
    if kind == 'custom':
        values = value if isinstance(value, tuple) else [value] if value else []
        return all(_ in types_of(tokenizer, None) for _ in values)
    return True


def late_cases(depth, p_depth):
    """Every context over a part that may be wrong."""
    pairs = [('default', _) for _ in sorted(TAGGERS)] + [
        (_, 'none') for _ in ('no', 'more', 'less')
    ]
    for tokenizer, tagger in pairs:
        for kind, value in TERMS:
            if kind in ('gram', 'fine') and (tokenizer, tagger) != ('default', 'none'):
                continue
            if kind == 'tag' and tokenizer != 'default':
                continue
            if kind in ('type', 'custom') and tagger != 'none':
                continue
            for size in range(p_depth + 1):
                for inner in itertools.product(sorted(P_CONTEXTS), repeat=size):
                    yield (tokenizer, tagger, kind, value, inner, ())
    for size in range(1, depth + 1):
        for outer in itertools.product(sorted(R_CONTEXTS), repeat=size):
            for tokenizer, tagger, kind, value in LATE:
                inners = [(), ('or',)] if size < 2 else [()]
                for inner in inners:
                    yield (tokenizer, tagger, kind, value, inner, outer)


LATE = (
    ('default', 'none', 'gram', 'NOUN'), ('default', 'none', 'gram', 'XXX'),
    ('no', 'none', 'type', 'RU'), ('more', 'none', 'type', 'A'),
    ('default', 'both', 'tag', 'Z'), ('default', 'tags', 'tag', 'Z'),
    ('less', 'none', 'custom', ('LATIN', 'INT')),
    ('default', 'none', 'forward', None), ('default', 'none', 'defined', None),
)


def run_late(case, counter):
    tokenizer, tagger, kind, value, inner, outer = case
    if kind in ('forward', 'defined'):
        item = forward() if kind == 'forward' else defined()
        accepted = kind == 'defined'
        if inner:
            return
    else:
        item = make_term(kind, value)
        accepted = term_accepted(kind, value, tokenizer, tagger)
        for name in inner:
            item = P_CONTEXTS[name](item)
        item = rule(item)
    undefined = item if kind == 'forward' else None
    try:
        for name in outer:
            if name in ('forward',) and item is undefined:
                # forward of a forward, another case
                return
            if name == 'forward' and isinstance(item, forward):
                return
            item = R_CONTEXTS[name](item)
    except Exception as error:
        raise Mismatch('%r fails with %s: %s' % (case, error.__class__.__name__, error))

    def build():
        return Parser(item, tokenizer=TOKENIZERS[tokenizer], tagger=TAGGERS[tagger]())
    for again in range(2):
        # refused every time
        parser = expect(case + (again,), build, accepted, counter)
    if accepted:
        for text in TEXTS:
            try:
                list(parser.extract(text))
            except Exception as error:
                raise Mismatch('%r is accepted and fails with %s: %s' % (
                    case, error.__class__.__name__, error
                ))
    elif undefined is not None:
        # the same rule after the forward is defined
        undefined.define('а')
        use(case, item)


# ------------------------------------------------ forwards

def forward_cases():
    for other in ('forward', 'defined', 'itself'):
        for before in (False, True):
            yield (other, before)


def run_forward(case, counter):
    other, before = case
    item = forward()
    if before:
        item.define('а')
    value = {'forward': forward, 'defined': defined, 'itself': lambda: item}[other]()
    expect(case, lambda: item.define(value), False, counter)
    # nothing has been changed by the refused definition
    expect(case + ('after',), lambda: Parser(rule(item), tokenizer=TOKENIZER), before, counter)
    expect(case + ('again',), lambda: Parser(
        rule(item.define(rule('а', 'б'))), tokenizer=TOKENIZER), True, counter)


# ------------------------------------------------ facts, lines

def fact_cases():
    for count in range(4):
        for names in itertools.combinations(('a', 'b', 'c', 'd', 'A', '_raw', 'as_json', 'spans'), count):
            yield names


def run_fact(names, counter):
    counter.state(names)
    values = {_: [1] if _ == 'b' else 1 for _ in names}
    accepted = set(names) <= {'a', 'b', 'c'}
    counter.step()
    try:
        F(**values)
    except REFUSED + (KeyError,):
        if accepted:
            raise Mismatch('%r is refused' % (names,))
    else:
        if not accepted:
            raise Mismatch('%r is not refused' % (names,))
    counter.trace()


DEFAULTS = (None, 0, 1, False, True, '', 'x', (), [], 0.0)


def default_cases():
    for index in range(len(DEFAULTS)):
        yield index


def run_default(index, counter):
    default = DEFAULTS[index]
    case = ('default', index)
    scheme = expect(case, lambda: attribute('x', default), True, counter)
    item = expect(case + ('repeatable',), lambda: scheme.repeatable(), default is None, counter)
    made = expect(case + ('fact',), lambda: fact('H', ['y', item if item else scheme]), True, counter)
    made(x=[1] if item else 1)


LINES = {'s': 'а', 't': 'а б', 'n': None, 'i': 1, 'b': b'a', 'l': ['а'], 'p': eq('а')}


def line_cases(size):
    for name in ('pipeline', 'caseless_pipeline', 'morph_pipeline'):
        for count in range(1, size + 1):
            for lines in itertools.product(sorted(LINES), repeat=count):
                for way in ('list', 'iterator'):
                    yield (name, ''.join(lines), way)


def run_lines(case, counter):
    name, letters, way = case
    lines = [LINES[_] for _ in letters]
    build = {
        'pipeline': pipeline, 'caseless_pipeline': caseless_pipeline,
        'morph_pipeline': morph_pipeline
    }[name]
    item = expect(
        case, lambda: build(lines if way == 'list' else iter(lines)),
        set(letters) <= set('st'), counter
    )
    if item is not None:
        use(case, item)


# ------------------------------------------------ everything else is accepted

def run_wellformed(case, counter):
    root, defs = case
    counter.state(case)
    item = expect(case, lambda: c21.build(root, defs), True, counter)
    use(case, item)


# ------------------------------------------------ one mistake among many parts

def among_cases(limit):
    for count in enum.sizes(limit):
        for position in sorted({0, 1, count // 2, count - 2, count - 1} & set(range(count))):
            for kind in sorted(AMONG):
                yield (kind, count, position)


def put(count, position, bad, good):
    return [bad if _ == position else good() for _ in range(count)]


def levels(count, item):
    """A part under many levels of other parts."""
    names = ('rule', 'optional', 'or', 'named', 'after', 'repeatable', 'attribute')
    for number in range(min(count, 40)):
        item = R_CONTEXTS[names[number % len(names)]](item)
    return item


def flat(operator, other):
    def build(n, i, bad):
        return operator(*put(n, i, POOL[other]() if bad else eq('а'), lambda: eq('а')))
    return build


def late_parser(n, i, bad, context):
    term = type_('XXX' if bad else 'RU')
    return Parser(context(n, i, term), tokenizer=TOKENIZER)


AMONG = {
    # name -> build(count, position, is it wrong)
    'and_': flat(and_, 'rule'),
    'or_': flat(or_, 'relation'),
    'or_ string': flat(or_, 'string'),
    'or_ rules': lambda n, i, bad: or_(*put(n, i, eq('а') if bad else rule('а'), lambda: rule('а'))) if n > 1 else None,
    'two mains': lambda n, i, bad: rule(*([main(eq('а'))] + put(n, i, main(eq('а')) if bad else eq('а'), lambda: eq('а')))),
    'late and_': lambda n, i, bad: late_parser(n, i, bad, lambda n, i, x: rule(and_(*put(n, i, x, true)))),
    'late rule': lambda n, i, bad: late_parser(n, i, bad, lambda n, i, x: rule(*put(n, i, x, true))),
    'late or_': lambda n, i, bad: late_parser(n, i, bad, lambda n, i, x: or_(*put(n, i, rule(x), lambda: rule('а')))),
    'late levels': lambda n, i, bad: late_parser(n, i, bad, lambda n, i, x: levels(n, rule(x))),
    'forward levels': lambda n, i, bad: Parser(levels(n, rule(forward() if bad else defined())), tokenizer=TOKENIZER),
    'forward rule': lambda n, i, bad: Parser(rule(*put(n, i, forward() if bad else defined(), defined)), tokenizer=TOKENIZER),
    'lines': lambda n, i, bad: morph_pipeline(put(n, i, 1 if bad else 'а', lambda: 'а')),
    'types': lambda n, i, bad: Parser(rule(custom(function, types=put(n, i, 'XXX' if bad else 'RU', lambda: 'RU'))), tokenizer=TOKENIZER),
    'bounds': lambda n, i, bad: rule('а').repeatable(min=n + i + 1 if bad else i + 1, max=n),
    'attribute': lambda n, i, bad: many_attributes(n)(**{'a%d' % (n if bad else i): 1}),
    'tags': lambda n, i, bad: Parser(rule(tag('T%d' % (n if bad else i))), tokenizer=TOKENIZER, tagger=ManyTags(n)),
    'composition': lambda n, i, bad: Parser(
        rule(tag('T%d' % (n if bad else i))), tokenizer=TOKENIZER,
        tagger=TaggersComposition([ManyTags(1, _) for _ in range(n)])),
}


def many_attributes(count):
    return fact('Many', ['a%d' % _ for _ in range(count)])


class ManyTags(Tags):
    def __init__(self, count, start=0):
        self.tags = ['T%d' % _ for _ in range(start, start + count)]


def run_among(case, counter):
    kind, count, position = case
    build = AMONG[kind]
    if kind == 'or_ rules' and count < 2 or kind in ('and_', 'or_', 'or_ string') and count < 2:
        return
    for bad in (True, False):
        counter.state(case, bad)
        counter.step()
        try:
            build(count, position, bad)
        except REFUSED + (KeyError,) as error:
            if not bad:
                raise Mismatch('%s of %d parts is refused: %r' % (kind, count, error))
        except Exception as error:
            raise Mismatch('%s of %d parts fails with %r' % (kind, count, error))
        else:
            if bad:
                raise Mismatch('%s of %d parts is not refused, number %d is wrong' % (
                    kind, count, position))
        counter.trace()


def grammeme_cases():
    for name in tags.grammemes():
        yield (name,)


def run_grammeme(case, counter):
    known = set(tags.grammemes())
    tokenizer = tags.tokenizer({})
    name, = case
    variants = {
        name, name.lower(), name.upper(), name.title(), name.swapcase(), name + ' ', ' ' + name,
        name[:3], name + name, name + ',', '', 'X' + name[1:]
    }
    for value in sorted(variants):
        for make in (lambda _: rule(gram(_)), lambda _: rule('а', or_(eq('а'), not_(gram(_)))).optional()):
            counter.state(value)
            counter.step()
            counter.trace()
            try:
                Parser(make(value), tokenizer=tokenizer)
            except ValueError:
                accepted = False
            else:
                accepted = True
            if accepted != (value in known):
                raise Mismatch('grammeme %r is %s' % (value, 'accepted' if accepted else 'refused'))


# -------------------------------- known in one parser, not in another

SCHEMES = {
    'gram': lambda: gram('NOUN'), 'bad gram': lambda: gram('XXXX'),
    'type RU': lambda: type_('RU'), 'type INT': lambda: type_('INT'), 'bad type': lambda: type_('XXX'),
    'tag T': lambda: tag('T'), 'tag U': lambda: tag('U'), 'bad tag': lambda: tag('X'),
    'custom INT': lambda: custom(function, types='INT'), 'plain': lambda: eq('а'),
}
SETTINGS = {
    # types and tags
    'T': ((), ('T',)), 'U': ((), ('U',)), 'words': (('INT',), ('T', 'U')), 'numbers': (('RU',), ()),
}
GOOD = {
    'gram': lambda types, tags: True, 'plain': lambda types, tags: True,
    'type RU': lambda types, tags: 'RU' not in types, 'type INT': lambda types, tags: 'INT' not in types,
    'custom INT': lambda types, tags: 'INT' not in types,
    'tag T': lambda types, tags: 'T' in tags, 'tag U': lambda types, tags: 'U' in tags,
}


class Known(Tagger):
    def __init__(self, tags):
        self.tags = list(tags)

    def __call__(self, tokens):
        return tokens


def setting_cases(size, rounds):
    for count in range(1, size + 1):
        for chosen in itertools.product(sorted(SCHEMES), repeat=count):
            for order in itertools.product(sorted(SETTINGS), repeat=rounds if count < 3 else 1):
                yield (chosen, order)


def run_setting(case, counter):
    """What a rule asks for is looked up by every parser in its own tokenizer and tagger."""
    chosen, order = case
    parts = [SCHEMES[_]() for _ in chosen]
    root = rule(*parts[:-1], parts[-1].optional()) if len(parts) % 2 else or_(*(rule(_) for _ in parts))
    for name in order:
        types, known = SETTINGS[name]
        tokenizer = stub.tokenizer({'а': [('а', ('NOUN',))]})
        if types:
            tokenizer.remove_types(*types)
        counter.state(case, name)
        counter.step()
        counter.trace()
        try:
            Parser(root, tokenizer=tokenizer, tagger=Known(known))
        except ValueError:
            accepted = False
        else:
            accepted = True
        if accepted != all(_ in GOOD and GOOD[_](types, known) for _ in chosen):
            raise Mismatch('%s without types %s with tags %s is %s' % (
                chosen, types, known, 'accepted' if accepted else 'refused'
            ))


class C23(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('compositions', lambda: composition_cases(3), run_composition,
                   'and_, or_, not_ of <= %d arguments of %d kinds' % (3, len(POOL))),
            Family('slots', slot_cases, run_slot,
                   '%d places, %d kinds of arguments' % (len(SLOTS), len(POOL))),
            Family('bounds', bound_cases, run_bounds,
                   '%d kinds of parts, all pairs of %d bounds, 5 values of reverse' % (
                       len(TARGETS), len(BOUNDS))),
            Family('main', lambda: main_cases(5 if deep else 4), run_main,
                   'phrases of <= %d of %d kinds of parts' % (5 if deep else 4, len(PARTS))),
            Family('late', lambda: late_cases(3 if deep else 2, 4 if deep else 3), run_late,
                   'grammemes, types, tags and forwards in %d contexts to depth %d' % (
                       len(R_CONTEXTS), 3 if deep else 2)),
            Family('grammemes', grammeme_cases, run_grammeme, 'every grammeme of the dictionary and its variants'),
            Family('settings', lambda: setting_cases(3, 3 if deep else 2), run_setting,
                   'rules of <= 3 of %d predicates given to parsers of %d kinds' % (len(SCHEMES), len(SETTINGS))),
            Family('forwards', forward_cases, run_forward, 'forward of a forward'),
            Family('facts', fact_cases, run_fact, 'every set of <= 3 of 8 names'),
            Family('defaults', default_cases, run_default, '%d defaults' % len(DEFAULTS)),
            Family('lines', lambda: line_cases(4 if deep else 2), run_lines,
                   'pipelines of <= %d lines of %d kinds' % (4 if deep else 2, len(LINES))),
            Family('wellformed', lambda: itertools.chain(
                c21.small_cases(1, 4 if deep else 2, False),
                c21.small_cases(1, 3 if deep else 1, True), c21.chain_cases(3 if deep else 1)),
                run_wellformed, 'rules of <= %d nodes with decorations' % (4 if deep else 2)),
            Family('among', lambda: among_cases(270 if deep else 70), run_among,
                   'one mistake among up to %d parts in %d places' % (270 if deep else 70, len(AMONG))),
        ]


CHECK = C23(
    'C23',
    rule='state = construct with its arguments; transition = one construct '
         'built; trace = one that is refused or accepted as expected',
    assumptions=['functions and compared values are not checked by yargy, '
                 'they are taken as they are']
)
