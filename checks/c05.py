"""C05: building or inspecting a parser never changes the rules."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub
from mc.yg import PLAIN, Parser, describe

from yargy import rule, or_, and_, not_, forward
from yargy.api import empty
from yargy.interpretation import fact, attribute, normalized
from yargy.parser import Context
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import (
    eq, gram, in_, in_caseless, caseless, normalized as normal, dictionary,
    type as type_, tag, gte, lte, custom, length_eq, is_capitalized, true
)
from yargy.relations import Relation, main
from yargy.tagger import Tagger, PassTagger
from yargy.tokenizer import TokenRule, RULES, INT


class Labels(Tagger):
    tags = {'T'}

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged('T') if index % 2 else token


class Same(Relation):
    __attributes__ = []
    label = 'same'

    def __call__(self, form, other):
        return bool(form.grams.values & other.grams.values)


FIRST = {
    'а': [('х', ('r0', 'NOUN')), ('у', ('r1', 'VERB'))],
    'б': [('х', ('r0', 'VERB'))],
    'в': [('я', ('r1', 'NOUN'))],
}
SECOND = {
    'а': [('я', ('r1', 'NOUN'))],
    'б': [('у', ('r2', 'NOUN')), ('я', ('r1', 'VERB'))],
    'в': [('х', ('r2', 'VERB'))],
}


def contexts():
    """Different tokenizers and taggers a rule may be used with."""
    return {
        '1': (stub.tokenizer(FIRST), None),
        '2': (
            stub.tokenizer(SECOND, rules=[TokenRule('М', r'[а-я]-[а-я]')] + [
                _ for _ in RULES if _.type != INT
            ]),
            Labels()
        ),
    }


CONTEXTS = contexts()


# ------------------------------------------------------------- rules

def plain():
    a = rule('а')
    part = or_(a, rule('б', a))
    return part, rule(part, part.optional(), '!'), rule(part, 'в')


def extended():
    part = rule('а').optional().repeatable(max=2)
    return part, rule(part, 'б'), or_(part.repeatable(reverse=True), rule('в'))


def bounded():
    part = or_(rule('а'), rule('б')).named('P')
    return part.repeatable(min=2, max=3), rule(part.repeatable(min=2), part.repeatable(max=2)), part


def empties():
    part = or_(empty(), rule('а'))
    return part, rule(part, 'б', part), or_(rule(part, part), rule('в'))


def lines():
    part = pipeline(['а-б', 'а', 'б в'])
    return part, rule(part, 'в'), rule(part.named('D'), part)


def caseless_lines():
    part = caseless_pipeline(['А-Б', 'б'])
    return part, part.repeatable(), or_(part, rule('в'))


def morph_lines():
    F = fact('F', ['a', 'b'])
    part = morph_pipeline(['а-в', 'а', 'б а'])
    return (
        part,
        part.interpretation(F.a.normalized()).interpretation(F),
        rule(part.interpretation(F.b), part.interpretation(F.a)).interpretation(F)
    )


def morphs():
    part = and_(gram('NOUN'), not_(eq('б')))
    return rule(part), rule(part, normal('б')), rule(or_(part, dictionary({'а', 'в'})), true())


def types():
    part = type_('RU')
    return rule(part), rule(part, type_('INT')), rule(or_(part, gte(5)), '-', part)


def differs(value):
    return value != 'б'


def word_sets():
    part = dictionary({'в'})
    return rule(part), rule(part, in_caseless({'А', 'б'})), or_(rule(normal('в')), rule(part, in_({'а'})))


def customs():
    part = custom(differs, types='RU')
    return rule(part), rule(part, part).named('C'), rule(in_({'а', 'б'}), part.optional())


def tags():
    part = tag('T')
    return rule(part), rule('а', part), rule(not_(part), true())


def agreements():
    same = Same()
    part = rule('а').match(same)
    return (
        part,
        rule(part, rule('б').match(same)),
        rule(rule(rule('в').optional(), main(rule('а'))).match(same), gram('NOUN').match(same))
    )


def facts():
    F = fact('F', ['a', attribute('c').repeatable()])
    G = fact('G', ['x'])
    part = or_(rule('а'), rule('б')).interpretation(F.c)
    return (
        part,
        rule(part, rule('в').interpretation(G.x).interpretation(G).interpretation(F.a)).interpretation(F),
        rule(part.repeatable()).interpretation(F)
    )


def normalisers():
    F = fact('F', ['a'])
    part = rule('а', caseless('б').optional()).interpretation(normalized())
    return (
        part,
        part.interpretation(F.a).interpretation(F),
        rule('в', part.interpretation(F.a)).interpretation(F)
    )


def recursive():
    part = forward()
    part.define(or_(rule('а', part), rule('б')))
    return part, rule(part, 'в'), part.named('X').optional()


def mutual():
    left, right = forward(), forward()
    left.define(or_(rule('а'), rule('а', right)))
    right.define(or_(rule('б', left), rule('в')).named('R'))
    return left, right, rule(left, right)


def nested_forward():
    part = forward()
    word = or_(rule('а'), rule('(', part, ')'))
    part.define(word.repeatable())
    return word, part, rule(word.optional(), 'б')


def mixed():
    F = fact('F', ['a', attribute('c').repeatable()])
    same = Same()
    part = morph_pipeline(['а', 'б']).interpretation(F.c.normalized() if hasattr(F.c, 'normalized') else F.c)
    item = forward()
    item.define(or_(part, rule(part, ',', item)))
    return part, item.interpretation(F), rule(rule('в').match(same), item.match(same)).interpretation(F)


RECIPES = {
    _.__name__: _ for _ in (
        plain, extended, bounded, empties, lines, caseless_lines, morph_lines,
        morphs, types, word_sets, customs, tags, agreements, facts, normalisers,
        recursive, mutual, nested_forward, mixed
    )
}
TEXTS = (
    'а', 'б', 'в', 'а б', 'а-б', 'б в', 'б а', 'а а б', 'а а!', 'А-Б в', 'а 7',
    'б а в', 'а в', 'а, б', '(а) б', 'в а б', 'а-в', 'а б а'
)


# ------------------------------------------------------------- observations

def read(function):
    try:
        return function()
    except Exception as error:
        return (type(error).__name__, str(error))


def fact_of(match):
    if match is None:
        return None
    made = match.fact
    if hasattr(made, 'as_json'):
        return (repr(made), repr(made.as_json), tuple(map(tuple, made.spans)))
    return repr(made)


def behaviour(parser, texts=TEXTS):
    result = []
    for text in texts:
        match = read(lambda: parser.match(text))
        result.append((
            text,
            read(lambda: describe(match)),
            read(lambda: fact_of(match)),
            read(lambda: [describe(_) for _ in parser.extract(text)]),
        ))
    return result


def bnf(item):
    return read(lambda: tuple(item.normalized.as_bnf.source))


def dot(item):
    return read(lambda: tuple(item.as_dot.source))


def tree(item):
    """Structure of a rule as its drawing shows it, and its text."""
    return (read(lambda: repr(item)) if 'forward' not in repr(item).lower() else None)


def looks(item):
    return (
        bnf(item), dot(item),
        read(lambda: tuple(item.normalized.as_dot.source)),
    )


# ------------------------------------------------------------- operations

def build(item, name):
    tokenizer, tagger = CONTEXTS[name]
    return Parser(item, tokenizer=tokenizer, tagger=tagger)


def op_parse(item, parsers):
    parser = build(item, '1')
    for text in TEXTS[:6]:
        read(lambda: [_.tokens for _ in parser.findall(text)])
        read(lambda: parser.match(text).fact)
    parsers.append(parser)


def op_first(item, parsers):
    parsers.append(build(item, '1'))


def op_second(item, parsers):
    parsers.append(build(item, '2'))


def op_second_parse(item, parsers):
    parser = build(item, '2')
    for text in TEXTS[:6]:
        read(lambda: [_.tokens for _ in parser.extract(text)])
    parsers.append(parser)


def op_normalise(item, parsers):
    return item.normalized


def op_bnf(item, parsers):
    return list(item.normalized.as_bnf.source)


def op_dot(item, parsers):
    return list(item.as_dot.source)


def op_draw_normalised(item, parsers):
    return list(item.normalized.as_dot.source)


def op_activate(item, parsers):
    tokenizer, tagger = CONTEXTS['2']
    return item.activate(Context(tokenizer, tagger or PassTagger()))


def op_derive(item, parsers):
    F = fact('Z', ['z'])
    for derived in (
            item.optional(), item.repeatable(), item.repeatable(min=2, max=3),
            item.named('Z'), item.interpretation(F.z).interpretation(F),
            item.match(Same()), rule(item, item), or_(item, rule('а'))):
        read(lambda: build(derived, '1').match('а'))


def op_walk(item, parsers):
    return [repr(_) for _ in item.walk()]


OPERATIONS = {
    'parse': op_parse, 'build': op_first, 'build with other tokenizer': op_second,
    'parse with other tokenizer': op_second_parse,
    'normalise': op_normalise, 'print': op_bnf, 'draw': op_dot,
    'draw normalised': op_draw_normalised,
    'activate': op_activate, 'derive': op_derive, 'walk': op_walk,
}
TARGETS = ('part', 'whole', 'other')


@functools.lru_cache(None)
def fresh(name, index, texts):
    """Behaviour of a freshly written copy nothing else was done to."""
    result = [looks(RECIPES[name]()[index])]
    for context in sorted(CONTEXTS):
        result.append(read(
            lambda: behaviour(build(RECIPES[name]()[index], context), texts)
        ))
    return result


@functools.lru_cache(None)
def alone(name, index, operation, texts):
    """Parsers the operation leaves, built from a fresh copy."""
    parsers = []
    read(lambda: OPERATIONS[operation](RECIPES[name]()[index], parsers))
    return [behaviour(_, texts) for _ in parsers]


@functools.lru_cache(None)
def telling(name, count=3):
    """A few texts the rules of the recipe treat differently."""
    chosen = []
    seen = set()
    for text in sorted(TEXTS, key=len, reverse=True):
        key = repr([
            item for index in range(len(TARGETS))
            for item in fresh(name, index, (text,))[1:]
        ]).replace(text, '')
        if key not in seen:
            seen.add(key)
            chosen.append(text)
    return tuple(chosen[:count]) + ('б',)


def histories(depth, recipes=None, operations=None):
    steps = [
        (operation, index)
        for operation in sorted(operations or OPERATIONS)
        for index in range(len(TARGETS))
    ]
    for name in sorted(recipes or RECIPES):
        for size in range(1, depth + 1):
            for history in itertools.product(steps, repeat=size):
                yield (name, history)


def difference(first, second):
    if isinstance(first, (list, tuple)) and isinstance(second, (list, tuple)):
        if len(first) == len(second):
            for one, other in zip(first, second):
                if one != other:
                    return difference(one, other)
    return '%r, expected %r' % (first, second)


def run_all(case, counter):
    run(case, counter, TEXTS)


def run(case, counter, texts=None):
    name, history = case
    texts = texts or telling(name)
    items = RECIPES[name]()
    earlier = []
    for operation, index in history:
        parsers = []
        outcome = read(lambda: OPERATIONS[operation](items[index], parsers))
        earlier.append((operation, index, parsers))
        counter.step()
        counter.state(name, len(earlier), history[:len(earlier)])
    where = 'rule %r after %s' % (name, ', '.join(
        '%s %s' % (operation, TARGETS[index]) for operation, index in history
    ))
    for index, target in enumerate(TARGETS):
        expected = fresh(name, index, texts)
        counter.trace()
        actual = looks(items[index])
        if actual != expected[0]:
            raise Mismatch('%s: %s looks different: %s' % (
                where, target, difference(actual, expected[0])
            ))
        for number, context in enumerate(sorted(CONTEXTS)):
            counter.step()
            counter.trace()
            actual = read(lambda: behaviour(build(items[index], context), texts))
            if actual != expected[number + 1]:
                raise Mismatch('%s: parser %s of %s: %s' % (
                    where, context, target,
                    difference(actual, expected[number + 1])
                ))
    for operation, index, parsers in earlier:
        expected = alone(name, index, operation, texts)
        actual = [behaviour(_, texts) for _ in parsers]
        counter.trace(len(parsers))
        if actual != expected:
            raise Mismatch('%s: the parser left by %s %s changed: %s' % (
                where, operation, TARGETS[index], difference(actual, expected)
            ))


# ------------------------------------------------ one tokenizer, changed

class Others(Tagger):
    tags = {'T', 'U'}

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token if index % 2 else token.tagged('T')


CHANGES = {
    'add': lambda _: _.add_rules(TokenRule('М', r'[а-я]-[а-я]')),
    'remove': lambda _: _.remove_types(INT),
    'retype': lambda _: _.add_rules(TokenRule(INT, r'б')),
}
TAGGERS = {'no': None, 'T': Labels(), 'TU': Others()}
CHANGE_STEPS = ['change ' + _ for _ in sorted(CHANGES)] + [
    kind + _ for kind in ('build ', 'parse ') for _ in sorted(TAGGERS)
]


def change_cases(depth):
    def cases():
        for name in sorted(RECIPES):
            for size in range(1, depth + 1):
                for steps in itertools.product(CHANGE_STEPS, repeat=size):
                    if steps[-1].startswith('change') and size > 1:
                        # at the end all the taggers are used anyway
                        changed = [_ for _ in steps if _.startswith('change')]
                        if len(changed) != len(set(changed)):
                            continue
                    for index in range(len(TARGETS)):
                        yield (name, steps, index)
    return cases


@functools.lru_cache(None)
def changed(name, changes, tagger, index, texts):
    tokenizer = stub.tokenizer(FIRST)
    for change in changes:
        read(lambda: CHANGES[change](tokenizer))
    return read(lambda: behaviour(
        Parser(RECIPES[name]()[index], tokenizer=tokenizer, tagger=TAGGERS[tagger]), texts
    ))


def run_change(case, counter):
    name, steps, index = case
    texts = telling(name)
    item = RECIPES[name]()[index]
    tokenizer = stub.tokenizer(FIRST)
    changes = ()
    for step in steps:
        kind, value = step.split()
        counter.step()
        if kind == 'change':
            read(lambda: CHANGES[value](tokenizer))
            changes += (value,)
        else:
            parser = read(lambda: Parser(item, tokenizer=tokenizer, tagger=TAGGERS[value]))
            if kind == 'parse' and isinstance(parser, Parser):
                actual = read(lambda: behaviour(parser, texts))
                if actual != changed(name, changes, value, index, texts):
                    raise Mismatch('rule %r after %r: parser with tagger %s: %s' % (
                        name, steps, value,
                        difference(actual, changed(name, changes, value, index, texts))))
    counter.state(case)
    for tagger in sorted(TAGGERS):
        actual = read(lambda: behaviour(
            Parser(item, tokenizer=tokenizer, tagger=TAGGERS[tagger]), texts
        ))
        counter.trace()
        expected = changed(name, changes, tagger, index, texts)
        if actual != expected:
            raise Mismatch('rule %r %s after %r on one tokenizer: parser with tagger %s: %s' % (
                name, TARGETS[index], steps, tagger, difference(actual, expected)
            ))


# ------------------------------------------------ defined later

def later_list():
    part = forward()
    items = part, rule(part, 'в'), part.named('X').optional()
    return items, lambda: part.define(or_(rule('а', part), rule('б')))


def later_second():
    left, right = forward(), forward()
    left.define(or_(rule('а'), rule('а', right)))
    items = left, right, rule(left.repeatable(), right.optional())
    return items, lambda: right.define(or_(rule('б', left), rule('в')).named('R'))


def later_inside():
    F = fact('F', ['x'])
    word = forward()
    outer = forward()
    outer.define(or_(rule(word), rule('(', outer, ')')))
    items = word.interpretation(F.x).interpretation(F), outer, rule(outer, eq('б')).repeatable(max=2)
    return items, lambda: word.define(morph_pipeline(['а', 'а-б', 'в']))


def later_bounds():
    word = forward()
    items = word.repeatable(min=2), word.optional().repeatable(), rule(word, '!').repeatable(max=2)
    return items, lambda: word.define(rule('а').repeatable(max=2))


LATER = {_.__name__: _ for _ in (later_list, later_second, later_inside, later_bounds)}


@functools.lru_cache(None)
def defined(name, index):
    items, define = LATER[name]()
    define()
    return [looks(items[index])] + [
        read(lambda: behaviour(build(items[index], context)))
        for context in sorted(CONTEXTS)
    ]


def later_cases(depth):
    steps = list(itertools.product(sorted(OPERATIONS), range(len(TARGETS))))
    for name in sorted(LATER):
        for size in range(depth + 1):
            for history in itertools.product(steps, repeat=size):
                yield (name, history)


def run_later(case, counter):
    """What is done to a rule before a forward in it is defined leaves no trace."""
    name, history = case
    items, define = LATER[name]()
    for operation, index in history:
        read(lambda: OPERATIONS[operation](items[index], []))
        counter.step()
    define()
    for index in range(len(items)):
        expected = defined(name, index)
        actual = [looks(items[index])] + [
            read(lambda: behaviour(build(items[index], context), ))
            for context in sorted(CONTEXTS)
        ]
        counter.state(case, index)
        counter.step(len(CONTEXTS))
        counter.trace(1 + len(CONTEXTS))
        if actual != expected:
            raise Mismatch('rule %r defined after %s: %s' % (
                name, ', '.join('%s %s' % (operation, TARGETS[_]) for operation, _ in history),
                difference(actual, expected)
            ))


# ------------------------------------------------ what rules are made of

def containers():
    """Name, mutable value given by user, rule made of it."""
    F = fact('F', ['a', attribute('c').repeatable()])
    words = pipeline(['а'])
    yield 'in_', {'а', 'Б'}, lambda _: rule(in_(_))
    yield 'in_caseless', {'а', 'Б'}, lambda _: rule(in_caseless(_))
    yield 'in_ list', ['а', 'Б'], lambda _: rule(in_(_))
    yield 'in_caseless list', ['а', 'Б'], lambda _: rule(in_caseless(_))
    yield 'dictionary', {'а', 'в'}, lambda _: rule(dictionary(_))
    yield 'dictionary list', ['а', 'в'], lambda _: rule(dictionary(_))
    yield 'pipeline', ['а-б', 'А', 'а'], lambda _: rule(pipeline(_))
    yield 'caseless_pipeline', ['а-б', 'А', 'а'], lambda _: rule(caseless_pipeline(_))
    yield 'morph_pipeline', ['а-б', 'А', 'в'], lambda _: morph_pipeline(_)
    yield 'custom types', ['RU', 'PUNCT'], lambda _: rule(custom(differs, types=_))
    yield 'inflected', {'r0', 'NOUN'}, lambda _: rule(eq('а').interpretation(F.a.inflected(_))).interpretation(F)
    yield 'const', ['x'], lambda _: rule(eq('а').interpretation(F.a.const(_))).interpretation(F)
    yield 'rules', [rule('а'), rule('б')], lambda _: or_(*_)
    yield 'terms', [eq('а'), words, rule('б').optional()], lambda _: rule(*_)
    yield 'predicates', [eq('а'), gram('NOUN')], lambda _: rule(and_(*_))
    yield 'relations', [Same(), Same()], lambda _: rule('а').match(and_(*_))
    yield 'attributes', ['x', attribute('y', 1), attribute('z').repeatable()], lambda _: rule(
        eq('а').interpretation(fact('H', _).x)).repeatable()


def container_cases():
    for number, (name, _, _) in enumerate(containers()):
        yield (number, name)


def contents(value):
    return sorted(map(repr, value)) if isinstance(value, set) else [(id(_), repr(_)) for _ in value]


def run_container(case, counter):
    number, name = case
    _, value, make = list(containers())[number]
    before = contents(value)
    for first in OPERATIONS:
        for second in OPERATIONS:
            item = make(value)
            for operation in (first, second):
                read(lambda: OPERATIONS[operation](item, []))
                counter.state(case, first, second, operation)
                counter.step()
                counter.trace()
                if contents(value) != before:
                    raise Mismatch('%s given to %s is changed by %s after %s: %r' % (
                        type(value).__name__, name, operation, first, value
                    ))


# ------------------------------------------------ given one by one

# words given by an iterator, that can be read once
ITERATED = {
    'dictionary': lambda _: rule(dictionary(_)),
    'shared dictionary': lambda _: (lambda d: rule(d, d.optional()))(dictionary(_)),
    'shared rule': lambda _: (lambda d: or_(rule(d, 'а'), rule(d)))(rule(dictionary(_))),
    'not dictionary': lambda _: rule(not_(dictionary(_))),
    'and dictionary': lambda _: rule(and_(dictionary(_), gram('NOUN'))),
    'in_caseless': lambda _: rule(in_caseless(_)),
    'pipeline': lambda _: rule(pipeline(_)),
    'caseless_pipeline': lambda _: rule(caseless_pipeline(_)),
    'morph_pipeline': lambda _: morph_pipeline(_),
    'shared pipeline': lambda _: (lambda d: rule(d, d.optional()))(morph_pipeline(_)),
}


def iterated_cases(depth):
    for name in sorted(ITERATED):
        for source in ('iterator', 'generator', 'tuple', 'values'):
            for size in range(depth + 1):
                for history in itertools.product(sorted(OPERATIONS), repeat=size):
                    yield (name, source, history)


def run_iterated(case, counter):
    name, source, history = case
    words = ['а', 'Б', 'в']
    if source == 'iterator':
        given = iter(words)
    elif source == 'generator':
        given = (_ for _ in words)
    elif source == 'tuple':
        given = tuple(words)
    else:
        given = dict(enumerate(words)).values()
    item = ITERATED[name](given)
    for operation in history:
        read(lambda: OPERATIONS[operation](item, []))
        counter.step()
    for context in sorted(CONTEXTS):
        counter.state(case, context)
        counter.trace()
        actual = behaviour(build(item, context))
        expected = behaviour(build(ITERATED[name](words), context))
        if actual != expected:
            raise Mismatch('%s of words given as %s after %r: %s' % (
                name, source, history,
                next((a, b) for a, b in zip(actual, expected) if a != b)
            ))


# ------------------------------------------------ predicates called alone

def direct_cases():
    from checks import c11
    for expression in itertools.chain(c11.basic(), c11.level(c11.LEAFS, 1)):
        if not c11.names(expression) & set(c11.SCHEMES):
            yield expression


def run_direct(expression, counter):
    """A predicate means the same before parsers of it are built and after."""
    from checks import c11
    tokens = [c11.make_token(_) for _ in c11.TOKENS]
    for first in sorted(OPERATIONS):
        for second in sorted(OPERATIONS):
            predicate = c11.build(expression)
            before = [bool(predicate(_)) for _ in tokens]
            item = rule(predicate)
            for operation in (first, second):
                read(lambda: OPERATIONS[operation](item, []))
                counter.state(expression, first, second, operation)
                counter.step()
                counter.trace()
                after = [bool(predicate(_)) for _ in tokens]
                if after != before:
                    raise Mismatch('%r after %s and %s differs on %r' % (
                        expression, first, second,
                        [a for a, b, c in zip(tokens, before, after) if b != c]
                    ))


class C05(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        few = ('parse', 'parse with other tokenizer', 'print', 'draw normalised', 'activate')
        result = [
            Family('single', lambda: histories(1), run_all,
                   '%d rules, each of %d operations on each of 3 rules that share parts' % (
                       len(RECIPES), len(OPERATIONS))),
        ]
        result.append(Family(
            'one tokenizer', change_cases(3 if deep else 2), run_change,
            'all histories of up to %d of %d changes of a tokenizer and parsers of it with 3 taggers' % (
                3 if deep else 2, len(CHANGE_STEPS))
        ))
        result.append(Family(
            'containers', container_cases, run_container,
            'lists and sets rules are made of, all pairs of operations'
        ))
        result.append(Family(
            'direct', direct_cases, run_direct,
            'predicates called alone, all pairs of operations'
        ))
        result.append(Family(
            'iterated', lambda: iterated_cases(2 if deep else 1), run_iterated,
            'words given by iterators, all histories of up to %d operations' % (2 if deep else 1)
        ))
        result.append(Family(
            'later', lambda: later_cases(2 if deep else 1), run_later,
            'all histories of up to %d operations before a forward is defined' % (2 if deep else 1)
        ))
        if deep:
            return result + [
                Family('pairs', lambda: histories(2), run,
                       'all histories of up to 2 of %d operations' % len(OPERATIONS)),
                Family('longer', lambda: histories(3, operations=few), run,
                       'all histories of up to 3 of %d operations' % len(few)),
            ]
        return result + [
            Family('pairs', lambda: histories(2, operations=few), run,
                   'all histories of up to 2 of %d operations' % len(few)),
        ]


CHECK = C05(
    'C05',
    rule='state = (rule, history of operations); transition = one operation or '
         'one parser built at the end; trace = one behaviour compared with the '
         'one of a fresh copy'
)
