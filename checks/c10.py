"""C10: a reconfigured tokenizer equals a freshly built one."""
import itertools
import re

from mc.core import Check, Family, Mismatch
from mc import stub
from mc.yg import Parser
from checks.c09 import observe, expected_rules, CLASSES

from yargy import rule
from yargy import tokenizer as module
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule
from yargy.predicates import type as type_

# added rules: a new type, an old type, a pattern over an old one
A = ('A', r'a')
AB = ('AB', r'ab')
W = ('LATIN', r'[a-z0-9]+')
INT1 = ('INT', r'1')
SPACE = ('SPACE', r'[ ]')
# with groups, with a place in the text
GROUPS = ('GROUPS', r'(a)(b)|((1)1)')
PLACES = ('PLACES', r'^a|(1)$|(?<=a)b')

BASES = {
    'default': None,
    'empty': (),
    'repeated': (A, ('INT', r'\d+'), A, ('A', r'b'), A, ('LATIN', r'[a-z]+'), A, ('LATIN', r'[a-z]+')),
    'any first': (('OTHER', r'[.1]'), ('A', r'a'), ('OTHER', r'a|b'), ('LATIN', r'[a-z]+'), ('EOL', r'\s'), ('INT', r'\d+'), ('PUNCT', r'\.')),
    'list': (('LATIN', r'[a-z]+'), ('INT', r'\d+'), ('DOT', r'\.')),
}

OPERATIONS = (
    ('add', (A,)),
    ('add', (AB, A)),
    ('add', (W,)),
    ('add', (INT1, SPACE)),
    ('remove', ('LATIN',)),
    ('remove', ('A',)),
    ('remove', ('INT', 'LATIN')),
    ('remove', ('INT', 'NONE')),
    ('remove', ()),
    ('add', ()),
    ('remove', ('EOL',)),
    ('add-bad', ()),
    ('add-broken', ()),
    ('add', (GROUPS,)),
    ('add', (PLACES, A)),
)

TYPES = ('A', 'AB', 'GROUPS', 'PLACES', 'LATIN', 'INT', 'SPACE', 'DOT', 'EOL', 'RU', 'NONE', 'PUNCT', 'OTHER')

TEXTS = (
    '', 'a', 'ab', 'ab1', '1a', '11', 'a b', 'abab 1.a', 'b.1\na', 'aab11ab .\n',
    'я a1é',
)

MORPH = stub.analyzer({})
DEFAULT = [(_.type, _.pattern) for _ in module.RULES]
# what the default list has to give whatever happened to other tokenizers
DEFAULT_RESULTS = {_: expected_rules(DEFAULT, _) for _ in TEXTS}


def apply(rules, operation):
    """(new rule list, error)"""
    kind, items = operation
    if kind == 'add':
        return list(items) + rules, None
    if kind == 'add-bad':
        return rules, TypeError
    if kind == 'add-broken':
        return rules, re.error
    known = {type for type, _ in rules}
    if any(_ not in known for _ in items):
        return rules, ValueError
    return [_ for _ in rules if _[0] not in items], None


def perform(tokenizer, operation):
    kind, items = operation
    if kind == 'add':
        return tokenizer.add_rules(*(TokenRule(*_) for _ in items))
    if kind == 'add-bad':
        return tokenizer.add_rules(TokenRule(*A), 'LATIN')
    if kind == 'add-broken':
        return tokenizer.add_rules(TokenRule(*AB), TokenRule('NONE', '('))
    return tokenizer.remove_types(*items)


def construct(kind, base):
    rules = BASES[base]
    args = [] if rules is None else [[TokenRule(*_) for _ in rules]]
    if kind == 'morph':
        tokenizer = MorphTokenizer(*args, morph=MORPH)
    else:
        tokenizer = Tokenizer(*args)
    return tokenizer, (DEFAULT if rules is None else list(rules)), args


def check_tokenizer(tokenizer, rules, where):
    fresh = type(tokenizer)(
        [TokenRule(*_) for _ in rules],
        **({'morph': MORPH} if isinstance(tokenizer, MorphTokenizer) else {})
    )
    for text in TEXTS:
        tokens = list(tokenizer(text))
        actual = observe(tokens)
        expected = expected_rules(rules, text)
        if actual != expected:
            raise Mismatch('%s: tokens of %r are %r, expected %r' % (
                where, text, actual, expected
            ))
        others = list(fresh(text))
        if tokens != others:
            raise Mismatch('%s: tokens of %r differ from those of a new tokenizer: %r %r' % (
                where, text, tokens, others
            ))
        if tokenizer.split(text) != [_[0] for _ in expected]:
            raise Mismatch('%s: split(%r)' % (where, text))
    known = {type for type, _ in rules}
    for type_name in TYPES:
        try:
            Parser(rule(type_(type_name)), tokenizer=tokenizer)
            accepted = True
        except ValueError:
            accepted = False
        if accepted != (type_name in known):
            raise Mismatch('%s: type(%r) is %s, types are %r' % (
                where, type_name, 'accepted' if accepted else 'refused', sorted(known)
            ))


def run_history(case, counter):
    kind, base, history = case
    tokenizer, rules, args = construct(kind, base)
    # another tokenizer over the same list object, and one of its own
    sibling = type(tokenizer)(
        *args, **({'morph': MORPH} if kind == 'morph' else {})
    )
    sibling_rules = list(rules)
    counter.state(kind, base, rules)
    for position, index in enumerate(history):
        operation = OPERATIONS[index]
        where = '%s %s after %r' % (
            kind, base, [OPERATIONS[_] for _ in history[:position + 1]]
        )
        rules, error = apply(rules, operation)
        counter.step()
        try:
            result = perform(tokenizer, operation)
            raised = None
        except (ValueError, TypeError, re.error) as caught:
            raised = type(caught)
        if raised is not error:
            raise Mismatch('%s raised %r, expected %r' % (where, raised, error))
        if error is None and result is not tokenizer:
            raise Mismatch('%s does not return the tokenizer' % where)
    counter.state(kind, base, rules)
    where = '%s %s after %r' % (kind, base, [OPERATIONS[_] for _ in history])
    counter.trace()
    check_tokenizer(tokenizer, rules, where)
    check_tokenizer(sibling, sibling_rules, 'other tokenizer, ' + where)
    if args and [(_.type, _.pattern) for _ in args[0]] != list(BASES[base]):
        raise Mismatch('%s: the list it was given is changed' % where)
    if [(_.type, _.pattern) for _ in module.RULES] != DEFAULT:
        raise Mismatch('%s: the default list is changed' % where)
    for text in TEXTS:
        if observe(Tokenizer()(text)) != DEFAULT_RESULTS[text]:
            raise Mismatch('%s: a new default tokenizer gives %r on %r' % (
                where, observe(Tokenizer()(text)), text
            ))


def histories(depth, kinds=('plain', 'morph'), bases=tuple(BASES)):
    def cases():
        for size in range(depth + 1):
            for history in itertools.product(range(len(OPERATIONS)), repeat=size):
                for kind in kinds:
                    for base in bases:
                        yield (kind, base, history)
    return cases


def run_pair(case, counter):
    """Two tokenizers over one list, operations interleaved."""
    base, history = case
    rules = BASES[base]
    args = [] if rules is None else [[TokenRule(*_) for _ in rules]]
    tokenizers = [Tokenizer(*args), Tokenizer(*args)]
    models = [list(DEFAULT if rules is None else rules) for _ in tokenizers]
    for number, index in history:
        models[number], error = apply(models[number], OPERATIONS[index])
        counter.step()
        try:
            perform(tokenizers[number], OPERATIONS[index])
        except (ValueError, TypeError, re.error):
            if error is None:
                raise
    counter.state(case)
    for tokenizer, model in zip(tokenizers, models):
        counter.trace()
        check_tokenizer(tokenizer, model, 'two tokenizers, %r' % (history,))


def pairs(depth):
    moves = [
        (number, index)
        for number in (0, 1)
        for index in (0, 2, 4, 6, 7)
    ]

    def cases():
        for history in itertools.product(moves, repeat=depth):
            for base in BASES:
                yield (base, history)
    return cases


def run_live(case, counter):
    """Reconfiguration while tokens of a text are being read."""
    base, steps, index = case
    tokenizer, rules, _ = construct('plain', base)
    text = 'ab1 a.11 ab'
    stream = tokenizer(text)
    got = list(itertools.islice(stream, steps))
    changed, error = apply(rules, OPERATIONS[index])
    try:
        perform(tokenizer, OPERATIONS[index])
    except (ValueError, TypeError, re.error):
        pass
    counter.step()
    counter.state(case)
    counter.trace()
    got.extend(stream)
    if observe(got) != expected_rules(rules, text) and steps > 0:
        raise Mismatch('tokens that are being read change: %r' % (observe(got),))
    check_tokenizer(tokenizer, changed, 'live %r' % (case,))


def live():
    for base in BASES:
        for steps in range(6):
            for index in range(len(OPERATIONS)):
                yield (base, steps, index)


# rule lists that look alike
ALIKE = (
    (('A', 'a'), ('B', 'b')),
    (('A', 'b'), ('B', 'a')),
    (('B', 'a'), ('A', 'b')),
    (('B', 'b'), ('A', 'a')),
    (('A', 'a'), ('B', 'a')),
    (('B', 'a'), ('A', 'a')),
    (('A', 'a|b'), ('B', 'b')),
    (('A', 'a'), ('B', 'b|a')),
    (('A', 'a'), ('A', 'b')),
    (('A', 'a'),),
    (('A', 'b'),),
    (('B', 'a'),),
    (('A', 'ab'), ('B', 'b')),
    (('A', '[ab]+'), ('B', '[ b]+')),
    (('A', '(a)(b)'), ('B', 'a|b')),
    (('B', 'a(b)'), ('A', '(a)|b')),
    (),
)
ALIKE_TEXTS = ['', 'a', 'b', 'ab', 'ba', 'a b', 'aabb ab', 'AB']


def run_alike(case, counter):
    made = []
    for number, index in enumerate(case):
        rules = [TokenRule(*_) for _ in ALIKE[index]]
        if number % 2:
            tokenizer = Tokenizer([]).add_rules(*rules)
        else:
            tokenizer = Tokenizer(rules)
        made.append((index, tokenizer))
        counter.step()
        counter.state(case[:number + 1])
    # the last one changes to each of the others and back to nothing
    for index in case:
        made[-1][1].remove_types(*sorted({_.type for _ in made[-1][1].rules}))
        made[-1][1].add_rules(*(TokenRule(*_) for _ in ALIKE[index]))
        made[-1] = (index, made[-1][1])
        for number, (index, tokenizer) in enumerate(made):
            for text in ALIKE_TEXTS:
                counter.trace()
                actual, expected = observe(tokenizer(text)), expected_rules(ALIKE[index], text)
                if actual != expected:
                    raise Mismatch('tokenizer %d of those with rules %r: tokens of %r are %r, expected %r' % (
                        number, [ALIKE[_] for _ in case], text, actual, expected
                    ))


def alike(count):
    def cases():
        for size in range(2, count + 1):
            for case in itertools.product(range(len(ALIKE)), repeat=size):
                yield case
    return cases


def many_rules():
    for count in (1, 2, 10, 99, 100, 101, 200, 1000):
        for way in ('new', 'one', 'each'):
            if way != 'each' or count <= 101:
                yield (count, way)


def run_many(case, counter):
    # long rule lists
    count, way = case
    rules = [('T%d' % _, '%dx' % _) for _ in range(count)]
    rules.reverse()
    made = [TokenRule(*_) for _ in rules]
    if way == 'new':
        tokenizer = Tokenizer(made)
    elif way == 'one':
        tokenizer = Tokenizer([]).add_rules(*made)
    else:
        tokenizer = Tokenizer([])
        for item in reversed(made):
            tokenizer.add_rules(item)
    gone = ['T%d' % _ for _ in range(0, count, 3)]
    text = ' '.join('%dx' % _ for _ in range(count + 1))
    for removed in (False, True):
        if removed:
            tokenizer.remove_types(*gone)
            rules = [_ for _ in rules if _[0] not in gone]
        counter.state(case, removed)
        counter.step()
        counter.trace()
        actual, expected = observe(tokenizer(text)), expected_rules(rules, text)
        if actual != expected:
            raise Mismatch('%d rules, %s, removed %s: %r, expected %r' % (
                count, way, removed, repr(actual)[:200], repr(expected)[:200]
            ))


# how the list of rules is given
SOURCES = {
    'list': list,
    'tuple': tuple,
    'iterator': iter,
    'generator': lambda _: (item for item in _),
    'values': lambda _: dict(enumerate(_)).values(),
}


def source_cases(depth):
    for source in sorted(SOURCES):
        for kind in ('plain', 'morph'):
            for base in sorted(BASES):
                for later in ('nothing', 'append', 'clear', 'reverse'):
                    for size in range(depth + 1):
                        for history in itertools.product((0, 2, 4, 6, 12), repeat=size):
                            yield (source, kind, base, later, history)


def run_source(case, counter):
    source, kind, base, later, history = case
    rules = list(DEFAULT if BASES[base] is None else BASES[base])
    items = [TokenRule(*_) for _ in rules]
    given = SOURCES[source](items)
    if kind == 'morph':
        tokenizer = MorphTokenizer(given, morph=MORPH)
    else:
        tokenizer = Tokenizer(given)
    # the list changes when it has been given
    if source in ('list', 'values'):
        container = given if source == 'list' else items
        if later == 'append':
            container.append(TokenRule('OTHER', '.'))
        elif later == 'clear':
            del container[:]
        elif later == 'reverse':
            container.reverse()
    where = '%s rules, given as %s, then %s, then %r' % (base, source, later, [OPERATIONS[_] for _ in history])
    for index in history:
        rules, error = apply(rules, OPERATIONS[index])
        counter.step()
        try:
            perform(tokenizer, OPERATIONS[index])
        except (ValueError, TypeError, re.error) as caught:
            if type(caught) is not error:
                raise
        else:
            if error:
                raise Mismatch('%s: no %r' % (where, error))
    counter.state(case)
    counter.trace()
    check_tokenizer(tokenizer, rules, where)


class C10(Check):
    def families(self, tier):
        quick = tier == 'quick'
        return [
            Family('history', histories(2), run_history,
                   'all histories of 0..2 of %d operations, 2 kinds x 3 rule lists' % len(OPERATIONS)),
            Family('history3', histories(3 if quick else 4, ('plain',), ('default', 'list') if quick else tuple(BASES)),
                   run_history, 'all histories of up to %d operations' % (3 if quick else 4)),
            Family('two', pairs(2 if quick else 3), run_pair,
                   'operations on two tokenizers over one list'),
            Family('alike', alike(2 if quick else 3), run_alike,
                   'all sequences of up to %d of %d rule lists that look alike' % (2 if quick else 3, len(ALIKE))),
            Family('sources', lambda: source_cases(1 if quick else 2), run_source,
                   '%d ways to give the list of rules, that changes later' % len(SOURCES)),
            Family('many', many_rules, run_many, 'lists of up to 1000 rules'),
            Family('live', live, run_live, 'reconfiguration in the middle of a text'),
        ]


CHECK = C10(
    'C10',
    rule='state = rule list of the tokenizer; transition = one add_rules or '
         'remove_types; trace = one reconfigured tokenizer compared with a '
         'model and with a new tokenizer on all texts and types',
)
