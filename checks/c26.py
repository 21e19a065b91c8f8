"""C26: parsing ready-made tokens equals parsing their text."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, stub
from mc.yg import Parser, ReadyTokenizer, describe, describe_token

from yargy import rule, or_
from yargy.interpretation import fact
from yargy.pipelines import morph_pipeline, caseless_pipeline
from yargy.predicates import gram, normalized, dictionary, eq, is_single, true
from yargy.relations import number_relation
from yargy.span import Span
from yargy.tagger import TaggersComposition
from yargy.token import Token

from checks import c05, c14

TOKENIZER = stub.tokenizer(c05.FIRST)
READY = ReadyTokenizer(TOKENIZER)
WORDS = ('а', 'б', 'в', '!', '-')
NAMES = [(name, index) for name in sorted(c05.RECIPES) for index in range(3)]


class Idle(c05.Labels):
    """Leaves tokens as they are."""

    def __call__(self, tokens):
        return tokens


@functools.lru_cache(None)
def recipe(name, index):
    return c05.RECIPES[name]()[index]


@functools.lru_cache(None)
def parsers(name, index, tagged=True):
    """For the text, for ready tokens. The same rule."""
    item = recipe(name, index)
    return (
        Parser(item, tokenizer=TOKENIZER, tagger=c05.Labels() if tagged else Idle()),
        Parser(item, tokenizer=READY, tagger=c05.Labels() if tagged else Idle()),
    )


def fact_of(match):
    return c05.read(lambda: (
        repr(match.fact), repr(match.fact.as_json), [tuple(_) for _ in match.fact.spans]
    ))


def shape(tree):
    return tuple(
        (_.label, len(_.children)) for _ in tree.walk()
    )


def everything(parser, make):
    """make() gives the argument for every call."""
    result = []
    for method in ('match', 'find', 'findall', 'extract'):
        value = getattr(parser, method)(make())
        for match in [value] if method in ('match', 'find') else value:
            result.append((method, None if match is None else (
                describe(match), shape(match.tree), fact_of(match)
            )))
    return result


def snapshot(tokens):
    """Everything a token has, also which readings it has."""
    return [
        (id(_), describe_token(_), [
            (id(form), form.normalized, sorted(form.grams.values))
            for form in getattr(_, 'forms', ())
        ])
        for _ in tokens
    ]


# ------------------------------------------------ equal to the text

def text_cases(size):
    for count in range(size + 1):
        for letters in itertools.product(WORDS, repeat=count):
            yield letters


def run_text(letters, counter):
    for separator in (' ', ''):
        text = separator.join(letters)
        ready = list(TOKENIZER(text))
        before = snapshot(ready)
        listed = list(ready)
        for name, index in NAMES:
            first, second = parsers(name, index)
            expected = everything(first, lambda: text)
            for way, make in (
                    ('list', lambda: ready), ('iterator', lambda: iter(ready)),
                    ('tuple', lambda: tuple(ready)),
                    ('tokenizer', lambda: TOKENIZER(text))):
                actual = everything(second, make)
                counter.state(letters, separator, name, index, way)
                counter.step()
                counter.trace()
                if actual != expected:
                    raise Mismatch('rule %s %d, tokens of %r as %s: %s' % (
                        name, index, text, way, c05.difference(actual, expected)
                    ))
        # every rule has used the same list
        if snapshot(ready) != before or len(ready) != len(listed) or any(
                a is not b for a, b in zip(ready, listed)):
            raise Mismatch('tokens of %r are modified: %r, were %r' % (text, snapshot(ready), before))


# ------------------------------------------------ any subsequence, any offsets

def subsequence_cases(size):
    for letters in itertools.product(WORDS[:4], repeat=size):
        for name, index in NAMES:
            yield (letters, name, index)


def moved(result, mapping):
    """Offsets of one text to offsets of other."""
    start = {a: c for (a, b), (c, d) in mapping.items()}
    stop = {b: d for (a, b), (c, d) in mapping.items()}

    def move(span):
        return (start[span[0]], stop[span[1]])

    out = []
    for method, item in result:
        if item is not None:
            (span, tokens), tree, fact = item
            if isinstance(fact, tuple) and len(fact) == 3 and isinstance(fact[2], list):
                fact = fact[:2] + ([move(_) for _ in fact[2]],)
            item = (
                (move(span), tuple(_[:2] + (move(_[2]),) + _[3:] for _ in tokens)),
                tree, fact
            )
        out.append((method, item))
    return out


def run_subsequence(case, counter):
    letters, name, index = case
    first, second = parsers(name, index)
    text = ' '.join(letters)
    ready = list(TOKENIZER(text))
    before = snapshot(ready)
    for mask in range(1 << len(letters)):
        chosen = [_ for position, _ in enumerate(ready) if mask >> position & 1]
        other = ' '.join(_.value for _ in chosen)
        mapping = {
            tuple(a.span): tuple(b.span) for a, b in zip(TOKENIZER(other), chosen)
        }
        expected = moved(everything(first, lambda: other), mapping)
        for way, make in (('list', lambda: chosen), ('iterator', lambda: iter(chosen))):
            actual = everything(second, make)
            counter.state(case, mask, way)
            counter.step()
            counter.trace()
            if actual != expected:
                raise Mismatch('rule %s %d, %r of %r as %s: %s' % (
                    name, index, other, text, way, c05.difference(actual, expected)
                ))
    if snapshot(ready) != before:
        raise Mismatch('tokens of %r are modified' % text)


# ------------------------------------------------ any order

def permuted_cases(size):
    for letters in itertools.product(WORDS[:4], repeat=size):
        for name, index in NAMES:
            yield (letters, name, index)


def places(parser, argument, place):
    """Which words, with which readings, whatever their offsets are."""
    return [
        [[(place(_), describe_token(_)[:2] + describe_token(_)[3:]) for _ in match.tokens]
         for match in items if match is not None]
        for items in (
            [parser.match(argument())], [parser.find(argument())],
            list(parser.findall(argument())), list(parser.extract(argument())))
    ]


def run_permuted(case, counter):
    letters, name, index = case
    ready = list(TOKENIZER(' '.join(letters)))
    # any of them any number of times
    for order in itertools.product(range(len(ready)), repeat=len(ready)):
        # a tagger may copy tokens
        first, second = parsers(name, index, len(set(order)) == len(order))
        chosen = [ready[_] for _ in order]
        text = ' '.join(_.value for _ in chosen)
        starts = {_.span.start: position for position, _ in enumerate(TOKENIZER(text))}
        expected = places(first, lambda: text, lambda _: order[starts[_.span.start]])
        # tokens may be narrowed copies, the offsets are those of the first text
        where = {_.span.start: position for position, _ in enumerate(ready)}
        before = snapshot(chosen)
        ways = [('list', lambda: chosen)]
        if len(set(order)) == len(order):
            ways.append(('iterator', lambda: iter(chosen)))
        for way, make in ways:
            actual = places(second, make, lambda _: where[_.span.start])
            counter.state(case, order, way)
            counter.step()
            counter.trace()
            if actual != expected:
                raise Mismatch('rule %s %d, words %r from other places, as %s: %s' % (
                    name, index, text, way, c05.difference(actual, expected)
                ))
        if snapshot(chosen) != before:
            raise Mismatch('the list of words %r from other places is modified: %r' % (text, chosen))


# ------------------------------------------------ one token at several places of a phrase

def joined_cases(deep):
    cases = c14.equal_word_cases(2, ('flat2', 'flat3', 'flat4', 'mixed', 'two', 'nested', 'same', 'both2', 'repeated', 'chain'))
    if deep:
        cases = itertools.chain(cases, c14.equal_word_cases(3, ('flat2', 'mixed', 'same')))
    for case in cases:
        if case[2] == case[2].lower():
            yield case


def run_joined(case, counter):
    """Agreement of a word with itself, given as one token."""
    name, size, letters, given, masks = case
    words = [given[sorted(set(letters)).index(_)] for _ in letters]
    tables = [c14.table_pairs(size, _) for _ in masks]
    build, constraints, joined = c14.SHAPES[name]
    tokenizer = stub.tokenizer({
        letter: c14.readings_entry(letter, items) for letter, items in zip(letters, words)
    })
    tokens = {letter: next(iter(tokenizer(letter))) for letter in set(letters)}
    ready = [tokens[_] for _ in letters]
    before = snapshot(ready)
    parser = Parser(build(letters, [c14.Table(_) for _ in tables]), tokenizer=ReadyTokenizer(tokenizer))
    for _ in range(2):
        counter.state(case)
        counter.step()
        counter.trace()
        c14.judge(
            parser.match(ready), words, constraints(tables), joined,
            '%s, one token for every letter of %r, words %r, tables %r' % (
                name, letters, words, [sorted(_) for _ in tables])
        )
    if snapshot(ready) != before:
        raise Mismatch('the tokens of %r are modified: %r' % (letters, ready))


# ------------------------------------------------ long lists

def long_cases(limit):
    for size in enum.sizes(limit, 5):
        for name, index in (('plain', 1), ('facts', 0), ('morphs', 1)):
            yield (size, name, index)


def run_long(case, counter):
    size, name, index = case
    first, second = parsers(name, index)
    text = 'а ! б в - 7 ' * size
    ready = list(TOKENIZER(text))
    before = snapshot(ready)
    expected = [(describe(_), fact_of(_)) for _ in first.findall(text)]
    for way, make in (('list', lambda: ready), ('iterator', lambda: iter(ready))):
        actual = [(describe(_), fact_of(_)) for _ in second.findall(make())]
        counter.state(case, way)
        counter.step()
        counter.trace(len(actual))
        if actual != expected:
            raise Mismatch('rule %s %d, %d tokens as %s: %s' % (
                name, index, len(ready), way, c05.difference(actual, expected)
            ))
    if snapshot(ready) != before:
        raise Mismatch('a list of %d tokens is modified, %d left' % (len(before), len(ready)))


# ------------------------------------------------ many parsers, one list

def order_cases(count):
    for order in itertools.permutations(range(len(ORDERED)), count):
        for text in ('а б', 'а в б', 'б а-б в', 'а а!'):
            yield (order, text)


ORDERED = [
    ('morphs', 0), ('agreements', 1), ('agreements', 2), ('morph_lines', 1), ('tags', 0),
    ('facts', 0), ('normalisers', 1), ('recursive', 0), ('lines', 1), ('mixed', 0),
]
ORDERED = [_ for _ in ORDERED if _ in NAMES]


@functools.lru_cache(None)
def alone(name, index, text):
    _, parser = parsers(name, index)
    return everything(parser, lambda: list(TOKENIZER(text)))


def run_order(case, counter):
    """Results of earlier parsers are kept and read after the later ones."""
    order, text = case
    ready = list(TOKENIZER(text))
    before = snapshot(ready)
    kept = []
    for number in order:
        name, index = ORDERED[number]
        _, parser = parsers(name, index)
        match = parser.match(ready)
        found = list(parser.extract(ready))
        kept.append((name, index, match, found))
        counter.step()
    for name, index, match, found in kept:
        expected = alone(name, index, text)
        actual = [
            (method, None if _ is None else (describe(_), shape(_.tree), fact_of(_)))
            for method, items in (('match', [match]), ('extract', found)) for _ in items
        ]
        wanted = [_ for _ in expected if _[0] in ('match', 'extract')]
        counter.state(case, name, index)
        counter.trace()
        if actual != wanted:
            raise Mismatch('rule %s %d after %r with the same tokens of %r: %s' % (
                name, index, [ORDERED[_] for _ in order], text,
                c05.difference(actual, wanted)
            ))
    if snapshot(ready) != before:
        raise Mismatch('tokens of %r are modified by %r' % (text, [ORDERED[_] for _ in order]))


# ------------------------------------------------ words read in several ways

# what three tokenizers know about the same words
KNOWN = [
    stub.tokenizer(_) for _ in (
        {'а': [('х', ('NOUN',))], 'б': [('у', ('NOUN',))]},
        {'а': [('у', ('NOUN',))], 'б': [('х', ('VERB',)), ('у', ('NOUN',))]},
        {'а': [('а', ('PREP',)), ('х', ('PREP',))]},
    )
]
READ = {
    'lines': lambda: morph_pipeline(['х', 'у у', 'а']),
    'other lines': lambda: morph_pipeline(['у', 'х у']),
    'caseless': lambda: caseless_pipeline(['а', 'х б']),
    'normalized': lambda: rule(normalized('х')),
    'dictionary': lambda: rule(dictionary({'у', 'а'})),
    'gram': lambda: rule(gram('NOUN')),
    'agreed': lambda: (lambda _: rule(gram('NOUN').match(_), true().match(_)))(number_relation()),
}


@functools.lru_cache(None)
def reader(name, number):
    return Parser(READ[name](), tokenizer=ReadyTokenizer(KNOWN[number]))


def reading_cases(count):
    for names in itertools.permutations(sorted(READ), count):
        for letters in itertools.product('аб', repeat=2):
            yield (names, letters)


def run_readings(case, counter):
    """The same words read by three tokenizers, given to the same parsers."""
    names, letters = case
    text = ' '.join(letters)
    # parsers of this case have seen nothing
    made = {
        (name, number): Parser(READ[name](), tokenizer=ReadyTokenizer(KNOWN[number]))
        for name in names for number in range(len(KNOWN))
    }
    for order in itertools.permutations(range(len(KNOWN))):
        for name in names:
            for number in order:
                # what is known by the parser and what is known about the tokens
                for source in order:
                    ready = list(KNOWN[source](text))
                    actual = everything(made[name, number], lambda: ready)
                    fresh = Parser(READ[name](), tokenizer=ReadyTokenizer(KNOWN[number]))
                    expected = everything(fresh, lambda: list(KNOWN[source](text)))
                    counter.state(case, order, name, number, source)
                    counter.step()
                    counter.trace()
                    if actual != expected:
                        raise Mismatch('%s, text %r read by tokenizer %d, after other tokens: %s' % (
                            name, text, source, c05.difference(actual, expected)
                        ))
                    if source == number:
                        alone = everything(Parser(READ[name](), tokenizer=KNOWN[number]), lambda: text)
                        if actual != alone:
                            raise Mismatch('%s, tokens of %r: %s' % (
                                name, text, c05.difference(actual, alone)
                            ))
                        spans = {_[1][0][0] for _ in actual if _[1] and _[0] == 'extract'}
                        wanted = spans_of(name, number, letters)
                        if wanted is not None and spans != wanted:
                            raise Mismatch('%s, tokens of %r by tokenizer %d: found %r, expected %r' % (
                                name, text, number, spans, wanted
                            ))


def spans_of(name, number, letters):
    """By the definition, for dictionaries of lines."""
    lines = {'lines': ['х', 'у у', 'а'], 'other lines': ['у', 'х у']}.get(name)
    if lines is None:
        return None

    def normals(word):
        return {_.normalized for _ in KNOWN[number].morph(word)}

    result = set()
    for line in lines:
        line = line.split()
        for start in range(len(letters) - len(line) + 1):
            part = letters[start:start + len(line)]
            if all(normals(a) & normals(b) for a, b in zip(line, part)):
                result.add((start * 2, (start + len(line)) * 2 - 1))
    return result


# ------------------------------------------------ what is said about one word

VALUED = stub.tokenizer({
    'а': [('х', ('NOUN', 'sing')), ('у', ('VERB', 'plur'))],
    'б': [('я', ('ADJF', 'plur')), ('х', ('NOUN', 'sing')), ('у', ('VERB', 'sing'))],
})
CHOSEN = {
    'any': true, 'noun': lambda: gram('NOUN'), 'verb': lambda: gram('VERB'),
    'single': is_single, 'known': lambda: normalized('у'), 'line': lambda: morph_pipeline(['х', 'у']),
}
SAID = {
    'as is': lambda _: _, 'normalized': lambda _: _.normalized(),
    'inflected': lambda _: _.inflected({'plur'}),
}
SAYERS = list(itertools.product(sorted(CHOSEN), sorted(SAID)))


@functools.lru_cache(None)
def sayer(number, agreed):
    name, how = SAYERS[number]
    F = fact('F', ['a', 'b'])
    relation = number_relation()

    def word(item, attribute):
        item = item.interpretation(SAID[how](attribute))
        return item.match(relation) if agreed else item

    return Parser(rule(
        word(CHOSEN[name](), F.a), word(true(), F.b)
    ).interpretation(F), tokenizer=ReadyTokenizer(VALUED))


@functools.lru_cache(None)
def said(number, agreed, text):
    return [(describe(_), fact_of(_)) for _ in sayer(number, agreed).findall(list(VALUED(text)))]


def said_cases(count):
    for numbers in itertools.permutations(range(len(SAYERS)), count):
        if len({SAYERS[_][1] for _ in numbers} | {'as is'}) > 2:
            continue
        yield numbers


def run_said(numbers, counter):
    for text in ('а б', 'а а', 'б а'):
        for agreed in itertools.product((False, True), repeat=len(numbers)):
            ready = list(VALUED(text))
            before = snapshot(ready)
            for number, agree in zip(numbers, agreed):
                actual = [(describe(_), fact_of(_)) for _ in sayer(number, agree).findall(ready)]
                counter.step()
                counter.trace()
                counter.state(numbers, text, agreed, number)
                if actual != said(number, agree, text):
                    raise Mismatch('tokens of %r used by %r (agree: %r): %s' % (
                        text, [SAYERS[_] for _ in numbers], agreed,
                        c05.difference(actual, said(number, agree, text))
                    ))
            if snapshot(ready) != before:
                raise Mismatch('tokens of %r are modified by %r' % (text, [SAYERS[_] for _ in numbers]))


# ------------------------------------------------ the list is changed by its owner

def drop_first(tokens):
    tokens[:1] = []


def drop_last(tokens):
    tokens[-1:] = []


def drop_all(tokens):
    tokens[:] = []


def turn(tokens):
    tokens.reverse()


def twice(tokens):
    # the tokens of the same text
    tokens.extend(list(TOKENIZER('а б - в'))[:2])


def other(tokens):
    tokens[:1] = list(TOKENIZER('б'))


EDITS = (drop_first, drop_last, drop_all, turn, twice, other)
CALLS = ('match', 'find', 'findall', 'extract')


def changed_cases(count):
    for name, index in NAMES:
        for edits in itertools.product(range(len(EDITS)), repeat=count):
            yield (name, index, edits)


@functools.lru_cache(None)
def reference(name, index):
    return Parser(recipe(name, index), tokenizer=READY, tagger=c05.Labels())


def run_changed(case, counter):
    """One list and one parser, the list is not the same at every call."""
    name, index, edits = case
    _, parser = parsers(name, index)
    for calls in itertools.product(CALLS, repeat=2):
        tokens = list(TOKENIZER('а б в а'))
        for number, edit in enumerate((None,) + edits):
            if edit is not None:
                EDITS[edit](tokens)
            call = calls[number % 2]
            results = []
            # a new list is not a list that was seen
            for one, argument in ((parser, tokens), (reference(name, index), list(tokens))):
                value = getattr(one, call)(argument)
                results.append([
                    None if _ is None else (describe(_), fact_of(_))
                    for _ in ([value] if call in ('match', 'find') else value)
                ])
            counter.state(case, calls, number)
            counter.step()
            counter.trace()
            if results[0] != results[1]:
                raise Mismatch('rule %s %d, %s after the list was changed by %s: %s' % (
                    name, index, call, [EDITS[_].__name__ for _ in edits[:number]],
                    c05.difference(results[0], results[1])
                ))


# ------------------------------------------------ tokens of matches are tokens

def again_cases():
    for name, index in NAMES:
        yield (name, index)


def run_again_to(high, step):
    return lambda case, counter: run_again(case, counter, high, step)


def run_again(case, counter, high, step):
    """Tokens of a match can be parsed again, alone."""
    name, index = case
    first, second = parsers(name, index)
    others = [parsers(*_)[1] for _ in NAMES[::step]]
    for size in range(1, high + 1):
        for letters in itertools.product('абв', repeat=size):
            text = ' '.join(letters)
            for match in first.extract(text):
                tokens = list(match.tokens)
                before = snapshot(tokens)
                copies = [type(_)(*_) for _ in tokens]
                counter.state(case, letters, match.span)
                for other in others + [second]:
                    actual = everything(other, lambda: tokens)
                    wanted = everything(other, lambda: copies)
                    counter.step()
                    counter.trace()
                    if actual != wanted:
                        raise Mismatch('tokens %r of a match: %s' % (
                            tokens, c05.difference(actual, wanted)
                        ))
                if snapshot(tokens) != before:
                    raise Mismatch('tokens of a match are modified')


# ------------------------------------------------ words have any type

TYPES = ('WORD', 'LATIN', 'ru', '', None)
TYPED = [_ for _ in NAMES if _[0] not in ('customs', 'tokens', 'types')]


def typed_cases(count):
    for size in range(1, count + 1):
        for letters in itertools.product(WORDS[:4], repeat=size):
            for name in TYPES:
                yield (letters, name)


def untyped(result, name):
    """Types of words as they were, for what is said about them."""
    out = []
    for method, item in result:
        if item is not None:
            (span, tokens), tree, fact = item
            item = ((span, tuple(
                _[:3] + ('RU',) + _[4:] if _[3] == name else _ for _ in tokens
            )), tree, fact)
        out.append((method, item))
    return out


def run_typed(case, counter):
    """Readings belong to the word, whatever its type is called."""
    letters, kind = case
    text = ' '.join(letters)
    for name, index in TYPED:
        _, parser = parsers(name, index, False)
        tokens = list(TOKENIZER(text))
        expected = everything(parser, lambda: tokens)
        renamed = [
            type(_)(_.value, _.span, kind, _.forms) if hasattr(_, 'forms') else _
            for _ in tokens
        ]
        actual = untyped(everything(parser, lambda: renamed), kind)
        counter.state(case, name, index)
        counter.step()
        counter.trace()
        if actual != expected:
            raise Mismatch('rule %s %d, words of %r are of type %r: %s' % (
                name, index, text, kind, c05.difference(actual, expected)
            ))


# ------------------------------------------------ unusual tokens

ODD = ('а', ' ', '\n', '\u200b', 'а б', '\x00', '0')


def odd_cases(size):
    for count in range(1, size + 1):
        for values in itertools.product(ODD, repeat=count):
            yield values


def run_odd(values, counter):
    """Whatever the words of the given tokens are, no one is left out."""
    tokens = []
    for index, value in enumerate(values):
        tokens.append(Token(value, Span(index * 5, index * 5 + len(value)), (None, 'RU', '')[index % 3]))
    whole = Parser(rule(*map(eq, values)), tokenizer=READY)
    counter.state(values)
    counter.step()
    for make in (lambda: tokens, lambda: iter(tokens)):
        match = whole.match(make())
        counter.trace()
        if match is None or len(match.tokens) != len(tokens) or any(
                one != two for one, two in zip(match.tokens, tokens)):
            raise Mismatch('tokens %r are not matched by the rule of them' % (values,))
    for value in ODD:
        spans = [tuple(_.span) for _ in Parser(rule(eq(value)), tokenizer=READY).findall(tokens)]
        counter.step()
        counter.trace()
        if spans != [tuple(_.span) for _ in tokens if _.value == value]:
            raise Mismatch('%r is found in %r at %s' % (value, values, spans))
    count = len(list(Parser(rule(true()), tokenizer=READY).extract(tokens)))
    if count != len(tokens):
        raise Mismatch('%d tokens of %r are seen' % (count, values))


class C26(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('text', lambda: text_cases(4 if deep else 3), run_text,
                   'all texts of <= %d of %d words, %d rules, 4 ways to pass tokens' % (
                       4 if deep else 3, len(WORDS), len(NAMES))),
            Family('subsequence', lambda: itertools.chain(*(
                subsequence_cases(_) for _ in range(1, (4 if deep else 3) + 1))), run_subsequence,
                'all subsequences of all texts of <= %d words, %d rules' % (4 if deep else 3, len(NAMES))),
            Family('any order', lambda: permuted_cases(4 if deep else 3), run_permuted,
                   'all sequences of the words of all texts of %d words, %d rules' % (4 if deep else 3, len(NAMES))),
            Family('joined', lambda: joined_cases(deep), run_joined,
                   'one token at several places of an agreement, all tables of %d readings' % (3 if deep else 2)),
            Family('typed', lambda: typed_cases(3 if deep else 2), run_typed,
                   'words of %d other types, %d rules' % (len(TYPES), len(TYPED))),
            Family('odd', lambda: odd_cases(4 if deep else 3), run_odd,
                   'sequences of tokens of %d unusual values' % len(ODD)),
            Family('long', lambda: long_cases(2000 if deep else 300), run_long,
                   'texts of up to %d words' % (12000 if deep else 1800)),
            Family('orders', lambda: order_cases(4 if deep else 3), run_order,
                   'all orders of %d of %d parsers over one list' % (4 if deep else 3, len(ORDERED))),
            Family('readings', lambda: reading_cases(3 if deep else 2), run_readings,
                   'words read in three ways by %d of %d rules' % (3 if deep else 2, len(READ))),
            Family('said', lambda: said_cases(3 if deep else 2), run_said,
                   'words of the same list interpreted by %d of %d parsers' % (3 if deep else 2, len(SAYERS))),
            Family('changed', lambda: changed_cases(3 if deep else 2), run_changed,
                   'a list changed %d times between calls in %d ways' % (3 if deep else 2, len(EDITS))),
            Family('again', again_cases, run_again_to(3 if deep else 2, 5 if deep else 11), 'tokens of matches parsed again'),
        ]


CHECK = C26(
    'C26',
    rule='state = (tokens, rule, way to pass them); transition = one parse of '
         'ready tokens; trace = one result compared with that of the text',
    assumptions=['the tokens are those of a text, every token object is given once']
)
