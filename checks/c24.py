"""C24: taggers see and label the token stream, labels survive parsing."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, gram, stub
from mc.yg import Parser, describe, describe_token, text_of, positions, token_range

from yargy import rule, or_, and_, not_
from yargy.interpretation import fact, attribute
from yargy.pipelines import morph_pipeline, pipeline
from yargy.predicates import eq, tag, true, type as type_, gram as gram_, dictionary, in_
from yargy.relations import Relation, main
from yargy.tagger import Tagger, TaggersComposition, PassTagger
from yargy.tokenizer import Tokenizer

from checks import c01

# readings of words: а has two, б two, в one
READINGS = {
    'а': [('а0', ('r0', 'g0')), ('а1', ('r1', 'g1'))],
    'б': [('б1', ('r1',)), ('б0', ('r0',)), ('б2', ('r2', 'g1'))],
    'в': [('в2', ('r2',))],
}
TOKENIZER = stub.tokenizer(READINGS)
PLAIN = Tokenizer()
TAGS = ('X', 'Y')


class Given(Tagger):
    """Labels given in advance, None for no label."""
    tags = set(TAGS) | {'Z'}

    def __init__(self, labels, way='generator'):
        self.labels = labels
        self.way = way

    def label(self, tokens):
        for token, label in zip(tokens, self.labels):
            yield token if label is None else token.tagged(label)

    def __call__(self, tokens):
        tokens = self.label(tokens)
        return {'generator': iter, 'list': list, 'tuple': tuple}[self.way](tokens)


def untagged(described):
    return described[:4] + described[5:]


# ------------------------------------------------ the tagger sees the tokens

class Spy(Tagger):
    def __init__(self, way):
        self.way = way
        self.calls = []

    def __call__(self, tokens):
        if self.way == 'eager':
            tokens = list(tokens)
            self.calls.append([describe_token(_) for _ in tokens])
            return tokens
        return self.lazy(tokens)

    def lazy(self, tokens):
        seen = []
        self.calls.append(seen)
        for token in tokens:
            seen.append(describe_token(token))
            yield token


ALPHABET = ('а', 'б', 'x', '1', '.', ' ', '\n')


def stream_cases(size):
    for count in range(size + 1):
        for letters in itertools.product(ALPHABET, repeat=count):
            yield ''.join(letters)


def run_stream(text, counter):
    for name, tokenizer in (('morph', TOKENIZER), ('plain', PLAIN)):
        expected = [describe_token(_) for _ in tokenizer(text)]
        for way in ('eager', 'lazy'):
            for method in ('match', 'find', 'findall', 'extract'):
                spy = Spy(way)
                parser = Parser(
                    rule(in_('аx1').optional(), true()), tokenizer=tokenizer, tagger=spy)
                plain = Parser(rule(in_('аx1').optional(), true()), tokenizer=tokenizer)
                results = []
                for item in (parser, plain):
                    result = getattr(item, method)(text)
                    if method in ('match', 'find'):
                        results.append(describe(result))
                    else:
                        results.append([describe(_) for _ in result])
                counter.step()
                counter.trace()
                counter.state(text, name, way, method)
                if spy.calls != [expected]:
                    raise Mismatch('%s(%r): the tagger gets %r, the tokens are %r' % (
                        method, text, spy.calls, expected
                    ))
                if results[0] != results[1]:
                    raise Mismatch('%s(%r) with a tagger that changes nothing is %r, without %r' % (
                        method, text, results[0], results[1]
                    ))


# ------------------------------------------------ the rule is matched against what it returns

class Subset(Tagger):
    """Drops, repeats and replaces tokens."""

    def __init__(self, plan, way):
        self.plan = plan
        self.way = way

    def __call__(self, tokens):
        result = self.change(tokens)
        return {'generator': iter, 'list': list, 'tuple': tuple}[self.way](result)

    def change(self, tokens):
        for token, action in zip(tokens, self.plan):
            if action == '-':
                continue
            if action == '2':
                yield token
            if action == 'b':
                yield type(token)('b', token.span, token.type)
            else:
                yield token


def subset_cases(size):
    grammars = [
        (ast, ()) for ast in list(enum.canonical_asts(1, 3))[::3]
    ]
    for index in range(len(grammars)):
        for count in range(1, size + 1):
            yield (index, count)


GRAMMARS = [
    gram.number_grammar((ast, ())) for ast in list(enum.canonical_asts(1, 3))[::3]
]


def run_subset(case, counter):
    index, count = case
    grammar = GRAMMARS[index]
    if c01.has_p1(grammar):
        return
    for letters in itertools.product('ab', repeat=count):
        text = ' '.join(letters)
        tokens = list(PLAIN(text))
        for plan in itertools.product('+-2b', repeat=count):
            for way in ('generator', 'list'):
                tagger = Subset(plan, way)
                given = list(Subset(plan, 'list')(list(tokens)))
                word = ''.join(_.value for _ in given)
                parser = Parser(gram.build(grammar), tokenizer=PLAIN, tagger=tagger)
                counter.state(case, letters, plan)
                counter.step()
                counter.trace()
                match = parser.match(text)
                expected = bool(word) and gram.accepts(grammar, word)
                if (match is not None) != expected:
                    raise Mismatch('tokens %r are %s, the rule %s' % (
                        word, 'accepted' if match else 'not accepted',
                        gram.show_grammar(grammar)
                    ))
                if match and [describe_token(_) for _ in match.tokens] != [
                        describe_token(_) for _ in given]:
                    raise Mismatch('match has %r, the tagger gave %r' % (match.tokens, given))
                found = set()
                for item in parser.extract(text):
                    found.add(tuple(describe_token(_) for _ in item.tokens))
                expected = {
                    tuple(describe_token(_) for _ in given[start:stop])
                    for start, stop in gram.spans(grammar, word)
                }
                if found != expected:
                    raise Mismatch('found %r, expected %r in %r' % (found, expected, word))


# ------------------------------------------------ tag(x) and other predicates

# leaf: (build, holds(word, label))
LEAFS = {
    'X': (lambda: tag('X'), lambda w, l: l == 'X'),
    'Y': (lambda: tag('Y'), lambda w, l: l == 'Y'),
    'not X': (lambda: not_(tag('X')), lambda w, l: l != 'X'),
    'X or Y': (lambda: or_(tag('X'), tag('Y')), lambda w, l: l is not None),
    'X and a': (lambda: and_(tag('X'), eq('а')), lambda w, l: l == 'X' and w == 'а'),
    'r0 or Y': (lambda: or_(gram_('r0'), tag('Y')), lambda w, l: w in 'аб' or l == 'Y'),
    'r1 and X': (lambda: and_(gram_('r1'), tag('X')), lambda w, l: w in 'аб' and l == 'X'),
    'not (X or Y)': (lambda: not_(or_(tag('X'), tag('Y'))), lambda w, l: l is None),
    'a': (lambda: eq('а'), lambda w, l: w == 'а'),
    'r0': (lambda: gram_('r0'), lambda w, l: w in 'аб'),
    'RU': (lambda: type_('RU'), lambda w, l: True),
    'dictionary': (lambda: dictionary({'б1'}), lambda w, l: w == 'б'),
}
SYMBOLS = [(w, l) for w in 'аб' for l in (None,) + TAGS]


def leafs_of(ast):
    if ast[0] == 't':
        yield ast[1]
    elif ast[0] in ('seq', 'or'):
        for item in ast[1]:
            for _ in leafs_of(item):
                yield _
    elif ast[0] in ('opt', 'rep'):
        for _ in leafs_of(ast[1]):
            yield _


def build(ast):
    kind = ast[0]
    if kind == 't':
        return rule(LEAFS[ast[1]][0]())
    if kind == 'seq':
        return rule(*(
            LEAFS[_[1]][0]() if _[0] == 't' else build(_) for _ in ast[1]
        ))
    if kind == 'or':
        return or_(*(build(_) for _ in ast[1]))
    if kind == 'opt':
        return build(ast[1]).optional(reverse=ast[2])
    return build(ast[1]).repeatable(
        min=ast[2] or None, max=ast[3] or None, reverse=ast[4])


def language(ast):
    kind = ast[0]
    if kind == 't':
        holds = LEAFS[ast[1]][1]
        return ('or', tuple(('t', _) for _ in SYMBOLS if holds(*_)))
    if kind in ('seq', 'or'):
        return (kind, tuple(language(_) for _ in ast[1]))
    return (kind, language(ast[1])) + tuple(ast[2:])


def label_rules(size, count):
    names = sorted(LEAFS)
    leafs = [('t', _) for _ in names]
    for leaf in leafs:
        yield leaf
    for leaf in leafs:
        for unary in (('opt', False), ('rep', 0, 0, False), ('rep', 2, 3, False), ('rep', 0, 2, True)):
            yield enum.wrap(unary, leaf)
    if size > 1:
        for first, second in itertools.product(leafs, repeat=2):
            yield ('seq', (first, second))
            yield ('or', (first, second))
            yield ('seq', (first, ('opt', ('rep', second, 0, 0, False), False)))
    if size > 2:
        for items in itertools.product(leafs[:count], repeat=3):
            yield ('seq', items)
            yield ('or', (('seq', items[:2]), items[2]))


def label_cases(size, count, high):
    for ast in label_rules(size, count):
        for length in range(1, high + 1):
            yield (ast, length)


@functools.lru_cache(None)
def plain_readings(word):
    token, = TOKENIZER(word)
    return describe_token(token)


def run_labels(case, counter):
    ast, length = case
    grammar = (language(ast), ())
    item = build(ast)
    narrow = 'r' in ''.join(leafs_of(ast)).replace('or', '').replace('dictionary', '')
    for symbols in itertools.product(SYMBOLS, repeat=length):
        text = ' '.join(_[0] for _ in symbols)
        labels = [_[1] for _ in symbols]
        counter.state(case, symbols)
        counter.step()
        counter.trace()
        parser = Parser(item, tokenizer=TOKENIZER, tagger=Given(labels))
        match = parser.match(text)
        expected = gram.accepts(grammar, symbols)
        if (match is not None) != expected:
            raise Mismatch('%r is %s' % (symbols, 'accepted' if match else 'not accepted'))
        if match:
            check_tokens(match.tokens, symbols, narrow)
        offsets = positions([_[0] for _ in symbols])
        found = set()
        for other in parser.extract(text):
            start, stop = token_range(other, offsets)
            found.add((start, stop))
            check_tokens(other.tokens, symbols[start:stop], narrow)
        if found != gram.spans(grammar, symbols):
            raise Mismatch('found %r in %r' % (found, symbols))


def check_tokens(tokens, symbols, narrow):
    for token, (word, label) in itertools.zip_longest(tokens, symbols):
        described = describe_token(token)
        if described[4] != label:
            raise Mismatch('label of %r is %r, it was %r' % (word, described[4], label))
        expected = plain_readings(word)
        if described[1] != word or described[3] != expected[3]:
            raise Mismatch('token is %r, expected %r' % (described, expected))
        if not narrow and described[5] != expected[5]:
            raise Mismatch('readings are %r, expected %r' % (described[5], expected[5]))


# ------------------------------------------------ labels and readings together

class Pairs(Relation):
    __attributes__ = ['pairs']
    label = 'pairs'

    def __init__(self, pairs):
        self.pairs = pairs

    def __call__(self, form, other):
        return any(
            a in form.grams.values and b in other.grams.values
            or b in form.grams.values and a in other.grams.values
            for a, b in self.pairs
        )


RELATIONS = {
    'same': Pairs((('r0', 'r0'), ('r1', 'r1'), ('r2', 'r2'))),
    'cross': Pairs((('r0', 'r1'), ('r1', 'r2'))),
}
F = fact('F', ['a', 'b', attribute('c').repeatable()])


def agreed_rules(relation):
    R = RELATIONS[relation]
    any_ = lambda: in_('абв')
    yield 'two', rule(
        any_().interpretation(F.a.normalized()).match(R),
        any_().interpretation(F.b.inflected({'r0'})).match(R)).interpretation(F)
    yield 'gram', rule(
        gram_('r1').interpretation(F.a.normalized()).match(R), any_().match(R).interpretation(F.b)
    ).interpretation(F)
    yield 'phrase', rule(
        rule(any_(), main(any_())).match(R).interpretation(F.a), any_().match(R).interpretation(
            F.b.normalized())).interpretation(F)
    yield 'any', rule(any_().match(R).interpretation(F.c)).repeatable().interpretation(F)
    yield 'lines', rule(
        morph_pipeline(['а1', 'б0', 'в2 в2']).interpretation(F.a.normalized()).match(R),
        any_().match(R).interpretation(F.b)).interpretation(F)
    yield 'grams', rule(
        and_(gram_('r0'), not_(gram_('r2'))).interpretation(F.a.normalized()), any_()
    ).interpretation(F)


def agreed_cases(high):
    for relation in sorted(RELATIONS):
        for name, _ in agreed_rules(relation):
            for length in range(1, high + 1):
                for letters in itertools.product('абв', repeat=length):
                    yield (relation, name, letters)


def observe(parser, text):
    result = []
    for match in [parser.match(text)] + list(parser.extract(text)) + list(parser.findall(text)):
        if match is None:
            result.append(None)
            continue
        result.append((
            tuple(match.span), tuple(describe_token(_) for _ in match.tokens),
            repr(match.fact), repr(match.fact.as_json), [tuple(_) for _ in match.fact.spans]
        ))
    return result


def run_agreed(case, counter):
    relation, name, letters = case
    item = dict(agreed_rules(relation))[name]
    text = text_of(letters)
    offsets = positions(letters)
    plain = observe(Parser(item, tokenizer=TOKENIZER), text)
    for labels in itertools.product((None,) + TAGS, repeat=len(letters)):
        tagged = observe(Parser(item, tokenizer=TOKENIZER, tagger=Given(labels)), text)
        counter.state(case, labels)
        counter.step()
        counter.trace()
        bare = [
            _ and (_[0], tuple(
                ('MorphToken',) + token[1:4] + (None,) + token[5:] for token in _[1]
            )) + _[2:]
            for _ in tagged
        ]
        if bare != plain:
            raise Mismatch('with labels %r: %r, without %r' % (labels, bare, plain))
        for found in tagged:
            for token in found[1] if found else ():
                label = labels[offsets[token[2][0]]]
                if token[4] != label:
                    raise Mismatch('label of %r is %r, it was %r' % (token[1], token[4], label))


# ------------------------------------------------ labels of all sorts

SORTS = (0, 1, -1, '', ' ', 'X', 'x', False, True, (), ('X',), 0.5, b'', 'None', frozenset())


class Sorts(Given):
    tags = list(SORTS)


def sort_cases(high):
    for wanted in range(len(SORTS)):
        for other in range(len(SORTS)):
            yield (wanted, other)


def run_sort(case, counter):
    wanted, other = SORTS[case[0]], SORTS[case[1]]
    for tokenizer in (TOKENIZER, PLAIN):
        for size in range(1, 4):
            for labels in itertools.product((None, 0, 1), repeat=size):
                labels = [None if _ is None else (wanted, other)[_] for _ in labels]
                letters = 'абв'[:size]
                for name, make, holds in (
                        ('tag', lambda: tag(wanted), lambda _: _ is not None and _ == wanted),
                        ('not tag', lambda: not_(tag(wanted)), lambda _: _ is None or _ != wanted),
                        ('tags', lambda: or_(tag(wanted), tag(other)),
                         lambda _: _ is not None and (_ == wanted or _ == other))):
                    parser = Parser(rule(make()), tokenizer=tokenizer, tagger=Sorts(labels))
                    counter.state(case, tuple(map(repr, labels)), name)
                    counter.step()
                    counter.trace()
                    found = [
                        (_.tokens[0].value, type(_.tokens[0]).__name__, getattr(_.tokens[0], 'tag', None))
                        for _ in parser.findall(text_of(letters))
                    ]
                    kind = 'MorphTokenTagged' if tokenizer is TOKENIZER else 'TokenTagged'
                    actual = [(_[0], _[2]) for _ in found]
                    expected = [(w, l) for w, l in zip(letters, labels) if holds(l)]
                    if repr(actual) != repr(expected):
                        raise Mismatch('%s(%r), labels %r: found %r, expected %r' % (
                            name, wanted, labels, actual, expected
                        ))


# ------------------------------------------------ compositions

class Every(Tagger):
    tags = ['Z']

    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged('Z')


class First(Tagger):
    tags = ['X']

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged('X') if not index else token


class Turn(Tagger):
    """X becomes Y, what has no label becomes X."""
    tags = ('Y', 'X')

    def __call__(self, tokens):
        return [
            _.tagged('Y') if getattr(_, 'tag', None) == 'X'
            else _.tagged('X') if getattr(_, 'tag', None) is None else _
            for _ in tokens
        ]


class Drop(Tagger):
    """Drops labelled with Y, does not label."""

    def __call__(self, tokens):
        for token in tokens:
            if getattr(token, 'tag', None) != 'Y':
                yield token


class Letters(Tagger):
    tags = {'W'}

    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged('W') if token.value == 'б' else token


def first(items):
    return [(w, 'X' if not i else l) for i, (w, l) in enumerate(items)]


MODEL = {
    'pass': (PassTagger, lambda items: items, set()),
    'every': (Every, lambda items: [(w, 'Z') for w, _ in items], {'Z'}),
    'first': (First, first, {'X'}),
    'turn': (Turn, lambda items: [
        (w, 'Y' if l == 'X' else 'X' if l is None else l) for w, l in items], {'X', 'Y'}),
    'drop': (Drop, lambda items: [_ for _ in items if _[1] != 'Y'], set()),
    'letters': (Letters, lambda items: [(w, 'W' if w == 'б' else l) for w, l in items], {'W'}),
}
ALL_TAGS = ('X', 'Y', 'Z', 'W', 'V')


def composition_cases(size):
    for count in range(size + 1):
        for names in itertools.product(sorted(MODEL), repeat=count):
            yield names, 'flat'
            yield names, 'generator'
            yield names, 'later'
            if count > 1:
                yield names, 'left'
                yield names, 'right'


def compose(names, way):
    taggers = [MODEL[_][0]() for _ in names]
    if way == 'flat':
        return TaggersComposition(taggers)
    if way == 'generator':
        return TaggersComposition(_ for _ in taggers)
    if way == 'later':
        # the list changes when it has been given
        tagger = TaggersComposition(taggers)
        taggers.reverse()
        taggers.append(Every())
        return tagger
    if way == 'left':
        return TaggersComposition([TaggersComposition(taggers[:-1]), taggers[-1]])
    return TaggersComposition([taggers[0], TaggersComposition(taggers[1:])])


def run_composition(case, counter):
    names, way = case
    tagger = compose(names, way)
    known = set().union(*(MODEL[_][2] for _ in names))
    for name in ALL_TAGS:
        counter.step()
        if tagger.check_tag(name) != (name in known):
            raise Mismatch('%r %s label %r' % (
                names, 'knows' if name not in known else 'does not know', name))
        try:
            Parser(rule(tag(name)), tokenizer=TOKENIZER, tagger=tagger)
        except ValueError:
            if name in known:
                raise Mismatch('tag(%r) is refused, taggers are %r' % (name, names))
        else:
            if name not in known:
                raise Mismatch('tag(%r) is not refused, taggers are %r' % (name, names))
    for length in range(1, 4):
        for letters in itertools.product('аб', repeat=length):
            items = [(_, None) for _ in letters]
            for name in names:
                items = MODEL[name][1](items)
            text = text_of(letters)
            for tokenizer in (TOKENIZER, PLAIN):
                counter.state(case, letters)
                counter.trace()
                parser = Parser(true().repeatable(), tokenizer=tokenizer, tagger=tagger)
                match = parser.match(text)
                actual = [
                    (_.value, getattr(_, 'tag', None)) for _ in match.tokens
                ] if match else []
                if actual != items:
                    raise Mismatch('taggers %r give %r, expected %r' % (names, actual, items))
                for label in sorted(known):
                    parser = Parser(rule(tag(label)), tokenizer=tokenizer, tagger=tagger)
                    found = [
                        _.tokens[0].value for _ in parser.findall(text)
                    ]
                    expected = [w for w, l in items if l == label]
                    if found != expected:
                        raise Mismatch('tag(%r) finds %r, expected %r' % (label, found, expected))


# ------------------------------------------------ many texts, one tagger

def history_cases(size):
    texts = ('', 'а', 'а б', 'б а в', 'x')
    for texts in itertools.product(texts, repeat=size):
        yield texts


def run_history(texts, counter):
    """One parser with a tagger used for many texts, also not to the end."""
    tagger = TaggersComposition([First(), Turn()])
    item = rule(tag('Y'), tag('X').optional())
    parser = Parser(item, tokenizer=TOKENIZER, tagger=tagger)
    left = []
    for text in texts:
        fresh = Parser(item, tokenizer=TOKENIZER, tagger=TaggersComposition([First(), Turn()]))
        expected = [describe(_) for _ in fresh.extract(text)]
        iterator = parser.extract(text)
        next(iterator, None)
        left.append(iterator)
        parser.find(text)
        actual = [describe(_) for _ in parser.extract(text)]
        counter.step()
        counter.trace()
        counter.state(texts, text)
        if actual != expected:
            raise Mismatch('%r after %r gives %r, expected %r' % (text, texts, actual, expected))


# ------------------------------------------------ many words, labels and taggers

class Numbered(Tagger):
    """Every word gets its own label."""

    def __init__(self, count, skip=None, start=0):
        self.count = count
        self.skip = skip
        self.start = start
        self.tags = {'T%d' % _ for _ in range(start, start + count)}

    def __call__(self, tokens):
        for index, token in enumerate(tokens, -self.start):
            if 0 <= index < self.count and index != self.skip:
                token = token.tagged('T%d' % (index + self.start))
            yield token


def size_cases(limit):
    for count in enum.sizes(limit):
        for kind in ('labels', 'chain', 'pieces', 'repeated', 'texts'):
            yield (kind, count)


def word_labels(tokens):
    return [(_.value, getattr(_, 'tag', None)) for _ in tokens]


def run_size(case, counter):
    kind, count = case
    letters = ['абв'[index * index % 3] for index in range(count)]
    text = text_of(letters)
    counter.state(case)

    def same(actual, expected, what):
        counter.step()
        counter.trace()
        if actual != expected:
            for index, (one, two) in enumerate(zip(actual, expected)):
                if one != two:
                    raise Mismatch('%d words, %s: number %d is %r, expected %r' % (
                        count, what, index, one, two))
            raise Mismatch('%d words, %s: %d of them, expected %d' % (
                count, what, len(actual), len(expected)))

    def matched(tagger):
        match = Parser(true().repeatable(), tokenizer=TOKENIZER, tagger=tagger).match(text)
        return word_labels(match.tokens)

    if kind == 'labels':
        for skip in sorted({None, 0, count // 2, count - 1}, key=str):
            expected = [
                (_, None if index == skip else 'T%d' % index) for index, _ in enumerate(letters)
            ]
            for tagger in (Numbered(count, skip), TaggersComposition([Numbered(count, skip)])):
                same(matched(tagger), expected, 'labels')
                for index in sorted({0, 1, count // 2, count - 2, count - 1} - {-1}):
                    if index >= count:
                        continue
                    parser = Parser(rule(tag('T%d' % index)), tokenizer=TOKENIZER, tagger=tagger)
                    found = [tuple(_.span) for _ in parser.findall(text)]
                    same(found, [(2 * index, 2 * index + 1)] if index != skip else [],
                         'found by tag')
    elif kind == 'chain':
        # one rule of all the labels
        if count <= 60:
            item = rule(*(tag('T%d' % _) for _ in range(count)))
            for skip in (None, count - 1):
                match = Parser(item, tokenizer=TOKENIZER, tagger=Numbered(count, skip)).match(text)
                same([match is None], [skip is not None], 'rule of tags')
    elif kind == 'pieces':
        # a tagger for every word
        if count <= 60:
            taggers = [Numbered(1, start=index) for index in range(count)]
            expected = [(_, 'T%d' % index) for index, _ in enumerate(letters)]
            for order in (taggers, taggers[::-1]):
                tagger = TaggersComposition(order)
                same([tagger.check_tag('T%d' % _) for _ in range(count + 1)],
                     [True] * count + [False], 'tags known')
                same(matched(tagger), expected, 'labels of %d taggers' % count)
            tagger = PassTagger()
            for other in taggers:
                tagger = TaggersComposition([tagger, other])
            same(matched(tagger), expected, 'labels of nested taggers')
    elif kind == 'repeated':
        # a later label replaces an earlier one
        if count <= 60:
            taggers = [Every() if index % 2 else First() for index in range(count)]
            label = 'Z' if count > 1 else None
            expected = [(_, label) for _ in letters]
            if count % 2:
                expected[0] = (letters[0], 'X')
            same(matched(TaggersComposition(taggers)), expected, 'labels of %d taggers' % count)
    else:
        # one parser, many texts
        parser = Parser(rule(tag('Y'), tag('X').optional()), tokenizer=TOKENIZER,
                        tagger=TaggersComposition([First(), Turn()]))
        for number in range(count):
            length = number % 4 + 1
            match = parser.find(text_of(['абв'[(number + _) % 3] for _ in range(length)]))
            same(word_labels(match.tokens), [
                ('абв'[(number + _) % 3], 'X' if _ else 'Y') for _ in range(min(length, 2))
            ], 'text %d' % number)


class C24(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('stream', lambda: stream_cases(5 if deep else 3), run_stream,
                   'all texts of <= %d of %d characters' % (5 if deep else 3, len(ALPHABET))),
            Family('subset', lambda: subset_cases(4 if deep else 3), run_subset,
                   '%d rules, texts of <= %d words, every word kept, dropped, doubled or replaced' % (
                       len(GRAMMARS), 4 if deep else 3)),
            Family('labels', lambda: label_cases(3 if deep else 2, 5 if deep else 3, 3 if deep else 2), run_labels,
                   'all labels of <= %d words, rules of %d kinds of parts' % (
                       3 if deep else 2, len(LEAFS))),
            Family('sorts', lambda: sort_cases(3), run_sort,
                   'labels of %d sorts, all pairs, 1..3 words' % len(SORTS)),
            Family('agreed', lambda: agreed_cases(4 if deep else 3), run_agreed,
                   'all labels of <= %d words under 6 narrowing rules' % (4 if deep else 3)),
            Family('compositions', lambda: composition_cases(4 if deep else 3), run_composition,
                   'all compositions of <= %d of %d taggers, nested' % (4 if deep else 3, len(MODEL))),
            Family('histories', lambda: history_cases(4 if deep else 3), run_history,
                   'sequences of %d texts' % (4 if deep else 3)),
            Family('size', lambda: size_cases(270 if deep else 70), run_size,
                   'texts of up to %d words, as many labels, taggers or texts' % (270 if deep else 70)),
        ]


CHECK = C24(
    'C24',
    rule='state = (rule, words, labels or taggers); transition = one text '
         'parsed; trace = its result compared with the model',
    assumptions=['taggers label with tagged() and do not change the order of tokens']
)
