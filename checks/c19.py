"""C19: matches and facts report exactly the text they came from."""
import itertools
import json

from mc.core import Check, Family, Mismatch
from mc import enum, interp, stub
from mc.values import anything
from mc.yg import PLAIN, Parser

from yargy import rule, or_, and_
from yargy.interpretation import fact, attribute, const
from yargy.pipelines import morph_pipeline
from yargy.predicates import eq, gram, in_, true, type as type_
from yargy.relations import Relation
from yargy.span import Span
from yargy.tagger import Tagger
from yargy.token import Token
from yargy.tokenizer import Tokenizer, TokenRule

# words of alternating kinds can stand without a blank between them
WORDS = ['ab', '1', 'cd', '22', 'e', '333', 'f', '4']
GAPS = ('', ' ', '\t  ')

CLASSES = interp.make_classes()

FA = ('attr', 'F', 'a')
FB = ('attr', 'F', 'b')
FC = ('attr', 'F', 'c')
GA = ('attr', 'G', 'a')
GC = ('attr', 'G', 'c')
CONST = ('norm', 'F', 'a', (('const', 7),))
NONE = ('norm', 'F', 'b', (('const', None),))
CUSTOM = ('norm', 'G', 'x', (('custom', 'wrapped'),))
ALONE = ('only', (('const', 'K'),))
LOWER = ('only', (('normalized',),))
F = ('fact', 'F')
G = ('fact', 'G')
MARKS = (FA, FB, FC, GA, GC, CONST, NONE, CUSTOM, ALONE, F, G)
FEW = (FA, FC, GC, CONST, F, G)


def make_text(count, gaps, before=''):
    string = before
    words = []
    for index in range(count):
        if index:
            string += gaps[index - 1]
        words.append((WORDS[index], len(string), None))
        string += WORDS[index]
    return string, interp.Text(words)


def check_match(where, match, string, tokens):
    """tokens: (value, start, stop) of the whole text"""
    if match is None:
        raise Mismatch('%s: no match' % where)
    found = [(_.value, _.span.start, _.span.stop) for _ in match.tokens]
    if not found:
        raise Mismatch('%s: match without tokens' % where)
    if found[0] not in tokens:
        raise Mismatch('%s: token %r is not in the text' % (where, found[0]))
    first = tokens.index(found[0])
    if tokens[first:first + len(found)] != found:
        raise Mismatch('%s: tokens %r are not consecutive tokens of %r' % (
            where, found, tokens
        ))
    span = tuple(match.span)
    if span != (found[0][1], found[-1][2]):
        raise Mismatch('%s: span %r, tokens %r' % (where, span, found))
    return first, first + len(found)


def tokens_of(text):
    return [(value, start, start + len(value)) for value, start, _ in text.words]


def leafs_json(value, classes):
    """as_json with facts inside of values turned into model facts."""
    if isinstance(value, dict):
        return ('json', tuple(
            (key, leafs_json(item, classes)) for key, item in value.items()
        ))
    if isinstance(value, list):
        return [leafs_json(_, classes) for _ in value]
    return interp.observe(value, classes)


def check_fact(where, made, model, text, classes, counter):
    counter.trace()
    counter.step()
    spans = [tuple(_) for _ in made.spans]
    expected = text.spans(model)
    if spans != expected:
        raise Mismatch('%s: spans are %r, expected %r' % (where, spans, expected))
    data = leafs_json(made.as_json, classes)
    wanted = text.json(model)
    if data != wanted:
        raise Mismatch('%s: json is %r, expected %r' % (where, data, wanted))


def check_facts(where, match, ast, text, classes, counter):
    try:
        model, = text.items(ast)
    except interp.Wrong:
        return
    for attempt in (1, 2):
        made = match.fact
        for one, item in interp.facts_in(made, model):
            check_fact(where, one, item, text, classes, counter)


def numbered(ast):
    words = []
    return interp.number(ast, words), len(words)


# -------------------------------------------------- trees of marks and blanks

def tree_cases(size, marks):
    memo = {}
    for count in range(1, size + 1):
        for ast in interp.asts(count, marks, memo):
            yield ('fact', 'F', ast)


def run_tree(case, counter):
    ast, count = numbered(case)
    parser = Parser(
        interp.build(ast, CLASSES, lambda _: eq(WORDS[_])), tokenizer=PLAIN
    )
    for gaps in itertools.product(GAPS, repeat=count - 1):
        for before in ('', ' ', '! '):
            string, text = make_text(count, gaps, before)
            tokens = tokens_of(text)
            counter.state(case, gaps, before)
            where = '%s, text %r' % (interp.show(ast), string)
            matches = list(parser.findall(string + ' ;'))
            if len(matches) != 1:
                raise Mismatch('%s: %d matches' % (where, len(matches)))
            matches.append(parser.find(string))
            if before != '! ':
                matches.append(parser.match(string))
            for match in matches:
                if check_match(where, match, string, tokens) != (0, count):
                    raise Mismatch('%s: tokens are %r' % (where, match.tokens))
                check_facts(where, match, ast, text, CLASSES, counter)


# -------------------------------------------------- order of attributes

def order_cases(count):
    keys = 'pqrs'[:count]
    for order in itertools.permutations(keys):
        for many in itertools.product((0, 1, 2), repeat=count):
            for marked in itertools.permutations(keys):
                for size in range(count + 1):
                    yield (''.join(order), many, ''.join(marked[:size]))


def run_order(case, counter):
    order, many, marked = case
    kinds = {}
    attributes = []
    expected = {}
    for key, kind in zip(order, many):
        kinds[key] = kind
        if kind == 0:
            attributes.append(key)
            expected[key] = None
        elif kind == 1:
            attributes.append(attribute(key, 0))
            expected[key] = 0
        else:
            attributes.append(attribute(key).repeatable())
            expected[key] = []
    cls = fact('T', attributes)

    class Child(cls):
        pass

    parts = [rule('zz')]
    string = 'zz'
    spans = []
    for key, word in zip(marked, WORDS):
        parts.append(rule(word).interpretation(getattr(cls, key)))
        string += ' '
        spans.append((len(string), len(string) + len(word)))
        string += word
        expected[key] = [word] if kinds[key] == 2 else word
    wanted = [(key, expected[key]) for key in order if expected[key] is not None]
    for name, target in (('class', cls), ('derived class', Child)):
        parser = Parser(rule(*parts).interpretation(target), tokenizer=PLAIN)
        made = parser.match(string).fact
        counter.state(case, name)
        counter.trace()
        counter.step()
        where = '%s of attributes %s %r, marks %s' % (name, order, many, marked)
        if list(made.as_json.items()) != wanted:
            raise Mismatch('%s: json %r, expected %r' % (
                where, list(made.as_json.items()), wanted
            ))
        if json.loads(json.dumps(made.as_json)) != dict(wanted):
            raise Mismatch('%s: json does not survive dumps' % where)
        if [tuple(_) for _ in made.spans] != spans:
            raise Mismatch('%s: spans %r, expected %r' % (where, made.spans, spans))


# -------------------------------------------------- repeated marked parts

PARTS = (
    ('w',),
    FA + (('w',),),
    FC + (('w',),),
    FC + (G + (GA + (('w',),),),),
    FC + (G + (GC + (('w',),),),),
    F + (FC + (('w',),),),
    ('norm', 'F', 'a', (('const', 7),), ('w',)),
    FC + (ALONE + (('w',),),),
)


def repeat_cases(letters, parts):
    for chosen in itertools.product(range(len(parts)), repeat=letters):
        yield tuple(parts[_] for _ in chosen)


def relabel(ast, index):
    if ast[0] == 'w':
        return ('w', index)
    return ast[:-1] + (relabel(ast[-1], index),)


def run_repeat(high):
    def run(case, counter):
        # letters and digits, blanks between them are optional
        values = ['ab', '1', 'c'][:len(case)]
        item = or_(*(
            rule(interp.build(part, CLASSES, lambda _, value=value: eq(value)))
            for value, part in zip(values, case)
        ))
        parser = Parser(
            item.repeatable().interpretation(CLASSES['F']), tokenizer=PLAIN
        )
        for size in range(1, high + 1):
            for letters in itertools.product(range(len(case)), repeat=size):
                for wide in (0, 1):
                    string = ''
                    words = []
                    for index, letter in enumerate(letters):
                        touching = index and (values[letter] == '1') == (values[letters[index - 1]] == '1')
                        string += ' ' if touching else ('', '  ')[wide]
                        words.append((values[letter], len(string), None))
                        string += values[letter]
                    text = interp.Text(words)
                    ast = F + (('seq', tuple(
                        relabel(case[letter], index)
                        for index, letter in enumerate(letters)
                    )),)
                    counter.state(case, letters, wide)
                    where = 'repeated %s, text %r' % (
                        ' | '.join(map(interp.show, case)), string
                    )
                    match = parser.match(string)
                    tokens = tokens_of(text)
                    if check_match(where, match, string, tokens) != (0, size):
                        raise Mismatch('%s: tokens %r' % (where, match.tokens))
                    check_facts(where, match, ast, text, CLASSES, counter)
    return run


# -------------------------------------------------- every match of every call

class Same(Relation):
    __attributes__ = []
    label = 'same'

    def __call__(self, form, other):
        return bool(form.grams.values & other.grams.values)


READINGS = {
    'а': [('а', ('r0', 'g0')), ('а1', ('r1',))],
    'б': [('б', ('r1', 'g0')), ('б1', ('r0',))],
}
SAME = Same()
MORPH = stub.tokenizer(READINGS)


class Odd(Tagger):
    tags = {'T'}

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged('T') if index % 2 else token


def rules():
    a, b = eq('а'), eq('б')
    H = fact('H', ['x', attribute('y').repeatable()])
    word = or_(rule(a), rule(b))
    return {
        'any': true().repeatable(),
        'word': word,
        'gram': rule(gram('g0'), true().optional()),
        'agree': rule(a.match(SAME), type_('INT').optional(), b.match(SAME)),
        'pair': or_(rule(a, b), rule(b, a), rule(a), rule(type_('INT'))),
        'lines': morph_pipeline(['а', 'а б', 'б 1']),
        'fact': rule(
            a.interpretation(H.x), b.interpretation(H.y).repeatable()
        ).interpretation(H),
        'list': rule(word.interpretation(H.y).repeatable(), '1').interpretation(H),
    }


def text_cases(letters, high):
    for size in range(high + 1):
        for words in itertools.product(letters, repeat=size):
            yield words


def run_text(case, counter):
    items = rules()
    for gaps in itertools.product((0, 1), repeat=len(case)):
        string = ''
        tokens = []
        for word, wide, previous in zip(case, gaps, (None,) + case):
            close = previous is None or (word in 'аб') != (previous in 'аб') or '-' in (word, previous)
            string += '  ' if wide else '' if close else ' '
            tokens.append((word, len(string), len(string) + len(word)))
            string += word
        string += ' ' * len(case)
        for name in sorted(items):
            for tagger in (None, Odd()):
                parser = Parser(items[name], tokenizer=MORPH, tagger=tagger)
                counter.state(name, string, tagger is None)
                where = '%s, text %r' % (name, string)
                for call in (parser.findall, parser.extract):
                    for match in call(string):
                        counter.trace()
                        counter.step()
                        start, stop = check_match(where, match, string, tokens)
                        leafs = [
                            (_.token.value,) + tuple(_.token.span)
                            for _ in match.tree.walk() if hasattr(_, 'token')
                        ]
                        if leafs != tokens[start:stop]:
                            raise Mismatch('%s: tree is over %r, tokens are %r' % (
                                where, leafs, tokens[start:stop]
                            ))
                        labels = [getattr(_, 'tag', None) for _ in match.tokens]
                        wanted = [
                            'T' if tagger and _ % 2 else None
                            for _ in range(start, stop)
                        ]
                        if labels != wanted:
                            raise Mismatch('%s: labels %r, expected %r' % (where, labels, wanted))


# -------------------------------------------------- any values in json

def value_cases():
    for name in sorted(anything()):
        for place in ('default', 'const', 'custom', 'list', 'inner', 'inner default', 'replaced default',
                      'const default', 'custom default', 'const twice', 'const then word'):
            yield (name, place)


def run_value(case, counter):
    name, place = case
    value = anything()[name]
    G = fact('G', ['y', attribute('z', value if place == 'inner default' else None)])
    H = fact('H', ['w', attribute('x', value if 'default' in place and place != 'inner default' else None),
                   attribute('all').repeatable()])
    word, text, spans = rule(true()), 'ab', [(0, 2)]
    expected = [('x', value), ('all', [])]
    if place == 'default':
        item, spans = word, []
    elif place == 'const':
        item = word.interpretation(H.x.const(value))
    elif place == 'custom':
        item = word.interpretation(H.x.custom(lambda _: value))
    elif place == 'const default':
        # the default is the same
        item = word.interpretation(H.x.const(value))
    elif place == 'custom default':
        item = word.interpretation(H.x.custom(lambda _: value))
    elif place == 'const twice':
        part = word.interpretation(H.x.const(value))
        item, text, spans = rule(part, part), 'ab cd', [(3, 5)]
    elif place == 'const then word':
        item = rule(word.interpretation(H.x.const(value)), word.interpretation(H.x))
        text, spans = 'ab cd', [(3, 5)]
        expected = [('x', 'cd'), ('all', [])]
    elif place == 'list':
        item = word.interpretation(const(value)).interpretation(H.all)
        expected = [('all', [value])]
    elif place == 'inner':
        item = word.interpretation(G.y.const(value)).interpretation(G).interpretation(H.x)
        expected = [('x', {} if value is None else {'y': value}), ('all', [])]
    elif place == 'inner default':
        item, spans = word.interpretation(G).interpretation(H.x), []
        expected = [('x', {} if value is None else {'z': value}), ('all', [])]
    else:
        item = word.interpretation(H.x)
        expected = [('x', 'ab'), ('all', [])]
    expected = [(key, kept) for key, kept in expected if kept is not None]
    match = Parser(item.interpretation(H), tokenizer=PLAIN).match(text)
    made = match.fact
    for _ in range(2):
        actual = list(made.as_json.items())
        counter.state(case)
        counter.step()
        counter.trace()
        if not same(actual, expected):
            raise Mismatch('%s: as_json is %r, expected %r' % (place, actual, expected))
        found = [tuple(_) for _ in made.spans]
        if found != spans:
            raise Mismatch('%s: spans are %r, expected %r' % (place, found, spans))


def same(one, other):
    """Made of the very same values."""
    if one is other:
        return True
    if isinstance(one, dict) and isinstance(other, dict):
        return same(list(one.items()), list(other.items()))
    if type(one) in (list, tuple) and type(one) is type(other):
        return len(one) == len(other) and all(map(same, one, other))
    return type(one) is type(other) is str and one == other


# -------------------------------------------------- many values

SHAPES = ('list', 'inner list', 'words', 'last', 'facts')
BLANKS = (' ', '\t', '\xa0', '\u3000')


def size_cases(limit):
    for size in enum.sizes(limit) + [1001]:
        for shape in SHAPES:
            yield (size, shape, '  ')


def wide_cases(limit):
    for size in (2, 3, 7):
        for shape in SHAPES:
            for count in itertools.chain(enum.sizes(limit), (1000, 5000, 70000)):
                for blank in BLANKS[:4 if count < 300 else 2]:
                    yield (size, shape, blank * count)


def run_size(case, counter):
    size, shape, gap = case
    G = fact('G', ['y', attribute('z').repeatable()])
    H = fact('H', ['x', attribute('all').repeatable()])
    words = ['ab', 'cd', 'efg']
    words = [words[_ % 3] for _ in range(size)]
    word = rule(in_({'ab', 'cd', 'efg'}))
    string = '  ' + gap.join(words)
    offsets = []
    start = 2
    for item in words:
        offsets.append((start, start + len(item)))
        start += len(item) + len(gap)
    whole = [(2, len(string))]
    if shape == 'list':
        item = word.interpretation(H.all).repeatable()
        expected, spans = {'all': words}, offsets
    elif shape == 'inner list':
        item = word.interpretation(G.z).repeatable().interpretation(G).interpretation(H.x)
        expected, spans = {'x': {'z': words}, 'all': []}, offsets
    elif shape == 'words':
        item = word.repeatable().interpretation(H.x)
        expected, spans = {'x': ' '.join(words), 'all': []}, whole
    elif shape == 'last':
        item = word.interpretation(H.x).repeatable()
        expected, spans = {'x': words[-1], 'all': []}, offsets[-1:]
    else:
        item = word.interpretation(G.y).interpretation(G).interpretation(H.all).repeatable()
        expected, spans = {'all': [{'y': _, 'z': []} for _ in words]}, offsets
    match = Parser(item.interpretation(H), tokenizer=PLAIN).match(string)
    counter.state(size, shape, gap[:2], len(gap))
    counter.step()
    counter.trace()
    tokens = [(_.value,) + tuple(_.span) for _ in match.tokens]
    if tokens != [(a,) + b for a, b in zip(words, offsets)] or [tuple(match.span)] != whole:
        raise Mismatch('%s of %d: span %r, %d tokens' % (shape, size, match.span, len(tokens)))
    made = match.fact
    if json.loads(json.dumps(made.as_json)) != expected:
        raise Mismatch('%s of %d: as_json is %s' % (shape, size, str(made.as_json)[:300]))
    found = [tuple(_) for _ in made.spans]
    if found != spans:
        raise Mismatch('%s of %d: spans are %s, expected %s' % (shape, size, str(found)[:200], str(spans)[:200]))


# -------------------------------------------------- odd tokens

class Ready(Tokenizer):
    def __call__(self, tokens):
        return tokens


def token_cases(size, high):
    """Tokens in order, of no letters, that overlap or follow one another."""
    spans = [(a, b) for a in range(high) for b in range(a, high)]
    for count in range(1, size + 1):
        for chosen in itertools.product(spans, repeat=count):
            if all(a[0] <= b[0] and a[1] <= b[1] for a, b in zip(chosen, chosen[1:])):
                yield ('ready', chosen)


def piece_cases(size):
    """Texts where blanks are words."""
    for count in range(1, size + 1):
        for text in itertools.product(PIECES, repeat=count):
            yield ('text', text)


PIECES = ('a', ' ', '\t', '\n', '.')


def run_tokens(case, counter):
    kind, items = case
    if kind == 'ready':
        # tokens without text stand where there are no letters
        for empty in range(2 if any(a == b for a, b in items) else 1):
            run_shapes(case, kind, items, [
                '' if empty and a == b else 'ab' for a, b in items
            ], counter)
        return
    run_shapes(case, kind, items, None, counter)


def run_shapes(case, kind, items, words, counter):
    if kind == 'ready':
        data = [Token(word, Span(*_), 'LATIN') for word, _ in zip(words, items)]
        tokenizer = Ready()
        spans = list(items)
        pieces = [
            (' ' if index and items[index - 1][1] < start else '') + words[index]
            for index, (start, _) in enumerate(items)
        ]
    else:
        words = list(items)
        data = ''.join(items)
        tokenizer = Tokenizer([TokenRule('ANY', r'[\w\W]')])
        spans = [(_, _ + 1) for _ in range(len(items))]
        pieces = words
    count = len(words)
    G = fact('G', ['y', attribute('z').repeatable()])
    H = fact('H', ['x', 'w', attribute('all').repeatable()])
    parts = [rule(eq(_)) for _ in words]
    whole = (spans[0][0], spans[-1][1])
    one = (spans[0], (spans[1][0], spans[-1][1])) if count > 1 else None
    shapes = [
        (rule(*parts).interpretation(H.x), {'x': ''.join(pieces), 'all': []}, [whole]),
        (rule(*(_.interpretation(H.all) for _ in parts)), {'all': words}, spans),
        (rule(*(_.interpretation(G.z) for _ in parts)).interpretation(G).interpretation(H.x),
         {'x': {'z': words}, 'all': []}, spans),
        (rule(*(_.interpretation(G.y).interpretation(G).interpretation(H.all) for _ in parts)),
         {'all': [{'y': _, 'z': []} for _ in words]}, spans),
    ]
    if one:
        shapes.append((
            rule(parts[0].interpretation(H.x), rule(*parts[1:]).interpretation(H.w)),
            {'x': words[0], 'w': words[1] + ''.join(pieces[2:]), 'all': []}, list(one)
        ))
        shapes.append((
            rule(parts[0].interpretation(G.y), rule(*parts[1:]).interpretation(G.z)
                 ).interpretation(G).interpretation(H.x),
            {'x': {'y': words[0], 'z': [words[1] + ''.join(pieces[2:])]}, 'all': []}, list(one)
        ))
    for number, (item, value, places) in enumerate(shapes):
        match = Parser(rule(item).interpretation(H), tokenizer=tokenizer).match(data)
        counter.state(case, number)
        counter.step()
        counter.trace()
        where = '%s %r, shape %d' % (kind, items, number)
        if [(_.value, tuple(_.span)) for _ in match.tokens] != list(zip(words, spans)):
            raise Mismatch('%s: tokens are %r' % (where, match.tokens))
        if tuple(match.span) != whole:
            raise Mismatch('%s: span is %r' % (where, match.span))
        made = match.fact
        actual = json.loads(json.dumps(made.as_json))
        if actual != value:
            raise Mismatch('%s: as_json is %r, expected %r' % (where, actual, value))
        found = sorted(tuple(_) for _ in made.spans)
        if found != sorted(places):
            raise Mismatch('%s: spans are %r, expected %r' % (where, found, places))


class C19(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('trees', lambda: tree_cases(5 if deep else 4, MARKS), run_tree,
                   'trees of %d marks up to %d nodes, 3 gaps, 3 beginnings' % (
                       len(MARKS), 5 if deep else 4)),
            Family('deep', lambda: tree_cases(6 if deep else 5, FEW), run_tree,
                   'trees of %d marks up to %d nodes' % (len(FEW), 6 if deep else 5)),
            Family('order', lambda: order_cases(4 if deep else 3), run_order,
                   'facts of %d attributes of 3 kinds in every order' % (4 if deep else 3)),
            Family('repeat', lambda: itertools.chain(
                repeat_cases(2, PARTS), repeat_cases(3, PARTS if deep else PARTS[2:6])
            ), run_repeat(4 if deep else 3), 'all texts up to %d words' % (4 if deep else 3)),
            Family('values', value_cases, run_value, '%d values in 11 places' % len(anything())),
            Family('size', lambda: size_cases(500 if deep else 130), run_size,
                   'facts of up to 1001 words in 5 shapes'),
            Family('wide', lambda: wide_cases(500 if deep else 130), run_size,
                   'facts of 2-7 words with %d kinds of blanks up to 70000 between' % len(BLANKS)),
            Family('tokens', lambda: itertools.chain(
                token_cases(4 if deep else 3, 4), piece_cases(5 if deep else 4)), run_tokens,
                'up to %d ready tokens of any spans in order, texts where blanks are words' % (4 if deep else 3)),
            Family('texts', lambda: text_cases('аб1-', 5 if deep else 3), run_text,
                   '8 rules, all texts up to %d words, with and without a tagger' % (5 if deep else 3)),
        ]


CHECK = C19(
    'C19',
    rule='state = (rule, text with blanks); transition = one match or fact read; '
         'trace = one match or fact compared with the model'
)
