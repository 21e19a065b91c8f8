"""C28: results depend on the tokens, not on the blanks between them."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, gram as grammars, stub
from mc.yg import PLAIN, Parser, positions, text_of, token_range, uids

from yargy import rule, or_
from yargy.interpretation import fact, attribute
from yargy.pipelines import pipeline, morph_pipeline
from yargy.predicates import gram, eq, true, type as type_, in_caseless
from yargy.relations import gnc_relation
from yargy.tokenizer import Tokenizer, MorphTokenizer

from checks import c01, c05, c09

STUB = stub.tokenizer(c05.FIRST)
NAMES = [(name, index) for name in sorted(c05.RECIPES) for index in range(3)]
# true() and not_() take any token
GREEDY = {('morphs', 2), ('tags', 0), ('tags', 1), ('tags', 2)}
LETTERS = {'RU': 'абвАщ', 'INT': '79'}


def kind(word):
    for name, letters in LETTERS.items():
        if word[0] in letters:
            return name


def may_touch(left, right):
    """Can stand without a blank between them."""
    return kind(left) is None or kind(left) != kind(right)


def build(words, gaps):
    """gaps: one more than words"""
    text = gaps[0]
    spans = []
    for word, gap in zip(words, gaps[1:]):
        spans.append((len(text), len(text) + len(word)))
        text += word + gap
    return text, spans


def patterns(words, choices, ends):
    inner = [
        choices if may_touch(left, right) else [_ for _ in choices if _]
        for left, right in zip(words, words[1:])
    ]
    for start in ends:
        for stop in ends:
            for chosen in itertools.product(*inner):
                yield (start,) + chosen + (stop,)


@functools.lru_cache(None)
def parser_of(name, index):
    return Parser(c05.RECIPES[name]()[index], tokenizer=STUB, tagger=c05.Labels())


# ------------------------------------------------ what is reported

def squeeze(value):
    if isinstance(value, str):
        return value.replace(' ', '')
    if isinstance(value, (list, tuple)):
        return [squeeze(_) for _ in value]
    if isinstance(value, dict):
        return [(key, squeeze(item)) for key, item in value.items()]
    return value


def strings(value):
    if isinstance(value, str):
        yield value
    elif isinstance(value, (list, tuple)):
        for item in value:
            for _ in strings(item):
                yield _
    elif isinstance(value, dict):
        for item in value.values():
            for _ in strings(item):
                yield _


def values_of(match):
    """The value, numbers of tokens of parts."""
    value = c05.read(lambda: match.fact)
    if hasattr(value, 'as_json'):
        return value.as_json, [tuple(_) for _ in value.spans]
    return value, []


def report(match, spans, where):
    """Everything by numbers of tokens instead of offsets."""
    if match is None:
        return None, None
    numbers = {span: number for number, span in enumerate(spans)}
    starts = {start: number for number, (start, _) in enumerate(spans)}
    stops = {stop: number + 1 for number, (_, stop) in enumerate(spans)}

    def convert(span):
        start, stop = span
        if start not in starts or stop not in stops:
            raise Mismatch('%s: span %r is not between tokens %r' % (where, span, spans))
        return (starts[start], stops[stop])

    tokens = []
    for token in match.tokens:
        span = tuple(token.span)
        if span not in numbers:
            raise Mismatch('%s: token %r is not of the text, tokens are at %r' % (where, token, spans))
        tokens.append((
            numbers[span], token.value, token.type, getattr(token, 'tag', None),
            [(_.normalized, sorted(_.grams.values)) for _ in getattr(token, 'forms', None) or ()]
        ))
    value, places = values_of(match)
    for string in strings(value):
        if string != ' '.join(string.split()):
            raise Mismatch('%s: blanks of the text are in value %r' % (where, string))
    shape = [(_.label, len(_.children)) for _ in match.tree.walk()]
    return (
        convert(tuple(match.span)), tokens, shape,
        [convert(_) for _ in places], squeeze(value)
    ), value


def observe(parser, text, spans):
    """Two lists: without blanks in values, values"""
    result = []
    exact = []
    for method in ('match', 'find', 'findall', 'extract'):
        found = getattr(parser, method)(text)
        for match in [found] if method in ('match', 'find') else found:
            item, value = report(match, spans, '%s(%r)' % (method, text))
            result.append((method, item))
            exact.append((method, repr(value)))
    return result, exact


# ------------------------------------------------ blanks between tokens

def gap_cases(words, low, high):
    for count in range(low, high + 1):
        for chosen in itertools.product(words, repeat=count):
            yield chosen


def run_gaps(choices, ends, names=NAMES):
    def run(words, counter):
        base, spans = build(words, ('',) + (' ',) * (len(words) - 1) + ('',))
        expected = {
            name: observe(parser_of(*name), base, spans) for name in names
        }
        seen = {}
        for gaps in patterns(words, choices, ends):
            text, spans = build(words, gaps)
            where = tuple(bool(_) for _ in gaps[1:-1])
            for name in names:
                actual, exact = observe(parser_of(*name), text, spans)
                counter.state(words, gaps, name)
                counter.step(4)
                counter.trace(len(actual))
                if actual != expected[name][0]:
                    raise Mismatch('rule %s %d: %r differs from %r: %s' % (
                        name + (text, base, c05.difference(actual, expected[name][0]))
                    ))
                # only whether there is a blank may be seen
                other, wanted = seen.setdefault((where, name), (text, exact))
                if exact != wanted:
                    raise Mismatch('rule %s %d: values of %r differ from %r: %s' % (
                        name + (text, other, c05.difference(exact, wanted))
                    ))
                if all(where) and exact != expected[name][1]:
                    raise Mismatch('rule %s %d: values of %r differ from %r: %s' % (
                        name + (text, base, c05.difference(exact, expected[name][1]))
                    ))
    return run


# ------------------------------------------------ text no rule can use

FILLERS = ('', '#', ' # ', '% #', ' ')


def around_cases(words, high):
    for left in range(high + 1):
        for right in range(high + 1 - left):
            for first in itertools.product(words, repeat=left):
                for second in itertools.product(words, repeat=right):
                    yield (first, second)


@functools.lru_cache(None)
def untagged(name, index):
    return Parser(c05.RECIPES[name]()[index], tokenizer=STUB)


def spread(matches):
    return [
        (
            tuple(_.span), [(token.value, tuple(token.span), token.type) for token in _.tokens],
            [(node.label, len(node.children)) for node in _.tree.walk()],
            repr(values_of(_)[0]), values_of(_)[1]
        ) for _ in matches
    ]


def shift(items, offset):
    def move(span):
        return (span[0] + offset, span[1] + offset)

    return [
        (
            move(span), [(value, move(place), type) for value, place, type in tokens],
            shape, value, [move(_) for _ in places]
        ) for span, tokens, shape, value, places in items
    ]


@functools.lru_cache(100000)
def alone(name, words, method):
    return spread(getattr(untagged(*name), method)(' '.join(words)))


def run_around_with(fillers, middles):
    return lambda case, counter: run_around(case, counter, fillers, middles)


def run_around(case, counter, fillers, middles):
    """before + first + middle + second + after, the middle splits."""
    first, second = case
    for before in fillers:
        for middle in middles:
            for after in fillers[:3]:
                left, right = ' '.join(first), ' '.join(second)
                text = before + left + middle + right + after
                start = len(before)
                stop = len(before + left + middle)
                for name in NAMES:
                    if name in GREEDY:
                        continue
                    for method in ('findall', 'extract'):
                        actual = spread(getattr(untagged(*name), method)(text))
                        expected = (
                            shift(alone(name, first, method), start)
                            + shift(alone(name, second, method), stop)
                        )
                        counter.state(name, case, before, middle, after)
                        counter.step()
                        counter.trace()
                        if method == 'extract':
                            actual.sort(key=repr)
                            expected.sort(key=repr)
                        if actual != expected:
                            raise Mismatch('rule %s %d: %s(%r): %s' % (
                                name + (method, text, c05.difference(actual, expected))
                            ))


# ------------------------------------------------ a phrase in other text

def grammar_cases(low, high):
    for ast in enum.canonical_asts(low, high):
        yield (ast, ())


def run_context(words, fillers):
    def run(case, counter):
        item = grammars.number_grammar(case)
        parser = Parser(grammars.build(item), tokenizer=PLAIN)
        matched = {}
        cfg = grammars.CFG(item)
        used = []
        for letters in words:
            try:
                grammars.Trees(cfg, letters, 1500).all()
            except grammars.TooMany:
                # takes too long
                counter.note('skipped_more_than_1500_trees')
                continue
            if len(letters) > 4 and c01.has_p1(item):
                counter.note('skipped_known_finding')
                continue
            used.append(letters)
        for letters in used:
            match = parser.match(text_of(letters))
            matched[letters] = None if match is None else uids(match)
            counter.step()
        for letters in used:
            text = text_of(letters)
            offsets = positions(letters)
            size = len(letters)
            found = {token_range(_, offsets) for _ in parser.extract(text)}
            chosen = {token_range(_, offsets): uids(_) for _ in parser.findall(text)}
            expected = {
                (start, stop)
                for start in range(size) for stop in range(start + 1, size + 1)
                if matched[letters[start:stop]] is not None
            }
            counter.state(case, letters)
            counter.step(2)
            counter.trace(2)
            if found != expected:
                raise Mismatch('%s: in %r %r are found, alone %r are matched' % (
                    grammars.show(case[0]), text, sorted(found), sorted(expected)
                ))
            for start, stop in expected:
                lonely = not any(
                    start < other and this < stop
                    for this, other in expected if (this, other) != (start, stop)
                )
                if lonely and (start, stop) not in chosen:
                    raise Mismatch('%s: %r of %r is not given by findall' % (
                        grammars.show(case[0]), letters[start:stop], text
                    ))
            for (start, stop), leafs in chosen.items():
                if leafs != matched[letters[start:stop]]:
                    raise Mismatch('%s: %r of %r is derived other than alone: %r, %r' % (
                        grammars.show(case[0]), letters[start:stop], text,
                        leafs, matched[letters[start:stop]]
                    ))
            for before, after in fillers:
                other = before + text + after
                moved = {
                    (token_range(_, {
                        key + len(before): value for key, value in offsets.items()
                    }), uids(_)) for _ in parser.findall(other)
                }
                counter.step()
                counter.trace()
                if moved != set(chosen.items()):
                    raise Mismatch('%s: findall(%r) gives %r, without text around %r' % (
                        grammars.show(case[0]), other, moved, chosen
                    ))
    return run


# ------------------------------------------------ far away

def far_cases(sizes):
    for size in sizes:
        for filler in (' ', '\t', '\xa0', '# ', '#', '\n', 'ы ', '5 '):
            for name in ('lines', 'facts', 'morph_lines', 'agreements', 'recursive', 'extended'):
                for index in range(3):
                    yield (size, filler, name, index)


FAR = ('а', 'б', 'а б', 'б а', 'а а', 'а-в', 'а а б', 'а в', 'в а б', 'б а в')


def run_far(case, counter):
    size, filler, name, index = case
    parser = untagged(name, index)
    for phrase in FAR:
        before, after = filler * size, filler * size
        if not before.endswith((' ', '\t', '\n', '#', '\xa0')) or phrase[-1] == filler[0]:
            raise Mismatch('bad filler')
        if not filler.strip(' '):
            texts = (before + phrase + after, before + phrase)
        else:
            texts = (before + phrase + ' ' + after,)
        for text in texts:
            actual = spread(parser.findall(text))
            expected = shift(alone((name, index), tuple(phrase.split(' ')), 'findall'), len(before))
            counter.state(case, phrase, len(text))
            counter.step()
            counter.trace()
            if actual != expected:
                raise Mismatch('rule %s %d: %r after %d of %r: %s' % (
                    name, index, phrase, size, filler, c05.difference(actual, expected)
                ))


# ------------------------------------------------ everywhere in a long text

EVERYWHERE = {
    'pair': (lambda: rule('а', 'б'), 'а б'),
    'word': (lambda: rule(in_caseless({'а'})), 'а'),
    'run': (lambda: rule(type_('INT')).repeatable(), '1 2 3'),
    'line': (lambda: pipeline(['а-б', 'в']), 'а-б'),
    'fact': (lambda: rule(rule('а').named('Y'), rule('б').optional(), '!').interpretation(
        fact('F', ['x'])), 'а !'),
}


def everywhere_cases(sizes):
    for size in sizes:
        for name in sorted(EVERYWHERE):
            # time is quadratic in the number of candidates
            if name == 'run' and size > 20000:
                continue
            for fillers in (10, 11, 12, 13) if name == 'run' or size > 20000 else (1, 2, 3, 4):
                for call in ('findall', 'extract') if name != 'run' else ('findall',):
                    yield (size, name, fillers, call)


def run_everywhere(case, counter):
    size, name, fillers, call = case
    make, phrase = EVERYWHERE[name]
    piece = phrase + ' ' + 'ы ' * fillers
    words = len(phrase.replace('-', ' - ').split()) + fillers
    copies = size // words
    text = 'ы ' + piece * copies
    actual = [
        (_.span.start, _.span.stop) for _ in getattr(Parser(make(), tokenizer=Tokenizer()), call)(text)
    ]
    expected = [
        (2 + index * len(piece), 2 + index * len(piece) + len(phrase)) for index in range(copies)
    ]
    counter.state(case)
    counter.step()
    counter.trace(len(expected))
    if actual != expected:
        wrong = sorted(set(expected) ^ set(actual))
        raise Mismatch('rule %s: %d copies of %r, each followed by %d other words: %d found by %s, wrong: %r' % (
            name, copies, phrase, fillers, len(actual), call, wrong[:5]
        ))


# ------------------------------------------------ the real dictionary

def make_real():
    F = fact('F', ['adj', 'noun', attribute('all').repeatable()])
    gnc = gnc_relation()
    return {
        'phrase': rule(
            gram('ADJF').interpretation(F.adj.inflected({'nomn', 'sing'})).match(gnc).repeatable(),
            gram('NOUN').interpretation(F.noun.normalized()).match(gnc)
        ).interpretation(F),
        'lines': morph_pipeline(['новая школа', 'д. 5', 'дом', 'р.']).interpretation(F.noun).interpretation(F),
        'sum': rule(
            type_('INT').interpretation(F.adj), rule(in_caseless({'р', 'руб'}), '.').interpretation(F.noun),
            rule(',').optional()
        ).interpretation(F.all).interpretation(F),
        'all': or_(rule(gram('NOUN')), rule(type_('INT')), rule('.')).repeatable().interpretation(
            F.noun.normalized()).interpretation(F),
    }


@functools.lru_cache(None)
def real(name):
    return Parser(make_real()[name], tokenizer=MorphTokenizer())


REAL_WORDS = (
    ('новая', 'школа', '!', 'школы'), ('Новой', 'школе', ',', 'дом'),
    ('5', 'р', '.', '7', 'руб', '.'), ('д', '.', '5', ',', 'новая', 'школа'),
    ('в', 'новые', 'красивые', 'школы'), ('12', 'руб', '.', ','), ('abc', '5', 'р', '.'),
    ('(', 'новый', 'дом', ')'), ('дом', '№', '5'),
)
REAL_GAPS = ('', ' ', ' \t ')
TYPES = (
    lambda word: word.isdigit(), lambda word: word.isalpha() and word.isascii(),
    lambda word: word.isalpha() and not word.isascii(),
)


def real_cases():
    for name in sorted(make_real()):
        for words in REAL_WORDS:
            yield (name, words)


def run_real(case, counter):
    name, words = case
    parser = real(name)
    base, spans = build(words, ('',) + (' ',) * (len(words) - 1) + ('',))
    expected, _ = observe(parser, base, spans)
    inner = [
        REAL_GAPS[1:] if any(_(a) and _(b) for _ in TYPES) else REAL_GAPS
        for a, b in zip(words, words[1:])
    ]
    for gaps in itertools.product(*inner):
        text, spans = build(words, ('',) + gaps + ('',))
        actual, exact = observe(parser, text, spans)
        counter.state(case, gaps)
        counter.step(4)
        counter.trace(len(actual))
        if actual != expected:
            raise Mismatch('%s: %r differs from %r: %s' % (
                name, text, base, c05.difference(actual, expected)
            ))


def wide_cases(sizes):
    for size in sizes:
        for words in (('а', 'б'), ('в', 'а', 'б'), ('а', '-', 'б'), ('б', 'а', 'а')):
            yield (size, words)


def run_wide(case, counter):
    size, words = case
    run_gaps((' ', ' ' * size), ('',))(words, counter)


def width_cases(full, limit):
    for size in range(1, full + 1):
        yield (size,)
    for size in enum.sizes(limit):
        if size > full:
            yield (size,)


def make_widths():
    F = fact('F', ['x', attribute('all').repeatable()])
    words = rule(eq('а'), eq('б').optional(), eq('!').optional())
    return {
        'text': words.interpretation(F.x).interpretation(F),
        'values': rule(
            rule('а').interpretation(F.all), rule('б').optional().interpretation(F.all),
            rule('!').optional().interpretation(F.x)
        ).interpretation(F),
        'normal': words.interpretation(F.x.normalized()).interpretation(F),
        'line': or_(pipeline(['а б !', 'а !', 'а б', 'а'])).interpretation(F.x).interpretation(F),
    }


@functools.lru_cache(None)
def width_parser(name):
    return Parser(make_widths()[name], tokenizer=Tokenizer())


WIDTH_TEXTS = (('а', 'б', '!'), ('а', '!'))


def run_widths(blanks):
    return lambda case, counter: run_widths_with(case, counter, blanks)


def run_widths_with(case, counter, blanks):
    size, = case
    for name in ('text', 'values', 'normal', 'line'):
        parser = width_parser(name)
        for blank in blanks if size < 100 else blanks[:1]:
            gap = blank * size
            for words in WIDTH_TEXTS:
                for edge, inner in ((gap, ' '), ('', gap)):
                    text = edge + inner.join(words) + edge
                    start, stop = len(edge), len(text) - len(edge)
                    value = ' '.join(words)
                    expected = {'x': value, 'all': []}
                    if name == 'values':
                        expected = {'x': '!' if '!' in words else None, 'all': [_ for _ in words if _ != '!']}
                    counter.state(case, name, words, blank, edge != '', inner)
                    counter.step()
                    for match in (parser.find(text),):
                        counter.trace()
                        actual = match and (tuple(match.span), match.fact.x, match.fact.all)
                        if actual != ((start, stop), expected['x'], expected['all']):
                            raise Mismatch('%s rule, words %r, gap of %d %r: %r' % (
                                name, words, size, blank, actual
                            ))


# every character python takes for a blank, except for ends of lines
BLANKS = [
    chr(_) for _ in range(0x10000) if chr(_).isspace() and chr(_) not in '\n\r'
]


def blank_cases():
    for char in BLANKS:
        yield (char,)


def run_blank(deep):
    return lambda case, counter: run_blank_with(case[0], counter, NAMES if deep else NAMES[::5])


def run_blank_with(char, counter, names):
    run_gaps((' ', char, char + char), ('', char), names)(('а', 'б', 'в'), counter)
    run_gaps((' ', '', char), ('', char), names)(('а', '-', 'в'), counter)


def all_words(size):
    return [tuple(_) for _ in enum.words('ab', 1, size)]


# ------------------------------------------------ every pair of characters

MARK = fact('Mark', ['a', 'b', 'c', 'd'])
GAPS = ('', ' ', '  ', '\t', '\u00a0', ' ' * 60)


@functools.lru_cache(None)
def mark_parsers(size):
    word = functools.partial(rule, *[true()] * size)
    return {
        name: Parser(word().interpretation(mark).interpretation(MARK), tokenizer=PLAIN)
        for name, mark in (
            ('a', MARK.a), ('b', MARK.b.normalized()), ('c', MARK.c.inflected()), ('d', MARK.d.custom(str.upper)))
    }


def mark_cases():
    chars = [_ for _ in sorted(c09.TYPES) if c09.TYPES[_]]
    for first in chars:
        for second in chars:
            yield (first, second)


# one or two of each kind, and those that stick to words
FEW_MARKS = set('\n!"\'(,-.09;[aZ«»ʼЯёё—“”…№')


def run_mark(deep):
    def run(case, counter):
        triples = deep or set(case) <= FEW_MARKS
        check_mark(case, counter, (('', ''), (case[1], ''), ('', case[0])) if triples else (('', ''),))
    return run


def check_mark(case, counter, surroundings):
    """A value has a space exactly where the text has blanks."""
    first, second = case
    for before, after in surroundings:
        for gaps in itertools.product(GAPS, repeat=(not before == '') + (not after == '') + 1):
            parts = [_ for _ in (before, first, second, after) if _]
            text = parts[0] + ''.join(gap + part for gap, part in zip(gaps, parts[1:]))
            tokens = list(PLAIN(text))
            if [_.value for _ in tokens] != parts:
                # boundaries are other
                continue
            expected = parts[0] + ''.join((gap and ' ') + part for gap, part in zip(gaps, parts[1:]))
            for name, parser in mark_parsers(len(parts)).items():
                counter.state(text, name)
                counter.step()
                counter.trace()
                match = parser.match(text)
                value = getattr(match.fact, name)
                wanted = {'a': str, 'b': str.lower, 'c': str.lower, 'd': str.upper}[name](expected)
                if value != wanted:
                    raise Mismatch('value %s of %r is %r, expected %r' % (name, text, value, wanted))
                if [tuple(_) for _ in match.fact.spans] != [(0, len(text))]:
                    raise Mismatch('spans of %r are %r' % (text, match.fact.spans))


# ends of lines are words too

LINE_WORDS = ('а', '-', '\n', '\r\n')


def break_cases(high):
    for size in range(1, high + 1):
        for words in itertools.product(LINE_WORDS, repeat=size):
            yield words


def apart(left, right):
    # two words of one class need a blank
    return left == '-' or right == '-' or (left == 'а') != (right == 'а')


@functools.lru_cache(None)
def break_parser():
    return Parser(rule(true()).repeatable().interpretation(MARK.a).interpretation(MARK), tokenizer=PLAIN)


def run_break(gaps, ends):
    def run(words, counter):
        inner = [
            gaps if apart(left, right) else [_ for _ in gaps if _]
            for left, right in zip(words, words[1:])
        ]
        for start, stop in itertools.product(ends, repeat=2):
            for chosen in itertools.product(*inner):
                text, spans = build(words, (start,) + chosen + (stop,))
                counter.state(text)
                counter.step()
                counter.trace()
                match, found = break_parser().match(text), list(break_parser().findall(text))
                if match is None or len(found) != 1:
                    raise Mismatch('%r is not one phrase: %r, %r' % (text, match, found))
                value = words[0] + ''.join((gap and ' ') + word for gap, word in zip(chosen, words[1:]))
                for item in (match, found[0]):
                    if [(_.value, tuple(_.span)) for _ in item.tokens] != list(zip(words, spans)):
                        raise Mismatch('words of %r are %r' % (text, item.tokens))
                    if item.fact.a != value or item.fact.as_json != {'a': value}:
                        raise Mismatch('value of %r is %r' % (text, item.fact.a))
    return run


class C28(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        if deep:
            gaps = [
                Family('gaps', lambda: gap_cases(('а', 'б', 'в', '-', '!', '7'), 1, 3),
                       run_gaps(('', ' ', '  ', '\t', '\xa0 '), ('', ' ', '\t\t')),
                       'all texts of <= 3 of 6 words, all patterns of 5 gaps and 3 ends'),
                Family('more gaps', lambda: gap_cases(('а', 'б', '-'), 4, 4),
                       run_gaps(('', ' ', '\t '), ('', ' ')),
                       'all texts of 4 of 3 words, all patterns of 3 gaps'),
            ]
        else:
            gaps = [
                Family('gaps', lambda: gap_cases(('а', 'б', '-', '7'), 1, 3),
                       run_gaps(('', ' ', '\t  '), ('',)),
                       'all texts of <= 3 of 4 words, all patterns of 3 gaps'),
                Family('ends', lambda: gap_cases(('а', 'б', 'в', '!'), 1, 2),
                       run_gaps(('', '  '), ('', ' ', '\t')),
                       'all texts of <= 2 of 4 words, 3 ends'),
            ]
        return gaps + [
            Family('wide', lambda: wide_cases((3, 4, 5, 8, 16, 64, 100, 1000) + ((7, 32, 256, 65536) if deep else ())), run_wide,
                   'gaps of up to %d blanks' % (65536 if deep else 1000)),
            Family('widths', lambda: width_cases(4200 if deep else 300, 70000), run_widths(' \t\xa0' if deep else ' \t'),
                   'gaps of all widths up to %d and around powers up to 70000' % (4200 if deep else 300)),
            Family('blanks', blank_cases, run_blank(deep), '%d characters' % len(BLANKS)),
            Family('marks', mark_cases, run_mark(deep),
                   'all pairs of characters of all classes, threes of two of %s, %d gaps, 4 values' % (
                       'them' if deep else '%d of them' % len(FEW_MARKS), len(GAPS))),
            Family('breaks', lambda: break_cases(4 if deep else 3),
                   run_break(('', ' ', '\t\t') if deep else ('', ' '), ('', ' ', '\t ')),
                   'all texts of <= %d words and ends of lines' % (4 if deep else 3)),
            Family('around', lambda: around_cases('абв', 4 if deep else 2),
                   run_around_with(FILLERS if deep else FILLERS[:3], ('#', ' # ', '%  ##') if deep else ('#', '% #')),
                   'two phrases of <= %d words and unusable text around and between' % (4 if deep else 2)),
            Family('context', lambda: grammar_cases(1, 5 if deep else 4),
                   run_context(all_words(5 if deep else 4), (('z ', ' z'), ('z z  ', ''))),
                   'all rules of <= %d nodes, all texts of <= %d words, all parts of them' % (
                       (5, 5) if deep else (4, 4))),
            Family('far', lambda: far_cases((10, 1000, 20000) if deep else (10, 300)), run_far,
                   'phrases after and before long text'),
            Family('everywhere', lambda: everywhere_cases((300, 20000, 100000) if deep else (300, 10000)),
                   run_everywhere, 'phrases at all places of texts of %d words' % (100000 if deep else 10000)),
            Family('real', real_cases, run_real, 'real words, all patterns of 3 gaps'),
        ]


CHECK = C28(
    'C28',
    rule='state = (rule, tokens, blanks between them); transition = one parse; '
         'trace = one match compared with that of the same tokens with other blanks or other text around'
)
