"""C16: a dictionary of phrases matches exactly its phrases."""
from collections import Counter as Bag
import itertools
import re

from mc.core import Check, Family, Mismatch
from mc import enum, stub
from mc.yg import Parser

from yargy import rule, or_
from yargy.interpretation import fact
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import eq, true
from yargy.tokenizer import Tokenizer, TokenRule, RULES

F = fact('F', ['a'])

READINGS = {
    'а': [('х', ('NOUN',))],
    'б': [('х', ('NOUN',)), ('у', ('VERB',))],
    'в': [('у', ('NOUN',)), ('я', ('VERB',))],
    'г': [('г', ('NOUN',)), ('г', ('VERB',))],
    'х': [('х', ())],
}
RULE = re.compile(r'[а-яё]+|[a-z]+|\d+|[^\w\s]', re.I)
MERGED = re.compile(r'[a-z]-[a-z]|[а-яё]+|[a-z]+|\d+|[^\w\s]', re.I)

TOKENIZERS = {
    'default': (RULES, RULE),
    'merged': ([TokenRule('M', r'[a-z]-[a-z]')] + RULES, MERGED),
    'words': (
        [_ for _ in RULES if _.type != 'PUNCT' and _.type != 'OTHER'],
        re.compile(r'[а-яё]+|[a-z]+|\d+', re.I)
    ),
}

KINDS = {
    'exact': pipeline,
    'caseless': caseless_pipeline,
    'morph': morph_pipeline,
}


def normals(word):
    return {_[0] for _ in READINGS.get(word.lower(), [(word.lower(), ())])}


def same(kind, term, word):
    if kind == 'exact':
        return term == word
    if kind == 'caseless':
        return term.lower() == word.lower()
    return bool(normals(term) & normals(word))


def lines_of(kind, lines, words, pattern):
    """Lines that match the words, in order."""
    result = []
    for line in lines:
        terms = pattern.findall(line)
        if len(terms) == len(words) and all(
                same(kind, *_) for _ in zip(terms, words)):
            result.append(line)
    return result


def make_tokenizer(name):
    return stub.tokenizer(READINGS, rules=TOKENIZERS[name][0])


def texts(words, high):
    return [
        ' '.join(_)
        for size in range(1, high + 1)
        for _ in itertools.product(words, repeat=size)
    ]


def run_alone(samples):
    def run(case, counter):
        kind, name, lines = case
        pattern = TOKENIZERS[name][1]
        marked = KINDS[kind](lines).interpretation(F.a.normalized())
        parser = Parser(
            rule(marked).interpretation(F), tokenizer=make_tokenizer(name)
        )
        counter.step()
        for text in samples[kind]:
            words = pattern.findall(text)
            counter.state(case, text)
            counter.step()
            counter.trace()
            expected = lines_of(kind, lines, words, pattern)
            match = parser.match(text)
            where = '%s dictionary %r, text %r' % (kind, lines, text)
            if (match is not None) != bool(expected):
                raise Mismatch('%s: match is %r, lines that match are %r' % (
                    where, match, expected
                ))
            if match:
                if [_.value for _ in match.tokens] != words:
                    raise Mismatch('%s: tokens %r' % (where, match.tokens))
                if match.fact.a != expected[0]:
                    raise Mismatch('%s: line %r is reported, the first that matches is %r' % (
                        where, match.fact.a, expected[0]
                    ))
            counter.step()
            wanted = Bag()
            for start in range(len(words)):
                for stop in range(start + 1, len(words) + 1):
                    for line in lines_of(kind, lines, words[start:stop], pattern):
                        wanted[tuple(words[start:stop]), line] += 1
            actual = Bag(
                (tuple(_.value for _ in match.tokens), match.fact.a)
                for match in parser.extract(text)
            )
            counter.trace(sum(actual.values()))
            if actual != wanted:
                raise Mismatch('%s: extract gives %r, expected %r' % (
                    where, sorted(actual.items()), sorted(wanted.items())
                ))
    return run


VOCABULARY = {
    'exact': ('a', 'A', 'b'),
    'caseless': ('a', 'A', 'b'),
    'morph': ('а', 'б', 'Г'),
}
WORDS = {
    'exact': ('a', 'A', 'b', '1'),
    'caseless': ('a', 'A', 'B', '1'),
    'morph': ('а', 'Б', 'в', 'г'),
}


def dictionaries(count, longest, kinds=tuple(sorted(KINDS)), vocabulary=VOCABULARY):
    def cases():
        for kind in kinds:
            lines = texts(vocabulary[kind], longest)
            for size in range(1, count + 1):
                for chosen in itertools.product(lines, repeat=size):
                    yield (kind, 'default', chosen)
    return cases


# other writings of lines, split by other tokenizers
ODD_LINES = ('a-b', 'a b', 'A - B', 'ab', 'a, b.', ' a  b ', 'а-Б', 'б', 'а 1', '1', 'x', 'Хx1', 'a-b a-b')
ODD_TEXTS = (
    'a-b', 'a b', 'A-B', 'a - b', 'ab', 'a, b.', 'a,b', 'а-б', 'в', 'б 1', '1',
    'X', 'х x 1', 'бx1', 'a-b A-b', 'Г'
)


def odd(count):
    def cases():
        for kind in sorted(KINDS):
            for name in sorted(TOKENIZERS):
                for size in range(1, count + 1):
                    for chosen in itertools.permutations(ODD_LINES, size):
                        yield (kind, name, chosen)
    return cases


# ------------------------------------------------------------ contexts

def choices(kind, lines, words):
    """How many of the first words the dictionary may take."""
    for stop in range(1, len(words) + 1):
        if lines_of(kind, lines, words[:stop], RULE):
            yield stop


def language(kind, lines, shape, words):
    """Does the rule of this shape derive the words?"""
    def ends(item, start):
        if item == 'D':
            return {
                stop for stop in range(start + 1, len(words) + 1)
                if lines_of(kind, lines, words[start:stop], RULE)
            }
        return {start + 1} if words[start:start + 1] == (item,) else set()

    def sequence(items):
        starts = {0}
        for item in items:
            starts = set().union(*(ends(item, _) for _ in starts))
        return starts

    for items in SHAPES[shape][1](len(words)):
        if len(words) in sequence(items):
            return True
    return False


def repeats(limit):
    return [['D'] * _ for _ in range(1, limit + 1)]


# name -> (rule over a dictionary made by make(), sequences it derives)
SHAPES = {
    'after': (lambda make: rule('z', make()), lambda _: [['z', 'D']]),
    'before': (lambda make: rule(make(), 'z'), lambda _: [['D', 'z']]),
    'optional': (lambda make: rule(make().optional(), 'z'), lambda _: [['D', 'z'], ['z']]),
    'repeat': (lambda make: make().repeatable(), repeats),
    'bounded': (lambda make: make().repeatable(min=2, max=3), lambda _: [['D'] * 2, ['D'] * 3]),
    'shared': (lambda make: (lambda d: rule(d, d))(make()), lambda _: [['D', 'D']]),
    'shared-or': (
        lambda make: (lambda d: or_(rule(d, 'z'), rule('z', d), rule(d)))(make()),
        lambda _: [['D', 'z'], ['z', 'D'], ['D']]
    ),
    'two': (lambda make: rule(make(), make().optional()), lambda _: [['D', 'D'], ['D']]),
    'or': (lambda make: or_(make(), rule('z')), lambda _: [['D'], ['z']]),
    'named': (lambda make: rule(make().named('N'), make().named('N').optional(), 'z'),
              lambda _: [['D', 'z'], ['D', 'D', 'z']]),
    'nested': (lambda make: rule(rule(rule(make()))), lambda _: [['D']]),
    'lines': (lambda make: rule(make(), eq('z').repeatable(), make()),
              lambda size: [['D'] + ['z'] * _ + ['D'] for _ in range(1, size)]),
}


def context_cases(count, longest, kinds):
    def cases():
        for shape in sorted(SHAPES):
            for kind in kinds:
                lines = texts(VOCABULARY[kind][:2], longest)
                for size in range(1, count + 1):
                    for chosen in itertools.combinations(lines, size):
                        yield (shape, kind, chosen)
    return cases


def run_context(high):
    def run(case, counter):
        shape, kind, lines = case
        item = SHAPES[shape][0](lambda: KINDS[kind](lines))
        parser = Parser(item, tokenizer=make_tokenizer('default'))
        counter.step()
        words = WORDS[kind][:2] + ('z',)
        for size in range(1, high + 1):
            for chosen in itertools.product(words, repeat=size):
                counter.state(case, chosen)
                counter.step()
                counter.trace()
                expected = language(kind, lines, shape, chosen)
                match = parser.match(' '.join(chosen))
                if (match is not None) != expected:
                    raise Mismatch('%s of %s dictionary %r, text %r: match is %r' % (
                        shape, kind, lines, ' '.join(chosen), match
                    ))
    return run


def run_marked(case, counter):
    """The line is reported from every place the dictionary stands in."""
    place, kind, lines = case
    D = KINDS[kind](lines)
    attribute = F.a.normalized()
    if place == 'shared':
        marked = D.interpretation(attribute)
        item = or_(rule('z', marked), rule(marked, 'z'), rule(marked))
        pairs = [(('z',), ()), ((), ('z',)), ((), ())]
    elif place == 'shared-inside':
        # the dictionary is shared, the marks are not
        item = or_(
            rule('z', D.interpretation(attribute)), rule(D.interpretation(attribute), 'z'),
        )
        pairs = [(('z',), ()), ((), ('z',))]
    elif place == 'named':
        item = rule(D.named('N').interpretation(attribute), rule('z').optional())
        pairs = [((), ()), ((), ('z',))]
    elif place == 'nested':
        item = rule(rule(rule(D)).interpretation(attribute), 'z')
        pairs = [((), ('z',))]
    elif place == 'optional':
        item = rule('z', D.interpretation(attribute).optional(reverse=True))
        pairs = [(('z',), ())]
    elif place == 'unmarked-twice':
        item = rule(D, 'z', D.interpretation(attribute))
        pairs = [((texts(VOCABULARY[kind], 1)[0], 'z'), ())]
        if not lines_of(kind, lines, pairs[0][0][:1], RULE):
            return
    else:
        raise ValueError(place)
    parser = Parser(item.interpretation(F), tokenizer=make_tokenizer('default'))
    counter.step()
    for text in texts(WORDS[kind][:3], 2):
        words = tuple(text.split())
        expected = lines_of(kind, lines, words, RULE)
        if not expected:
            continue
        for left, right in pairs:
            whole = ' '.join(left + words + right)
            counter.state(case, whole)
            counter.step()
            counter.trace()
            match = parser.match(whole)
            if match is None:
                raise Mismatch('%s, %s dictionary %r, text %r: no match' % (place, kind, lines, whole))
            if match.fact.a != expected[0]:
                raise Mismatch('%s, %s dictionary %r, text %r: line %r is reported, expected %r' % (
                    place, kind, lines, whole, match.fact.a, expected[0]
                ))


# ------------------------------------------------------------ blank lines

BLANKS = ('', ' ', '\n\t')


def blank_cases(count):
    for kind in sorted(KINDS):
        first, second = VOCABULARY[kind][:2]
        lines = BLANKS + (first, second, first + ' ' + second)
        for size in range(1, count + 1):
            for chosen in itertools.product(lines, repeat=size):
                if any(not _.strip() for _ in chosen):
                    yield (kind, 'default', chosen)


def blank_contexts():
    for shape in sorted(SHAPES):
        for kind in sorted(KINDS):
            first, second = VOCABULARY[kind][:2]
            for lines in [('',), ('', ' '), ('', first), (first, ' ', second), (first + ' ' + second, first, '')]:
                yield (shape, kind, lines)


# ------------------------------------------------------------ which line is preferred

def prefer_cases(count, high):
    for kind in sorted(KINDS):
        lines = texts(VOCABULARY[kind][:2], 2) + texts(VOCABULARY[kind][:1], 4)[2:high]
        for size in range(1, count + 1):
            for chosen in itertools.permutations(lines, size):
                yield (kind, chosen)


REST = {
    'any': (lambda: true().optional().repeatable(), lambda words: True),
    'one': (lambda: true().optional(), lambda words: len(words) < 2),
    'z': (lambda: eq('z').repeatable().optional(), lambda words: not words.strip('z')),
}


def run_prefer(case, counter):
    """Lines of several lengths fit: the earliest one is taken."""
    kind, lines = case
    made = [
        (rest, wrap, Parser(
            rule(
                wraps(KINDS[kind](lines)).interpretation(F.a.normalized()), make()
            ).interpretation(F),
            tokenizer=make_tokenizer('default')
        ), fits)
        for rest, (make, fits) in sorted(REST.items())
        for wrap, wraps in (('bare', lambda _: _), ('nested', lambda _: rule(rule(_).named('N'))))
    ]
    words = VOCABULARY[kind][:2] + ('z',)
    for size in range(1, 4):
        for chosen in itertools.product(words, repeat=size):
            for rest, wrap, parser, fits in made:
                counter.state(case, chosen, rest, wrap)
                counter.step()
                counter.trace()
                fit = [
                    line for line in lines
                    if lines_of(kind, [line], chosen[:len(line.split())], RULE)
                    and fits(''.join(chosen[len(line.split()):]))
                ]
                match = parser.match(' '.join(chosen))
                actual = match.fact.a if match else None
                if actual != (fit[0] if fit else None):
                    raise Mismatch('%s dictionary %r, then %s, text %r: line %r, all that fit are %r' % (
                        kind, lines, rest, ' '.join(chosen), actual, fit
                    ))


# ------------------------------------------------------------ many readings

def readings_cases(count):
    for size in range(1, count + 1):
        for index in range(size):
            for other in range(size):
                yield (size, index, other)


def run_readings(case, counter):
    """Every reading of a word counts, however many it has."""
    size, index, other = case
    words = 'абвгдежзиклмнопрстуф'
    # normal forms are words
    items = [(words[_] * 2, ('NOUN',)) for _ in range(size)]
    readings = {words[_] * 2: [(words[_] * 2, ('NOUN',))] for _ in range(size)}
    readings['х'] = items
    # other word that shares one reading
    readings['ц'] = [('щщ', ('VERB',))] * other + [items[index]]
    tokenizer = stub.tokenizer(readings)
    for line in (words[index] * 2, 'ц', 'х', 'щщ ' + words[index] * 2, words[index] * 2 + ' х'):
        parser = Parser(
            rule(morph_pipeline(['я', line]).interpretation(F.a.normalized())).interpretation(F),
            tokenizer=tokenizer
        )
        for text in ('х', 'ц', words[index] * 2, 'щщ', 'щщ х', 'ц ц', 'х ц', 'ц х', words[index] * 2 + ' щщ'):
            terms, found = line.split(), text.split()
            expected = len(terms) == len(found) and all(
                {_[0] for _ in readings.get(a, [(a,)])} & {_[0] for _ in readings.get(b, [(b,)])}
                for a, b in zip(terms, found)
            )
            match = parser.match(text)
            counter.state(case, line, text)
            counter.step()
            counter.trace()
            if (match is not None) != expected or match and match.fact.a != line:
                raise Mismatch('line %r, text %r, readings %r: match is %r' % (
                    line, text, [readings.get(_) for _ in found], match
                ))


# ------------------------------------------------------------ capital letters

CAPITALS = ('роза', 'Роза', 'РОЗА', 'ёж')
FORMS = ('роза', 'Роза', 'еж', 'ЁЖ')


def capital_cases(words):
    """Analysers that tell capital letters, every choice of normal forms."""
    choices = [(_,) for _ in FORMS] + list(itertools.permutations(FORMS, 2))
    for chosen in itertools.product(choices, repeat=words):
        if words < 3 or max(map(len, chosen)) < 2:
            yield chosen


def run_capitals(case, counter):
    readings = {
        word: [(_, ('NOUN',)) for _ in normal] for word, normal in zip(CAPITALS, case)
    }
    tokenizer = stub.tokenizer(readings, dictionary=stub.ExactDictionary)

    def normal(word):
        return {_[0] for _ in readings.get(word, [(word,)])}

    words = CAPITALS + ('Ёж', 'Abc')
    for line in words:
        for lines in ([line], [line + ' ' + line], ['да', line]):
            parser = Parser(
                rule(morph_pipeline(lines).interpretation(F.a.normalized())).interpretation(F),
                tokenizer=tokenizer
            )
            for word in words:
                text = ' '.join([word] * len(lines[-1].split()))
                # words of no dictionary have small letters
                found = normal(word) if word != 'Abc' else {'abc'}
                expected = bool(normal(line) & found)
                match = parser.match(text)
                counter.state(case, tuple(lines), text)
                counter.step()
                counter.trace()
                if (match is not None) != expected or match and match.fact.a != lines[-1]:
                    raise Mismatch('lines %r, text %r, readings %r: match is %r' % (
                        lines, text, readings, match
                    ))


# ------------------------------------------------------------ letters

def letter_classes():
    """Characters that are one for lower(), upper() or casefold()."""
    groups = {}
    for code in range(0x80, 0x2200):
        char = chr(code)
        if char.isspace():
            continue
        if char.lower() != char or char.upper() != char or char.casefold() != char:
            groups.setdefault(char.upper().lower().casefold(), []).append(char)
    return sorted(tuple(_) for _ in groups.values())


def letter_cases():
    for group in letter_classes():
        extra = tuple({_.lower() for _ in group} | {_.upper() for _ in group})
        chars = tuple(sorted(set(
            _ for _ in group + extra if len(_) == 1
        )))
        for kind in ('exact', 'caseless'):
            yield (kind, chars)


def run_letters(case, counter):
    kind, chars = case
    tokenizer = Tokenizer([TokenRule('CHAR', r'\S')])
    for key in chars:
        parser = Parser(KINDS[kind]([key, key + ' 1']), tokenizer=tokenizer)
        for char in chars:
            for text in (char, char + ' 1'):
                expected = key == char if kind == 'exact' else key.lower() == char.lower()
                match = parser.match(text)
                counter.state(case, key, text)
                counter.step()
                counter.trace()
                if (match is not None) != expected:
                    raise Mismatch('%s dictionary with %r, text %r: match is %r' % (
                        kind, key, text, match
                    ))


# ------------------------------------------------------------ many lines

def many_cases(high):
    for size in (1, 10, high):
        for kind in sorted(KINDS):
            for order in (1, -1):
                yield (kind, size, order)


def run_many(case, counter):
    kind, size, order = case
    letters = 'абвгд' if kind == 'morph' else 'abcde'
    words = [''.join(_) for _ in itertools.product(letters, repeat=3)]
    lines = [' '.join(_) for _ in itertools.product(words, repeat=2)][::7][:size][::order]
    known = set(lines)
    parser = Parser(
        KINDS[kind](lines + lines[:1]).interpretation(F.a.normalized()).interpretation(F),
        tokenizer=stub.tokenizer({})
    )
    for line in lines:
        first, second = line.split()
        for text in (line, second + ' ' + first, first):
            expected = text if text in known else None
            match = parser.match(text)
            counter.state(case, text)
            counter.step()
            counter.trace()
            if (match.fact.a if match else None) != expected:
                raise Mismatch('%s dictionary of %d lines, text %r: match is %r' % (
                    kind, size, text, match
                ))


# ------------------------------------------------------------ lines that start alike

def line_cases(limit):
    for size in enum.sizes(limit, 3):
        for kind in sorted(KINDS):
            for step in (1, -1):
                yield (kind, size, step)


def numeral(index):
    return ''.join('абвгдежзик'[int(_)] for _ in str(index))


def run_lines(case, counter):
    kind, size, step = case
    lines = ['а %s' % numeral(_) for _ in range(size)][::step]
    lines += ['а', 'А ' + numeral(size // 2), 'а ' + numeral(0).upper()]
    parser = Parser(
        KINDS[kind](lines).interpretation(F.a.normalized()).interpretation(F),
        tokenizer=stub.tokenizer({})
    )
    first = {}
    for line in lines:
        first.setdefault(line if kind == 'exact' else line.lower(), line)
    for index in sorted({0, 1, size // 2, size - 2, size - 1, size}):
        for text in ('а ' + numeral(max(index, 0)), 'А ' + numeral(max(index, 0)).upper(), 'а'):
            if kind != 'exact':
                expected = first.get(text.lower())
            else:
                expected = first.get(text)
            match = parser.match(text)
            counter.state(case, text)
            counter.step()
            counter.trace()
            if (match.fact.a if match else None) != expected:
                raise Mismatch('%s dictionary of %d lines that start alike, text %r: expected %r, match is %r' % (
                    kind, size, text, expected, match
                ))


# ------------------------------------------------------------ several lines fit, far from one another

def far_cases(sizes, triple):
    for kind in sorted(KINDS):
        for size in sizes:
            for chosen in itertools.combinations(range(size), 2):
                yield (kind, size, chosen)
        for chosen in itertools.combinations(range(triple), 3):
            yield (kind, triple, chosen)


def run_far(case, counter):
    kind, size, chosen = case
    tokenizer = stub.tokenizer({'ж': [('ра', ()), ('рб', ()), ('рв', ())]})
    fits = {
        'morph': [('ра', 'рб', 'рв')] + [('рв', 'рб', 'ра')],
        'caseless': [('Ж', 'ж', 'Ж')], 'exact': [('ж', 'ж', 'ж')],
    }[kind]
    for words in fits:
        for tail in ('', ' д'):
            lines = ['г' + numeral(_) for _ in range(size)]
            for number, (index, word) in enumerate(zip(chosen, words)):
                lines[index] = word + tail
            model = []
            for index in chosen:
                model.append(lines[index])
            item = KINDS[kind](lines).interpretation(F.a.normalized()).interpretation(F)
            parser = Parser(item, tokenizer=tokenizer)
            text = 'ж' + tail
            counter.state(case, words, tail)
            counter.step()
            counter.trace()
            match = parser.match(text)
            found = [_.fact.a for _ in parser.extract(text)]
            if not match or match.fact.a != model[0] or sorted(found) != sorted(model):
                raise Mismatch('%s dictionary of %d lines, %r fit at %r: match is %r, all are %r' % (
                    kind, size, model, chosen, match and match.fact.a, found
                ))


# ------------------------------------------------------------ long lines

def long_cases(words, letters):
    for size in enum.sizes(words):
        for kind in sorted(KINDS):
            yield (kind, 'words', size)
    for size in enum.sizes(letters):
        for kind in sorted(KINDS):
            yield (kind, 'letters', size)


def run_long(case, counter):
    kind, what, size = case
    if what == 'words':
        def make(size):
            return ' '.join(('а', 'б', 'в')[_ % 3] for _ in range(size))
        changed = make(size)[:-1] + 'г'
        sizes = {size - 1, size, size + 1, size * 2}
        others = [make(size // 2), make(size) + ' а а']
    else:
        def make(size):
            return 'аб' * (size // 2) + 'в' * (size % 2)
        changed = make(size)[:-1] + 'г'
        sizes = {size - 1, size, size + 1, size * 2}
        others = [make(size // 2) + 'г']
    line = make(size)
    parser = Parser(
        KINDS[kind]([line]).interpretation(F.a.normalized()).interpretation(F),
        tokenizer=stub.tokenizer({})
    )
    for text in [make(_) for _ in sorted(sizes)] + [changed] + others:
        if not text:
            continue
        expected = line if text == line else None
        match = parser.match(text)
        counter.state(case, len(text))
        counter.step()
        counter.trace()
        if (match.fact.a if match else None) != expected:
            raise Mismatch('%s dictionary with a line of %d %s, a text of %d letters: match is %s' % (
                kind, size, what, len(text), str(match)[:200]
            ))


PLACES = ('shared', 'shared-inside', 'named', 'nested', 'optional', 'unmarked-twice')


def marked(count):
    def cases():
        for place in PLACES:
            for kind in sorted(KINDS):
                lines = texts(VOCABULARY[kind][:3], 2)
                for size in range(1, count + 1):
                    for chosen in itertools.permutations(lines, size):
                        yield (place, kind, chosen)
    return cases


class C16(Check):
    def families(self, tier):
        quick = tier == 'quick'
        samples = {kind: texts(WORDS[kind], 2) for kind in KINDS}
        longer = {kind: texts(WORDS[kind], 3) for kind in KINDS}
        odd_samples = {kind: ODD_TEXTS for kind in KINDS}
        return [
            Family('alone', dictionaries(2, 2), run_alone(longer),
                   'all lists of 1..2 lines of 1..2 words, texts of 1..3 words'),
            Family('alone3', dictionaries(3, 2), run_alone(samples if quick else longer),
                   'all lists of 1..3 lines of 1..2 words'),
            Family('long', dictionaries(1 if quick else 2, 3), run_alone(longer),
                   'lines of up to 3 words'),
            Family('odd', odd(2 if quick else 3), run_alone(odd_samples),
                   'lines split by %d tokenizers' % len(TOKENIZERS)),
            Family('context', context_cases(2 if quick else 3, 2, sorted(KINDS)),
                   run_context(4 if quick else 5),
                   '%d places in a rule' % len(SHAPES)),
            Family('prefer', lambda: prefer_cases(3 if quick else 4, 3 if quick else 4), run_prefer,
                   'all orders of lines of several lengths, the earliest that fits'),
            Family('blank', lambda: blank_cases(3 if quick else 4), run_alone(longer),
                   'blank lines among others'),
            Family('blank context', blank_contexts, run_context(4 if quick else 5),
                   'blank lines among others, %d places in a rule' % len(SHAPES)),
            Family('readings', lambda: readings_cases(12 if quick else 20), run_readings,
                   'words of up to %d readings' % (12 if quick else 20)),
            Family('capitals', lambda: capital_cases(2 if quick else 3), run_capitals,
                   'analysers that tell capital letters'),
            Family('letters', letter_cases, run_letters,
                   'all letters up to U+2200 that have other case'),
            Family('many', lambda: many_cases(200 if quick else 2000), run_many,
                   'dictionaries of up to %d lines' % (200 if quick else 2000)),
            Family('long lines', lambda: long_cases(*((100, 1000) if quick else (300, 20000))), run_long,
                   'lines of up to %d words, words of up to %d letters' % ((100, 1000) if quick else (300, 20000))),
            Family('far lines', lambda: far_cases(*(((20, 40), 12) if quick else ((20, 80, 150), 20))), run_far,
                   'all pairs and triples of places of lines that fit, up to %d lines' % (40 if quick else 150)),
            Family('many lines', lambda: line_cases(1100 if quick else 10000), run_lines,
                   'up to %d lines with the same first word' % (1100 if quick else 10000)),
            Family('marked', marked(2 if quick else 3), run_marked,
                   'the reported line in %d places' % len(PLACES)),
        ]


CHECK = C16(
    'C16',
    rule='state = (dictionary, place, text); transition = one parse; trace = '
         'one verdict, line or list of matches compared with the model'
)
