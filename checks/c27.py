"""C27: word analysis is a faithful, pure view of the dictionary."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub, tags
from mc.enum import sizes
from mc.yg import Parser, describe

from yargy import rule, or_
from yargy.interpretation import fact
from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer
from yargy.predicates import gram, dictionary, normalized, true
from yargy.tokenizer import MorphTokenizer, Tokenizer, TokenRule, RULES

import pymorphy2

LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'

# real dictionary, once for all the workers
RAW = pymorphy2.MorphAnalyzer()
REAL = MorphAnalyzer(RAW)

GRAMS = (
    frozenset({'nomn', 'sing'}), frozenset({'nomn', 'plur'}), frozenset({'gent'}),
    frozenset({'datv', 'plur'}), frozenset({'femn'}), frozenset({'ablt', 'sing', 'masc'}),
    frozenset({'plur', 'past'}), frozenset({'COMP'}), frozenset({'VERB', 'sing'}), frozenset(),
)


def view(form):
    return (form.normalized, frozenset(form.grams.values))


def record_view(record):
    return (record.normal_form, frozenset(record.tag.grammemes))


def check_word(analyzer, raw, word, counter, grams):
    forms = analyzer(word)
    records = raw.parse(word)
    counter.state(word)
    counter.trace()
    actual = [view(_) for _ in forms]
    expected = [record_view(_) for _ in records]
    if actual != expected:
        raise Mismatch('readings of %r are %r, the dictionary has %r' % (
            word, actual, expected
        ))
    if analyzer.normalized(word) != {_.normal_form for _ in records}:
        raise Mismatch('normal forms of %r are %r' % (word, analyzer.normalized(word)))
    for form, record in zip(forms, records):
        for name in record.tag.grammemes:
            if name not in form.grams:
                raise Mismatch('%r has no %r' % (form, name))
        for name in ('NOUN', 'nomn', 'masc', 'XXXX', 'sing', 'Geox'):
            if (name in form.grams) != (name in record.tag.grammemes):
                raise Mismatch('%r and %r' % (form, name))
        for items in grams:
            counter.step()
            inflected = record.inflect(items)
            expected = record.normal_form if inflected is None else inflected.word
            for given in (items, set(items)):
                if form.inflect(given) != expected:
                    raise Mismatch('%r inflected to %r is %r, expected %r' % (
                        form, sorted(items), form.inflect(given), expected
                    ))
        inflected = record.inflect({'nomn', 'sing'})
        expected = record.normal_form if inflected is None else inflected.word
        if form.inflect() != expected:
            raise Mismatch('%r inflected is %r, expected %r' % (form, form.inflect(), expected))
    if [view(_) for _ in analyzer(word)] != actual:
        raise Mismatch('readings of %r change' % word)


WORDS = (
    'стали', 'Стали', 'СТАЛИ', 'сталь', 'стекла', 'стекло', 'Пушкина', 'пушкина', 'саша', 'Саша',
    'ёж', 'еж', 'Ёж', 'ежа', 'все', 'всё', 'замок', 'его', 'больше', 'самый', 'пальто', 'ножницы',
    'двое', 'пятьсот', 'кое-как', 'по-русски', 'санкт-петербург', 'глокая', 'куздра', 'ъъъ', 'ы',
    'г', 'др', 'что', 'за', 'мыла', 'рой', 'душа', 'ученый', 'учёный', 'сирота', 'коллега', 'Иванова',
    'Ивановых', 'иванович', 'бегущий', 'бегом', 'прочитав', 'прочитана', 'можно', 'ага', 'же',
)
OTHER = ('', 'x', 'Word', '12', '1-й', '-', ',', 'XIV', 'п2п', 'ab-в', 'a.b')


def letter_cases(size):
    for first in LETTERS:
        yield (first, size)


def run_letters(case, counter):
    first, size = case
    for count in range(size):
        for rest in itertools.product(LETTERS, repeat=count):
            word = first + ''.join(rest)
            for variant in (word, word.upper(), word.capitalize()):
                check_word(REAL, RAW, variant, counter, GRAMS[:3] if count > 1 else GRAMS)


def word_cases():
    for word in WORDS + OTHER:
        yield word


def all_sets():
    names = ('nomn', 'gent', 'accs', 'sing', 'plur', 'femn', 'masc')
    for count in range(4):
        for items in itertools.combinations(names, count):
            yield frozenset(items)


def run_word(word, counter):
    check_word(REAL, RAW, word, counter, list(all_sets()) + list(GRAMS))


# ------------------------------------------------ known grammemes

def gram_cases():
    names = sorted(str(_) for _ in RAW.TagClass.KNOWN_GRAMMEMES)
    for name in names:
        yield name
        yield name + ' '
        yield name.lower()
        yield name.upper()
    for name in ('', 'XXXX', 'noun', 'nomn,sing', 'сущ'):
        yield name


def run_gram(name, counter):
    known = RAW.TagClass.grammeme_is_known(name)
    counter.state(name)
    counter.step()
    counter.trace()
    for build in (lambda: REAL.check_gram(name),
                  lambda: Parser(rule(gram(name)), tokenizer=TOKENIZER)):
        try:
            build()
        except ValueError:
            if known:
                raise Mismatch('grammeme %r is refused' % name)
        else:
            if not known:
                raise Mismatch('grammeme %r is not refused' % name)


def run_contains(case, counter):
    """A set of grammemes has what is in it."""
    for own in tags.block(case):
        form = stub.analyzer({'слово': [('слово', own)]})('слово')[0]
        for name in tags.grammemes():
            for other in (name, name.lower(), name.upper(), name.title(), name + ' ', name[:3], ''):
                counter.state(own, other)
                counter.step()
                counter.trace()
                if (other in form.grams) != (other in own):
                    raise Mismatch('%r in the grammemes %r is %s' % (other, own, other in form.grams))


TOKENIZER = MorphTokenizer(morph=REAL)


# ------------------------------------------------ what is analysed

class Listening(object):
    """Passes words to the dictionary and keeps them."""
    TagClass = stub.TagClass

    def __init__(self):
        self.words = []

    def parse(self, word):
        self.words.append(word)
        return [
            stub.Record(word, word.lower() + '0', ('r0',)),
            stub.Record(word, word.lower() + '1', ('r1',)),
        ]


CHARS = ('а', 'Я', 'ё', 'Ё', 'x', 'Z', '1', '-', '.', ' ', '\n', 'é', 'і', 'ї')


def text_cases(size):
    for count in range(size + 1):
        for letters in itertools.product(CHARS, repeat=count):
            yield ''.join(letters)


RULE_SETS = {
    'default': RULES,
    'more': [TokenRule('WORD', r'[а-я]+-[а-я]+')] + RULES,
    'mixed': [TokenRule('RU', r'[а-яё]+1'), TokenRule('A', r'а')] + RULES,
    'none': [_ for _ in RULES if _.type != 'RU'],
}


def run_text(text, counter):
    for name in sorted(RULE_SETS):
        raw = Listening()
        tokenizer = MorphTokenizer(RULE_SETS[name], morph=MorphAnalyzer(raw))
        plain = [tuple(_.span) + (_.value, _.type) for _ in Tokenizer(RULE_SETS[name])(text)]
        tokens = list(tokenizer(text))
        counter.state(text, name)
        counter.step()
        counter.trace()
        actual = [tuple(_.span) + (_.value, _.type) for _ in tokens]
        if actual != plain:
            raise Mismatch('tokens of %r are %r, without the dictionary %r' % (text, actual, plain))
        expected = [_[2] for _ in plain if _[3] == 'RU']
        if raw.words != expected:
            raise Mismatch('words %r of %r are analysed, expected %r' % (raw.words, text, expected))
        for token in tokens:
            has = hasattr(token, 'forms')
            if has != (token.type == 'RU'):
                raise Mismatch('token %r of %r' % (token, text))
            if name == 'default' and has != all(_.lower() in LETTERS for _ in token.value):
                raise Mismatch('token %r of %r' % (token, text))
            if has:
                low = token.value.lower()
                if [view(_) for _ in token.forms] != [
                        (low + '0', frozenset({'r0'})), (low + '1', frozenset({'r1'}))]:
                    raise Mismatch('readings of %r are %r' % (token, token.forms))
        before = len(raw.words)
        if tokenizer.split(text) != [_[2] for _ in plain]:
            raise Mismatch('split(%r) is %r' % (text, tokenizer.split(text)))
        del before


# ------------------------------------------------ cache

# the dictionary tells words of different case and spelling
SPELLINGS = {
    'еж': [('еж', ('r0',), {frozenset({'nomn', 'sing'}): 'ежъ'}), ('ежа', ('r1',))],
    'ёж': [('ёж', ('r2',))],
    'Еж': [('Еж', ('r0', 'g0'))],
    'ЕЖ': [('ЕЖ', ('g1',)), ('еж', ('r0',))],
    'ежи': [('еж', ('r0', 'plur'))],
}
OTHERS = {key: [(value + '2', ('g2',))] for key, [(value, *_), *_] in SPELLINGS.items()}


class Exact(stub.Dictionary):
    def parse(self, word):
        self.calls += 1
        items = self.readings.get(word)
        if items is None:
            items = [(word + '?', ())]
        return [stub.Record(word, *_) for _ in items]


def cached_analyzer(readings):
    result = CachedMorphAnalyzer.__new__(CachedMorphAnalyzer)
    MorphAnalyzer.__init__(result, Exact(readings))
    return result


LOOKUPS = tuple(SPELLINGS) + ('EЖ', 'нет')


def lookup_cases(size, two):
    for count in range(1, size + 1):
        for words in itertools.product(LOOKUPS, repeat=count):
            yield (words, 1)
    for count in range(1, two + 1):
        for words in itertools.product(LOOKUPS[:4], repeat=count):
            for which in itertools.product((0, 1, 2), repeat=count):
                yield (words, which)


def full(forms):
    return [view(_) + (_.inflect(), _.inflect({'nomn', 'sing'}), _.inflect({'gent'})) for _ in forms]


def run_lookups(case, counter):
    words, which = case
    if which == 1:
        which = (0,) * len(words)
    readings = (SPELLINGS, OTHERS, SPELLINGS)
    cached = [cached_analyzer(_) for _ in readings]
    for position, (word, number) in enumerate(zip(words, which)):
        expected = full(MorphAnalyzer(Exact(readings[number]))(word))
        actual = full(cached[number](word))
        counter.state(words[:position + 1], which[:position + 1])
        counter.step()
        counter.trace()
        if actual != expected:
            raise Mismatch('look-up %d of %r in %r is %r, without the cache %r' % (
                position, words, which, actual, expected
            ))
        normal = cached[number].normalized(word)
        if normal != {_[0] for _ in expected}:
            raise Mismatch('normal forms of %r are %r' % (word, normal))


def overflow_cases():
    # more words than any cache keeps
    for shift in range(4):
        yield shift


def run_overflow(shift, counter):
    cached = cached_analyzer(SPELLINGS)
    uncached = MorphAnalyzer(Exact(SPELLINGS))
    words = ['слово%d' % _ for _ in range(shift, 12000, 2)] + list(LOOKUPS)
    words = words + words[::-1] + words[::7]
    for word in words:
        if full(cached(word)) != full(uncached(word)):
            raise Mismatch('look-up of %r is %r' % (word, full(cached(word))))
        counter.step()
    counter.state(shift)
    counter.trace(len(words))


def real_cached():
    result = CachedMorphAnalyzer.__new__(CachedMorphAnalyzer)
    MorphAnalyzer.__init__(result, RAW)
    return result


REAL_CACHED = real_cached()
SEQUENCE = ('стали', 'Стали', 'СТАЛИ', 'еж', 'ёж', 'Ёж', 'ежа', 'все', 'всё', 'x', '12', 'пушкина', 'Пушкина')


def real_cases(size):
    for words in itertools.product(SEQUENCE, repeat=size):
        yield words


@functools.lru_cache(None)
def fresh(word):
    return [record_view(_) for _ in RAW.parse(word)]


def run_real(words, counter):
    for position, word in enumerate(words):
        counter.state(words[:position + 1])
        counter.step()
        counter.trace()
        if [view(_) for _ in REAL_CACHED(word)] != fresh(word):
            raise Mismatch('look-up of %r after %r is %r, without the cache %r' % (
                word, words[:position], REAL_CACHED(word), fresh(word)
            ))


# ------------------------------------------------ through a parser

F = fact('F', ['a'])


def parse_cases():
    for word in WORDS:
        if '-' in word:
            continue
        yield word


def run_parse(word, counter):
    """Predicates and normal forms agree with the dictionary, twice."""
    records = RAW.parse(word)
    names = sorted({str(g) for _ in records for g in _.tag.grammemes})
    tokenizers = (TOKENIZER, MorphTokenizer(morph=REAL_CACHED))
    for tokenizer in tokenizers:
        for again in range(2):
            for name in names + ['XXX'.replace('XXX', 'Pltm'), 'Geox', 'VERB', 'NOUN']:
                kept = [_ for _ in records if name in _.tag.grammemes]
                parser = Parser(rule(gram(name)).interpretation(
                    F.a.inflected({'gent', 'plur'})).interpretation(F), tokenizer=tokenizer)
                match = parser.match(word)
                counter.state(word, name)
                counter.step()
                counter.trace()
                if (match is not None) != bool(kept):
                    raise Mismatch('gram(%r) of %r is %r' % (name, word, match))
                if match:
                    if [view(_) for _ in match.tokens[0].forms] != [record_view(_) for _ in kept]:
                        raise Mismatch('gram(%r) leaves %r' % (name, match.tokens[0].forms))
                    inflected = kept[0].inflect({'gent', 'plur'})
                    expected = inflected.word if inflected else kept[0].normal_form
                    if match.fact.a != expected:
                        raise Mismatch('%r is inflected to %r, expected %r' % (
                            word, match.fact.a, expected))
            normals = {_.normal_form for _ in records}
            for normal in sorted(normals) + ['нет', word]:
                match = Parser(rule(dictionary({normal})), tokenizer=tokenizer).match(word)
                wanted = bool(normals & REAL.normalized(normal))
                if (match is not None) != wanted:
                    raise Mismatch('dictionary({%r}) of %r is %r' % (normal, word, match))
            value = Parser(rule(true()).interpretation(F.a.normalized()).interpretation(F),
                           tokenizer=tokenizer).match(word).fact.a
            if value != records[0].normal_form:
                raise Mismatch('normal form of %r is %r, expected %r' % (
                    word, value, records[0].normal_form))


# ------------------------------------------------ long words, many readings

def inflected(record, grams):
    other = record.inflect(grams)
    return record.normal_form if other is None else other.word


def size_cases(limit):
    for count in sizes(limit):
        for what in ('readings', 'grams', 'word', 'real word', 'rounds', 'text'):
            yield (what, count)


def run_size(case, counter):
    what, count = case
    counter.state(case)
    counter.trace()

    def check(word, readings, where=''):
        raw = Exact(readings)
        analyzers = (MorphAnalyzer(raw), cached_analyzer(readings))
        for analyzer in analyzers:
            for _ in range(2):
                counter.step()
                actual = full(analyzer(word))
                expected = [record_view(_) + (
                    inflected(_, {'nomn', 'sing'}), inflected(_, {'nomn', 'sing'}), inflected(_, {'gent'}),
                ) for _ in raw.parse(word)]
                if actual != expected:
                    raise Mismatch('%s of %d%s: readings %r, expected %r' % (
                        what, count, where, actual[:5], expected[:5]))
                if analyzer.normalized(word) != {_[0] for _ in expected}:
                    raise Mismatch('%s of %d%s: normal forms %r' % (
                        what, count, where, analyzer.normalized(word)))

    if what == 'readings':
        check('слово', {'слово': [
            ('слово%d' % (_ % 7), ('r%d' % (_ % 3), 'g%d' % (_ * _ % 5)), {
                frozenset({'gent'} if _ % 2 else {'nomn', 'sing'}): 'форма%d' % _})
            for _ in range(count)
        ]})
    elif what == 'grams':
        check('слово', {'слово': [
            ('слово', tuple('g%d' % _ for _ in range(count))),
            ('слова', tuple('g%d' % _ for _ in range(count + 1)), {frozenset({'gent'}): 'слов'}),
        ]})
    elif what == 'word':
        word = ''.join('аБвё'[_ % 4] for _ in range(count))
        for other in (word, word.lower(), word.upper(), word + 'а'):
            check(other, {word: [('другое', ('r0',))], word.lower(): [(word.lower(), ('r1',))]}, ' ' + other[-3:])
    elif what == 'real word':
        if count <= 40:
            word = ('стекловолокно' * 4)[:count]
            for other in (word, word.upper()):
                for analyzer in (REAL, REAL_CACHED):
                    check_word(analyzer, RAW, other, counter, GRAMS[:3])
    elif what == 'rounds':
        # the same words again and again
        cached = cached_analyzer(SPELLINGS)
        plain = MorphAnalyzer(Exact(SPELLINGS))
        for number in range(count):
            for word in LOOKUPS:
                counter.step()
                if full(cached(word)) != full(plain(word)):
                    raise Mismatch('look-up of %r in the round %d is %r' % (word, number, full(cached(word))))
    else:
        # a text of many words
        raw = Listening()
        words = ['аБвё'[_ % 4] * (_ % 5 + 1) if _ % 3 else '1x.'[_ // 3 % 3] for _ in range(count)]
        tokens = list(MorphTokenizer(morph=MorphAnalyzer(raw))(' '.join(words)))
        if [_.value for _ in tokens] != words:
            raise Mismatch('tokens of %r are %r' % (words, tokens))
        if raw.words != [_ for index, _ in enumerate(words) if index % 3]:
            raise Mismatch('words %r of %r are analysed' % (raw.words, words))
        for index, token in enumerate(tokens):
            expected = [words[index].lower() + _ for _ in '01'] if index % 3 else None
            actual = [_.normalized for _ in token.forms] if hasattr(token, 'forms') else None
            if actual != expected:
                raise Mismatch('readings of the word %d of %d are %r, expected %r' % (
                    index, count, actual, expected))


class C27(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('letters', lambda: letter_cases(3 if deep else 2), run_letters,
                   'all words of <= %d letters in three cases' % (3 if deep else 2), cpu_limit=900),
            Family('words', word_cases, run_word,
                   '%d words, all sets of <= 3 of 7 grammemes' % len(WORDS + OTHER)),
            Family('grams', gram_cases, run_gram, 'every known grammeme and its variants'),
            Family('contains', tags.blocks, run_contains,
                   'every set of grammemes of the dictionary asked for every grammeme and its variants'),
            Family('texts', lambda: text_cases(4 if deep else 3), run_text,
                   'all texts of <= %d of %d characters, %d lists of token rules' % (
                       4 if deep else 3, len(CHARS), len(RULE_SETS))),
            Family('lookups', lambda: lookup_cases(5 if deep else 4, 4 if deep else 3), run_lookups,
                   'all sequences of <= %d look-ups of %d words, of %d in three analysers' % (
                       5 if deep else 4, len(LOOKUPS), 4 if deep else 3)),
            Family('overflow', overflow_cases, run_overflow, 'more words than the cache keeps'),
            Family('real', lambda: real_cases(4 if deep else 3), run_real,
                   'all sequences of %d look-ups of %d words in the real dictionary' % (
                       4 if deep else 3, len(SEQUENCE))),
            Family('parse', parse_cases, run_parse, 'every grammeme of %d words' % len(WORDS)),
            Family('size', lambda: size_cases(1100 if deep else 140), run_size,
                   'up to %d readings, grammemes, letters, words or rounds' % (1100 if deep else 140)),
        ]


CHECK = C27(
    'C27',
    rule='state = (word or text or sequence of look-ups); transition = one '
         'look-up or inflection; trace = one result compared with the dictionary',
    assumptions=['the dictionary is pymorphy2, or a stub that tells case and spelling']
)
