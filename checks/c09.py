"""C09: tokens partition the text and carry exact offsets and types."""
import itertools
import re
import unicodedata

from mc.core import Check, Family, Mismatch
from mc import enum, stub
from yargy.tokenizer import (
    Tokenizer, TokenRule, EMAIL_RULE, PHONE_RULE, RULES
)

# characters of the default alphabet by type, written down from the
# documentation, independent of the patterns
CLASSES = {
    'RU': 'аяАЯёЁбщЩ',
    'LATIN': 'azAZmq',
    'INT': '0194',
    'PUNCT': '-\\/!#$%&()[]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”',
    'EOL': '\n\r',
    'OTHER': 'éßñї€°—中',
    None: ' \t\xa0\u2009',
}
TYPES = {
    char: type
    for type, chars in CLASSES.items()
    for char in chars
}
LONG = ('RU', 'LATIN', 'INT', 'EOL')
# one or two of every class: what is next to what matters
SMALL = 'аЁaZ1.-\n\ré \t'
TINY = 'аЯa1.\n €'
ODD = 'а\u0301aſK²٣\u200b\U0001f600 \x0b\u2028'


def expected_default(text):
    """(value, start, stop, type) by runs of characters of one class."""
    result = []
    index = 0
    while index < len(text):
        type = TYPES[text[index]]
        stop = index + 1
        if type in LONG:
            while stop < len(text) and TYPES[text[stop]] == type:
                stop += 1
        if type:
            result.append((text[index:stop], index, stop, type))
        index = stop
    return result


def expected_rules(rules, text):
    """First rule that matches at the first position where some rule does."""
    compiled = [
        (type, re.compile(pattern, re.UNICODE | re.IGNORECASE))
        for type, pattern in rules
    ]
    result = []
    index = 0
    while index < len(text):
        for type, pattern in compiled:
            match = pattern.match(text, index)
            if match and match.end() > index:
                result.append((match.group(), index, match.end(), type))
                index = match.end()
                break
        else:
            index += 1
    return result


def observe(tokens):
    return [
        (_.value, _.span.start, _.span.stop, _.type)
        for _ in tokens
    ]


def compare(text, actual, expected, **details):
    for value, start, stop, type in actual:
        if text[start:stop] != value:
            raise Mismatch('token %r is not the text at [%d, %d) of %r' % (
                value, start, stop, text
            ), **details)
    if actual != expected:
        raise Mismatch('tokens of %r are %r, expected %r' % (
            text, actual, expected
        ), **details)


PLAIN = Tokenizer()
MORPH = stub.tokenizer({'а': [('а', {'NOUN'}), ('аз', {'VERB'})]})


def texts(alphabet, low, high):
    """Cases are prefixes, every case runs all its continuations."""
    def cases():
        for size in range(low, high + 1):
            if size < 2:
                for word in itertools.product(alphabet, repeat=size):
                    yield (''.join(word), '', 0)
            else:
                for word in itertools.product(alphabet, repeat=2):
                    yield (''.join(word), alphabet, size - 2)
    return cases


def expand(case):
    prefix, alphabet, size = case
    for rest in itertools.product(alphabet, repeat=size):
        yield prefix + ''.join(rest)


def run_default(case, counter):
    for text in expand(case):
        counter.state(text)
        counter.step()
        counter.trace()
        expected = expected_default(text)
        compare(text, observe(PLAIN(text)), expected)
        if PLAIN.split(text) != [_[0] for _ in expected]:
            raise Mismatch('split(%r) gives %r' % (text, PLAIN.split(text)))


def run_morph(case, counter):
    for text in expand(case):
        counter.state(text)
        counter.step()
        counter.trace()
        tokens = list(MORPH(text))
        compare(text, observe(tokens), expected_default(text))
        for token in tokens:
            has_forms = hasattr(token, 'forms')
            if has_forms != (token.type == 'RU'):
                raise Mismatch('token %r of type %s: readings %s' % (
                    token.value, token.type, has_forms
                ))
        if MORPH.split(text) != [_.value for _ in tokens]:
            raise Mismatch('split(%r) gives %r' % (text, MORPH.split(text)))


def run_odd(case, counter):
    """Characters outside the table: still a partition."""
    for text in expand(case):
        counter.state(text)
        counter.step()
        counter.trace()
        last = 0
        for value, start, stop, type in observe(PLAIN(text)):
            if start < last or stop <= start or text[start:stop] != value:
                raise Mismatch('bad token %r [%d, %d) of %r' % (
                    value, start, stop, text
                ))
            if text[last:start].strip():
                raise Mismatch('%r of %r is in no token' % (text[last:start], text))
            last = stop
        if text[last:].strip():
            raise Mismatch('%r of %r is in no token' % (text[last:], text))


def classes():
    # every character of the table in every pair
    for char in sorted(TYPES):
        yield (char, ''.join(sorted(TYPES)), 1)


POOL = (
    ('RU', r'[а-яё]+'),
    ('A', r'a'),
    ('AB', r'ab|a'),
    ('ABB', r'a(b)+'),
    ('W', r'[a-z]+'),
    ('N', r'\d+'),
    ('D', r'(\d)(?:\.(\d))?'),
    ('L', r'b+?'),
    ('F', r'a(?=1)'),
    ('B', r'(?<=a)1'),
    ('S', r' '),
    ('P', r'(?P<part>a|b)1'),
    ('X', r'\S'),
    ('A', r'b1'),
)


# places in the text, ends of lines, groups
PLACES = (
    ('HEAD', r'^a'),
    ('LAST', r'b$'),
    ('EDGE', r'\ba'),
    ('IN', r'\Bb'),
    ('DOT', r'.b'),
    ('TOP', r'\Ab'),
    ('END', r'a\Z'),
    ('LINE', r'(?m:^)b|a(?m:$)'),
    ('PAIR', r'(a)(b)'),
    ('NESTED', r'((?P<x>a)|(?P<y>(b))) '),
    ('CASE', r'(?-i:A)'),
    ('ALL', r'(?s:a.b)'),
    ('SPACE', r'\s'),
    ('NL', r'\n'),
    ('W', r'\w+'),
    ('X', r'\S'),
)


def place_lists(size):
    def cases():
        for count in range(1, size + 1):
            for chosen in itertools.permutations(PLACES, count):
                yield chosen
    return cases


def run_places(alphabet, size):
    samples = [
        ''.join(_) for count in range(size + 1)
        for _ in itertools.product(alphabet, repeat=count)
    ]

    def run(rules, counter):
        made = [TokenRule(*_) for _ in rules]
        later = Tokenizer([])
        for item in reversed(made):
            later.add_rules(item)
        for tokenizer in (Tokenizer(made), later):
            counter.step()
            for text in samples:
                counter.state(rules, text)
                counter.step()
                counter.trace()
                compare(
                    text, observe(tokenizer(text)), expected_rules(rules, text),
                    rules=rules
                )
    return run


def rule_lists(size):
    def cases():
        for count in range(1, size + 1):
            for chosen in itertools.permutations(range(len(POOL)), count):
                yield chosen
    return cases


def run_rules(alphabet, size):
    samples = [
        ''.join(_) for count in range(size + 1)
        for _ in itertools.product(alphabet, repeat=count)
    ]

    def run(case, counter):
        rules = [POOL[_] for _ in case]
        tokenizer = Tokenizer([TokenRule(*_) for _ in rules])
        counter.step()
        for text in samples:
            counter.state(case, text)
            counter.step()
            counter.trace()
            compare(
                text, observe(tokenizer(text)), expected_rules(rules, text),
                rules=rules
            )
    return run


# what the documented rules are for
PARTS = (
    'a@b.ru', 'Me+x@y-z.com', '@', 'x@', '8 (916) 123-45-67', '+79161234567',
    '123', 'тел', ' ', '. ', ',', '\n'
)
EMAIL = re.compile(r'[a-zA-Z0-9_.+-]+@[a-zA-Z0-9-]+\.[a-zA-Z0-9-.]+')


def documents(size):
    def cases():
        for count in range(1, size + 1):
            for parts in itertools.product(range(len(PARTS)), repeat=count):
                yield parts
    return cases


DOCUMENT_RULES = [EMAIL_RULE, PHONE_RULE] + RULES
DOCUMENT = Tokenizer(DOCUMENT_RULES)


def run_document(case, counter):
    text = ''.join(PARTS[_] for _ in case)
    counter.state(case)
    counter.step()
    counter.trace()
    rules = [(_.type, _.pattern) for _ in DOCUMENT_RULES]
    compare(text, observe(DOCUMENT(text)), expected_rules(rules, text))


# the patterns as documented, not as they are now
KNOWN_RULES = [
    ('EMAIL', r'[a-zA-Z0-9_.+-]+@[a-zA-Z0-9-]+\.[a-zA-Z0-9-.]+'),
    ('PHONE', r'(\+)?([-\s_()]?\d[-\s_()]?){10,14}'),
] + [(_.type, _.pattern) for _ in RULES]


def phone_cases():
    for size in range(1, 20):
        for signs in itertools.combinations_with_replacement(range(size + 1), 2):
            yield ('phone', size, signs)


def email_cases(size):
    for letters in itertools.product('aZ1.@-_+ я', repeat=size):
        yield ('email', ''.join(letters), None)


def run_known(case, counter):
    kind, size, signs = case
    texts = [size]
    if kind == 'phone':
        first, second = signs
        digits = ('8915132547601234567890')[:size]
        texts = [
            before + digits[:first] + a + digits[first:second] + b + digits[second:] + after
            for before, after in (('', ''), ('+', ''), ('тел ', ' я'))
            for a in ('', ' ', '-', '(', ') ') for b in ('', '-', '_', '  ', '\n')
        ]
    for text in texts:
        counter.state(text)
        counter.step()
        counter.trace()
        compare(text, observe(DOCUMENT(text)), expected_rules(KNOWN_RULES, text))


def sizes(limit):
    # around powers of two and ten
    numbers = {1}
    for base in (2, 10):
        number = base
        while number <= limit:
            numbers.update((number - 1, number, number + 1))
            number *= base
    return sorted(numbers)


def long_texts(limit):
    def cases():
        for size in sizes(limit):
            for part in ('а', 'Яё', 'z', 'zA', '9', '-', '€', '\n', '\r\n', ' ', '\t',
                         'а ', 'а1', 'aа.', '\n ', '. a'):
                yield (part, size)
    return cases


def run_size(case, counter):
    part, size = case
    counter.state(case)
    for before, after in (('', ''), ('1', '1'), ('a ', ' a'), ('\n', '.'), ('', '€')):
        text = before + part * size + after
        counter.step()
        counter.trace()
        actual, expected = observe(PLAIN(text)), expected_default(text)
        if actual != expected:
            index = 0
            while actual[index:index + 1] == expected[index:index + 1]:
                index += 1
            raise Mismatch('text %r + %r * %d + %r: token %d is %s, expected %s' % (
                before, part, size, after, index,
                repr(actual[index:index + 1])[:200], repr(expected[index:index + 1])[:200]
            ))
        if PLAIN.split(text) != [_[0] for _ in expected]:
            raise Mismatch('split of %r + %r * %d + %r' % (before, part, size, after))


# ------------------------------------------------ every character there is

# is a letter for the regular expressions when case is ignored
ALIASES = {
    '\u0131': 'LATIN', '\u017f': 'LATIN',
    '\u1c80': 'RU', '\u1c81': 'RU', '\u1c82': 'RU', '\u1c83': 'RU',
    '\u1c84': 'RU', '\u1c85': 'RU', '\u1c86': 'RU',
}
CONTEXTS = (
    ('', ''), ('', 'а1'), ('', 'a'), ('а', 'б'), ('a', 'b'), ('1', '2'), ('а', ''),
    (' ', ' '), ('\n', ' z'), ('.', '€'),
)


def type_of_char(char):
    lower = char.lower()
    if 'а' <= lower <= 'я' or lower == 'ё':
        return 'RU'
    if 'a' <= lower <= 'z':
        return 'LATIN'
    if unicodedata.category(char) == 'Nd':
        return 'INT'
    if char in CLASSES['PUNCT']:
        return 'PUNCT'
    if char in '\r\n':
        return 'EOL'
    if char.isspace():
        return None
    return 'OTHER'


def expected_chars(text, types):
    result = []
    for index, char in enumerate(text):
        type = types.get(char) or type_of_char(char)
        if type is None:
            continue
        if result and type in LONG:
            value, start, stop, previous = result[-1]
            if stop == index and previous == type:
                result[-1] = value + char, start, index + 1, type
                continue
        result.append((char, index, index + 1, type))
    return result


BLOCK = 512


def chars(limits):
    def cases():
        for start, stop in limits:
            for block in range(start, stop, BLOCK):
                yield (block, min(block + BLOCK, stop))
    return cases


def run_chars(case, counter):
    for code in range(*case):
        char = chr(code)
        types = {}
        if char in ALIASES:
            # a letter or not
            types[char] = 'OTHER'
            if [_.type for _ in PLAIN(char)] == [ALIASES[char]]:
                types[char] = ALIASES[char]
        for before, after in CONTEXTS:
            for middle in (char, char + char):
                text = before + middle + after
                counter.state(code, before, after, middle)
                counter.step()
                counter.trace()
                compare(text, observe(PLAIN(text)), expected_chars(text, types), code=hex(code))


# ------------------------------------------------ many rules

def many_cases(limit):
    def cases():
        for number in range(1, limit + 1):
            for place in range(3):
                yield (number, place)
        for number in (200, 255, 256, 257, 500, 1000):
            for place in range(3):
                yield (number, place)
    return cases


MANY = [
    ''.join(_) for size in (1, 2)
    for _ in itertools.product('аЁz9.\n \xa0²٣é€İſK ', repeat=size)
]


def run_many(case, counter):
    number, place = case
    more = [('X%d' % _, 'q{%d}w' % (_ + 1)) for _ in range(number)]
    rules = [(_.type, _.pattern) for _ in RULES]
    at = [0, 3, len(rules)][place]
    rules = rules[:at] + more + rules[at:]
    texts = MANY + ['qw', 'a' + 'q' * number + 'w', 'Q' * max(number - 1, 1) + 'wqw', 'q' * number]
    tokenizer = Tokenizer([TokenRule(*_) for _ in rules])
    expected = MANY_EXPECTED.get(None)
    if expected is None:
        # nothing in these texts is for the rules added
        expected = [expected_rules([(_.type, _.pattern) for _ in RULES], _) for _ in MANY]
        MANY_EXPECTED[None] = expected
    expected = expected + [expected_rules(rules, _) for _ in texts[len(MANY):]]
    for text, tokens in zip(texts, expected):
        counter.state(number, place, text)
        counter.step()
        counter.trace()
        compare(text, observe(tokenizer(text)), tokens, rules=number)


MANY_EXPECTED = {}


class C09(Check):
    def families(self, tier):
        quick = tier == 'quick'
        return [
            Family('pairs', classes, run_default,
                   'all pairs of %d characters of all classes' % len(TYPES)),
            Family('default', texts(SMALL, 0, 5 if quick else 6), run_default,
                   'all texts of 0..%d of %d characters' % (5 if quick else 6, len(SMALL))),
            Family('long', texts(TINY, 5, 6 if quick else 7), run_default,
                   'all texts of 5..%d of %d characters' % (6 if quick else 7, len(TINY))),
            Family('many', many_cases(40 if quick else 130), run_many,
                   'up to %d rules before, among, after the usual ones, all texts of 1..2 of 16 characters' % 1000),
            Family('morph', texts(TINY, 0, 5), run_morph,
                   'the same with readings'),
            Family('odd', texts(ODD, 0, 4 if quick else 5), run_odd,
                   'all texts of unusual characters'),
            Family('characters', chars([(0, 0x3400), (0xa000, 0xac00), (0xd7a0, 0x12000), (0x1d000, 0x20000), (0xe0000, 0xe0200)] if quick else [(0, 0x110000)]),
                   run_chars, 'every character of %s in %d places' % (
                       'the scripts of Unicode (without the ideographs)' if quick else 'Unicode', 2 * len(CONTEXTS))),
            Family('size', long_texts(5000 if quick else 200000), run_size,
                   'tokens and texts of up to %d characters, all sizes around powers of 2 and 10' % (
                       5000 if quick else 200000)),
            Family('rules', rule_lists(2), run_rules('ab1 .', 4 if quick else 5),
                   'all lists of 1..2 of %d rules' % len(POOL)),
            Family('rules3', rule_lists(3), run_rules('ab1', 4 if quick else 6),
                   'all lists of 1..3 of %d rules' % len(POOL)),
            Family('places', place_lists(2 if quick else 3), run_places('abA \n', 4 if quick else 5),
                   'all lists of 1..%d of %d rules that look around or have groups' % (
                       2 if quick else 3, len(PLACES))),
            Family('phones', phone_cases, run_known, 'numbers of up to 19 digits with two signs anywhere'),
            Family('emails', lambda: itertools.chain(*(email_cases(_) for _ in range(1, 6 if quick else 7))), run_known,
                   'all texts of up to %d of 10 characters' % (5 if quick else 6)),
            Family('document', documents(4 if quick else 5), run_document,
                   'all texts of emails, phones and words'),
        ]


CHECK = C09(
    'C09',
    rule='state = text (with a rule list); transition = one tokenization; '
         'trace = one token list compared with the model',
    assumptions=[
        'rules of the pool do not match the empty string and have no numbered '
        'back references',
    ]
)
