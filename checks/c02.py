"""C02: findall() returns a maximum-coverage set of disjoint valid spans."""
import itertools

from mc.core import Check, Family, Mismatch, Known
from mc import gram, enum
from mc.yg import Parser, PLAIN, text_of, positions, token_range
from checks import c01

from yargy import rule, or_
from yargy.relations import Relation

LETTERS = 'abcdefghijklmnop'


def best_cover(spans, size):
    """Largest number of tokens disjoint spans can cover."""
    best = [0] * (size + 1)
    for start in reversed(range(size)):
        best[start] = best[start + 1]
        for first, stop in spans:
            if first == start:
                best[start] = max(best[start], stop - first + best[stop])
    return best[0]


def problem(matches, spans, letters):
    offsets = positions(letters)
    ranges = []
    for match in matches:
        range_ = token_range(match, offsets)
        values = [_.value for _ in match.tokens]
        if values != list(letters[range_[0]:range_[1]]):
            return 'tokens of a match are not consecutive: %r' % values
        ranges.append(range_)
    for range_ in ranges:
        if range_ not in spans:
            return 'range %r is not derivable' % (range_,)
    for (_, stop), (start, _) in zip(ranges, ranges[1:]):
        if start < stop:
            return 'matches overlap or are out of order: %r' % (ranges,)
    covered = sum(stop - start for start, stop in ranges)
    best = best_cover(spans, len(letters))
    if covered != best:
        return 'matches %r cover %d tokens, %d possible with %r' % (
            ranges, covered, best, sorted(spans)
        )


def check_findall(parser, spans, letters, counter):
    text = text_of(letters)
    matches = list(parser.findall(text))
    counter.trace()
    message = problem(matches, spans, letters)
    if message:
        return 'findall(%r): %s' % (text, message)
    first = parser.find(text)
    counter.trace()
    if (first is None) != (not matches):
        return 'find(%r) is %r, findall gives %d matches' % (
            text, first, len(matches)
        )
    if first is not None and first.span != matches[0].span:
        return 'find(%r) is not the first of findall' % text


def run_grammar(words):
    def run(case, counter):
        grammar = gram.number_grammar(case)
        parser = Parser(gram.build(grammar), tokenizer=PLAIN)
        counter.step()
        known = None
        for letters in words:
            counter.state(case, letters)
            counter.step(2)
            message = check_findall(
                parser, gram.spans(grammar, letters), letters, counter
            )
            if message:
                if c01.has_p1(grammar):
                    root, defs = gram.squash_grammar(grammar)
                    squashed = (
                        gram.language_of(root),
                        tuple((_, gram.language_of(ast)) for _, ast in defs)
                    )
                    if not check_findall(
                            parser, gram.spans(squashed, letters),
                            letters, counter):
                        known = Known('min-bound-over-repeatable', message)
                        continue
                raise Mismatch(message, grammar=gram.show_grammar(grammar))
        if known:
            raise known
    return run


def all_spans(size, longest):
    return [
        (start, stop)
        for start in range(size)
        for stop in range(start + 1, min(size, start + longest) + 1)
    ]


def span_sets(size, longest, step=1):
    def cases():
        count = len(all_spans(size, longest))
        for mask in range(1 << count):
            yield (size, longest, mask)
    return cases


def run_spans(case, counter):
    """The rule is the list of phrases, one for each chosen range."""
    size, longest, mask = case
    letters = LETTERS[:size]
    spans = {
        span for index, span in enumerate(all_spans(size, longest))
        if mask >> index & 1
    }
    counter.state(case)
    if not spans:
        return
    phrases = [
        rule(*letters[start:stop])
        for start, stop in sorted(spans, reverse=mask & 2 > 0)
    ]
    parser = Parser(or_(*phrases), tokenizer=PLAIN)
    counter.step(3)
    message = check_findall(parser, spans, letters, counter)
    if message:
        raise Mismatch(message, spans=sorted(spans))


class never(Relation):
    label = 'never'

    def __call__(self, form, other):
        return False


def rejections(size, longest):
    def cases():
        count = len(all_spans(size, longest))
        for statuses in itertools.product(range(4), repeat=count):
            if any(statuses):
                yield (size, longest, statuses)
    return cases


def rejected(terms):
    # words without readings never agree
    relation = never()
    items = [
        gram.Term(0, _).match(relation) for _ in terms
    ]
    return rule(*items)


def run_rejections(case, counter):
    """A range counts only if some derivation of it is accepted:
    0 no phrase, 1 accepted, 2 rejected, 3 preferred one is rejected."""
    size, longest, statuses = case
    letters = LETTERS[:size]
    phrases = []
    spans = set()
    for span, status in zip(all_spans(size, longest), statuses):
        terms = letters[span[0]:span[1]]
        if status in (2, 3):
            phrases.append(rejected(terms))
        if status in (1, 3):
            phrases.append(rule(*(gram.Term(1, _) for _ in terms)))
            spans.add(span)
    counter.state(case)
    parser = Parser(or_(*phrases), tokenizer=PLAIN)
    counter.step(3)
    message = check_findall(parser, spans, letters, counter)
    if message:
        raise Mismatch(message, spans=sorted(spans), statuses=statuses)


def repeated(size):
    """Phrases over few words: the same phrase occurs in several places."""
    phrases = list(enum.words('ab', 1, size))

    def cases():
        for count in (1, 2, 3):
            for chosen in itertools.combinations(phrases, count):
                yield chosen
    return cases


def run_repeated(words):
    def run(case, counter):
        parser = Parser(or_(*(rule(*_) for _ in case)), tokenizer=PLAIN)
        counter.step()
        for letters in words:
            spans = {
                (start, start + len(phrase))
                for phrase in case
                for start in range(len(letters))
                if letters[start:start + len(phrase)] == phrase
            }
            counter.state(case, letters)
            counter.step(2)
            message = check_findall(parser, spans, letters, counter)
            if message:
                raise Mismatch(message, phrases=case)
    return run


def long_cases(longest=5000):
    # what is best is not what comes first
    for size in (50, 200, 600, 2000, longest):
        for phrases in (('ab', 'bba'), ('bba', 'ab')):
            yield 'abb' * (size // 3), phrases
    for size in (50, 200, 600):
        for letters in ('a' * size, 'ab' * (size // 2), 'aab' * (size // 3),
                        'b' * size + 'a', 'a' + 'b' * size):
            for phrases in (('a',), ('aa',), ('a', 'ab'), ('aa', 'b'), ('aab', 'ba')):
                yield letters, phrases


def run_long(case, counter):
    letters, phrases = case
    counter.state(case)
    counter.step(2)
    parser = Parser(or_(*(rule(*_) for _ in phrases)), tokenizer=PLAIN)
    spans = {
        (start, start + len(phrase))
        for phrase in phrases
        for start in range(len(letters))
        if letters[start:start + len(phrase)] == phrase
    }
    message = check_findall(parser, spans, letters, counter)
    if message:
        raise Mismatch(message[:500], phrases=phrases)


def phase_cases(limit):
    """A long phrase over short ones at every place of a long text."""
    for place in range(limit):
        for long in ('abba', 'abbba', 'aba'):
            for others in (('b',), ('b', 'bb'), ('bb', 'ab')):
                yield ('b' * place + long + 'b' * (limit - place), (long,) + others)
                if place % 8 == 0:
                    yield ('b' * place + long * 3 + 'b' * (limit - place), others + (long,))


def scaled_cases(lengths):
    """Ranges of long and short parts: what is longer counts as much as it is long."""
    for sizes in itertools.product(lengths, repeat=3):
        for mask in range(1, 1 << len(all_spans(3, 3))):
            yield (sizes, mask)


def run_scaled(case, counter):
    sizes, mask = case
    words = []
    edges = [0]
    for letter, size in zip('abc', sizes):
        # no word occurs twice
        words.extend(letter + chr(ord('a') + _ // 26) + chr(ord('a') + _ % 26) for _ in range(size))
        edges.append(len(words))
    spans = [
        (edges[start], edges[stop])
        for index, (start, stop) in enumerate(all_spans(3, 3)) if mask >> index & 1
    ]
    counter.state(case)
    for order in (spans, spans[::-1]):
        parser = Parser(or_(*(rule(*words[start:stop]) for start, stop in order)), tokenizer=PLAIN)
        counter.step(3)
        message = check_findall(parser, set(spans), words, counter)
        if message:
            raise Mismatch('parts of %r words, phrases %r: %s' % (sizes, spans, message[-300:]))


class C02(Check):
    def families(self, tier):
        quick = tier == 'quick'
        W4 = list(enum.words('ab', 0, 4))
        W5 = list(enum.words('ab', 0, 5))
        W3 = list(enum.words('ab', 0, 3))
        W4d = [_ for _ in enum.words('abcd', 1, 4) if len(_) < 4 or _[-1] in 'cd']
        families = [
            Family('spans5', span_sets(5, 5), run_spans,
                   'all 2^15 sets of ranges over 5 tokens'),
            Family('spans7', span_sets(7 if quick else 9, 2), run_spans,
                   'all sets of ranges of 1..2 tokens over %d tokens' % (7 if quick else 9)),
            Family('reject', rejections(3, 3), run_rejections,
                   'all 4^6 assignments of absent, accepted, rejected, preferred rejected'),
            Family('repeated', repeated(3), run_repeated(W5 if quick else list(enum.words('ab', 0, 7))),
                   'all sets of 1..3 phrases of 1..3 words over 2 words'),
            Family('ast', c01.simple(1, 4), run_grammar(W4 if quick else W5),
                   'all rules of 1..4 constructs'),
            Family('nullable', c01.towers(2, enum.UNARY, c01.EMPTY_BASES), run_grammar(W3 if not quick else list(enum.words('ab', 0, 2)) + ['aab', 'aba', 'bba', 'abb']),
                   'rules that may be empty'),
            Family('tower', c01.towers(2, enum.UNARY_MORE), run_grammar(W4),
                   'all chains of 2 modifiers'),
            Family('shared', c01.shared(1, 2), run_grammar(W4d[:60] if quick else W4d),
                   'shared rules in 19 contexts'),
            Family('forward', c01.forward_contexts(c01.FORWARD_BODIES, (0, 1)), run_grammar(W4),
                   'recursive rules'),
            Family('cfg1', c01.cfgs(1, 3, 2), run_grammar(W4),
                   'all one-symbol grammars'),
            Family('scaled', lambda: scaled_cases((1, 280) if quick else (1, 9, 40, 150, 300, 600)), run_scaled,
                   'all sets of ranges of three parts of 1 to %d words' % (280 if quick else 600)),
            Family('phase', lambda: phase_cases(150 if quick else 300), run_long,
                   'a long phrase over short ones at every place of a text of %d tokens' % (150 if quick else 300)),
            Family('long', long_cases, run_long, 'texts of up to 600 tokens', cpu_limit=120),
        ]
        if not quick:
            families += [
                Family('ast5', c01.simple(5, 5), run_grammar(W4), 'all rules of 5 constructs'),
                Family('spans6', span_sets(6, 4), run_spans,
                       'all 2^18 sets of ranges of 1..4 tokens over 6 tokens'),
                Family('spans7-3', span_sets(7, 3), run_spans,
                       'all 2^18 sets of ranges of 1..3 tokens over 7 tokens'),
                Family('reject4', rejections(4, 2), run_rejections,
                       'all 4^7 assignments over 4 tokens, ranges of 1..2'),
                Family('cfg2', c01.cfgs2_thorough, run_grammar(W3), 'two-symbol grammars'),
            ]
        return families


CHECK = C02(
    'C02',
    rule='state = (rule, text) pair, a rule realising a chosen set of ranges; '
         'transition = building a parser, one findall() or one find(); trace = '
         'one result compared with the optimum found by dynamic programming '
         'over the derivable ranges',
)
