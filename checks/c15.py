"""C15: a phrase agrees through its main word."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import combo, stub
from mc.yg import Parser, ReadyTokenizer

from yargy import rule, or_
from yargy.interpretation import fact
from yargy.morph import Form, Grams
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import eq, true, type as type_
from yargy.relations import Relation, main
from yargy.span import Span
from yargy.token import Token

F = fact('F', ['a', 'b'])
TOKENIZER = ReadyTokenizer(stub.tokenizer({}))


DICTIONARIES = {'exact': pipeline, 'caseless': caseless_pipeline, 'morph': morph_pipeline}


# Phrases:
#   ('w',)               word
#   ('p', items, main)   rule(...), main is an index or None
#   ('opt', x, reverse)  ('rep', x)  ('or', (x, ...))
#   ('named', x)  ('attr', x)  ('fact', x)
#   ('line', (number of words, ...), kind)  dictionary

W = ('w',)


def P(*items, **kwargs):
    return ('p', items, kwargs.get('main'))


ITEMS = {
    'w': W,
    'w?': ('opt', W, False),
    'ww': P(W, W),
    'w^w': P(W, W, main=1),
    'w?^w': P(('opt', W, False), W, main=1),
    '^w?w': P(('opt', W, True), W, main=0),
    'w^w?': P(W, ('opt', W, False), main=1),
    '(w^w)?': ('opt', P(W, W, main=1), False),
    'w+': ('rep', W),
    '(w^w)+': ('rep', P(W, W, main=1)),
    'n(w^w)': ('named', P(W, W, main=1)),
    'i(w^w)': ('attr', P(W, W, main=1)),
    'w^(w^w)': P(W, P(W, W, main=1), main=1),
    'w(w^w)': P(W, P(W, W, main=1)),
    'w^w|w': ('or', (P(W, W, main=1), W)),
    'd(www)': ('line', (3,), 'exact'),
    'd(ww,wwww)': ('line', (2, 4), 'morph'),
    'd(w,wwwwww)': ('line', (1, 6), 'caseless'),
    'f(w?w?^w)': ('fact', P(('opt', W, False), ('opt', W, False), W, main=2)),
}


def word(counter):
    counter.append(0)
    return 'w' + ''.join(chr(97 + int(_)) for _ in str(len(counter)))


def letters(ast, counter):
    """Give every word its own letter."""
    kind = ast[0]
    if kind == 'w':
        return ('w', word(counter))
    if kind == 'line':
        return (kind, tuple(
            tuple(word(counter) for _ in range(count)) for count in ast[1]
        ), ast[2])
    if kind in ('p', 'or'):
        return (kind, tuple(letters(_, counter) for _ in ast[1])) + tuple(ast[2:])
    return (kind, letters(ast[1], counter)) + tuple(ast[2:])


def variants(ast):
    """All (words, index of the main word or None when there are no words)."""
    kind = ast[0]
    if kind == 'w':
        return [((ast[1],), 0)]
    if kind == 'line':
        return [(words, 0) for words in ast[1]]
    if kind == 'opt':
        return [((), None)] + variants(ast[1])
    if kind == 'or':
        return [_ for item in ast[1] for _ in variants(item)]
    if kind == 'rep':
        items = variants(ast[1])
        return items + [
            (first + second, index)
            for first, index in items for second, _ in items
        ]
    if kind == 'p':
        result = []
        for chosen in itertools.product(*(variants(_) for _ in ast[1])):
            words = ()
            index = None
            for position, (part, inner) in enumerate(chosen):
                if part and (index is None or position == ast[2]):
                    index = len(words) + inner
                words += part
            result.append((words, index))
        return result
    return variants(ast[1])


def build(ast):
    kind = ast[0]
    if kind == 'w':
        return rule(eq(ast[1]))
    if kind == 'line':
        return DICTIONARIES[ast[2]](' '.join(_) for _ in ast[1])
    if kind == 'opt':
        return build(ast[1]).optional(reverse=ast[2])
    if kind == 'rep':
        return build(ast[1]).repeatable()
    if kind == 'or':
        return or_(*(build(_) for _ in ast[1]))
    if kind == 'p':
        items = []
        for index, item in enumerate(ast[1]):
            # words may be given as predicates
            item = eq(item[1]) if item[0] == 'w' else build(item)
            items.append(main(item) if index == ast[2] else item)
        return rule(*items)
    if kind == 'named':
        return build(ast[1]).named('N')
    if kind == 'attr':
        return build(ast[1]).interpretation(F.a)
    if kind == 'fact':
        return build(ast[1]).interpretation(F)
    raise ValueError(kind)


def make_tokens(words):
    # readings know the position of the word in the text
    offset = 0
    tokens = []
    for index, word in enumerate(words):
        form = Form(word, Grams(frozenset(['p%d' % index])))
        tokens.append(
            Token(word, Span(offset, offset + len(word)), 'RU').morphed([form])
        )
        offset += len(word) + 1
    return tokens


def position(form):
    gram, = form.grams.values
    return int(gram[1:])


class Pairs(Relation):
    """Holds for the listed pairs of words, or for all but the listed."""

    label = 'pairs'

    def __init__(self):
        self.pairs = set()
        self.negated = False
        self.asked = set()

    def __call__(self, form, other):
        pair = frozenset((position(form), position(other)))
        self.asked.add(pair)
        return (pair in self.pairs) != self.negated


def check(parser, relation, words, mains, counter, where):
    """Words at `mains` and only they are compared with each other."""
    tokens = make_tokens(words)
    pairs = {
        frozenset(_) for _ in itertools.combinations(sorted(set(mains)), 2)
    }
    relation.pairs, relation.negated, relation.asked = pairs, False, set()
    counter.state(where, words)
    counter.step(1 + len(pairs))
    counter.trace(1 + len(pairs))
    if parser.match(tokens) is None:
        raise Mismatch('%s, text %r: rejected when words %r agree, asked about %r' % (
            where, ' '.join(words), sorted(mains), sorted(map(sorted, relation.asked))
        ))
    for pair in pairs:
        relation.pairs, relation.negated = {pair}, True
        if parser.match(tokens) is not None:
            raise Mismatch('%s, text %r: accepted when words %r do not agree' % (
                where, ' '.join(words), sorted(pair)
            ))


# where the phrase is used -> (rule, texts with their main words)

def after(phrase, relation, options):
    item = rule(phrase.match(relation), eq('z').match(relation))
    return item, [
        (words + ('z',), (index, len(words)))
        for words, index in options if words
    ]


def before(phrase, relation, options):
    item = rule(eq('z').match(relation), eq('y').optional(), phrase.match(relation))
    return item, [
        (('z',) + words, (0, 1 + index)) for words, index in options if words
    ] + [
        (('z', 'y') + words, (0, 2 + index)) for words, index in options if words
    ]


def wrapped(phrase, relation, options):
    # names, facts and one more level around
    part = rule(phrase.named('P')).interpretation(F.b).match(relation).named('Q')
    item = rule(part, eq('z').match(relation)).interpretation(F)
    return item, after(phrase, relation, options)[1]


def optional(phrase, relation, options):
    item = rule(
        eq('z').match(relation), phrase.match(relation).optional(),
        eq('y').match(relation)
    )
    return item, [
        (('z',) + words + ('y',), (0, 1 + len(words)) + ((1 + index,) if words else ()))
        for words, index in options
    ]


def twice(phrase, relation, options):
    # the same phrase, joined in one place only
    joined = phrase.match(relation)
    item = rule(joined, eq('y'), phrase, eq('z').match(relation))
    result = []
    for words, index in options[:4]:
        for others, _ in options[:4]:
            if words and others:
                whole = words + ('y',) + others + ('z',)
                result.append((whole, (index, len(whole) - 1)))
    return item, result


def repeated(phrase, relation, options):
    # every copy is joined with every other
    item = rule(phrase.match(relation), eq('z')).repeatable()
    result = []
    for words, index in options[:4]:
        for others, other in options[:4]:
            if words and others:
                result.append((
                    words + ('z',) + others + ('z',),
                    (index, len(words) + 1 + other)
                ))
    return item, result


def inside(phrase, relation, options):
    # the phrase is the main part of a larger one
    larger = rule(eq('x').optional(), main(phrase), eq('y').optional())
    item = rule(larger.match(relation), eq('z').match(relation))
    result = []
    for words, index in options:
        if words:
            for left in ((), ('x',)):
                for right in ((), ('y',)):
                    whole = left + words + right + ('z',)
                    result.append((whole, (len(left) + index, len(whole) - 1)))
    return item, result


def second(phrase, relation, options):
    # the phrase is not the main part of a larger one
    larger = rule(phrase, eq('y').optional(), main(rule(eq('x'))))
    item = rule(larger.match(relation), eq('z').match(relation))
    result = []
    for words, _ in options:
        for middle in ((), ('y',)):
            whole = words + middle + ('x', 'z')
            result.append((whole, (len(whole) - 2, len(whole) - 1)))
    return item, result


CONTEXTS = {
    'after': after, 'before': before, 'wrapped': wrapped, 'optional': optional,
    'twice': twice, 'repeated': repeated, 'inside': inside, 'second': second,
}


def run(case, counter):
    context, names, index = case
    ast = letters(P(*(ITEMS[_] for _ in names), main=index), [])
    relation = Pairs()
    item, texts = CONTEXTS[context](build(ast), relation, variants(ast))
    parser = Parser(item, tokenizer=TOKENIZER)
    counter.step()
    where = '%s: phrase %r, main %r' % (context, names, index)
    for words, mains in texts:
        check(parser, relation, words, mains, counter, where)


def phrases(count, contexts, names=None):
    def cases():
        for context in contexts:
            for chosen in itertools.product(sorted(names or ITEMS), repeat=count):
                for index in (None,) + tuple(range(count)):
                    yield (context, chosen, index)
    return cases


def long_phrases(sizes):
    # main word and absent words far from the start
    def cases():
        for context in ('after', 'before', 'inside', 'wrapped'):
            for size in sizes:
                for kind in ('w', 'w^w'):
                    for index in (None,) + tuple(range(size)):
                        yield (context, (kind,) * size, index)
                        if size > 8 and kind == 'w^w':
                            continue
                        for place in range(size):
                            names = [kind] * size
                            names[place] = 'w?'
                            yield (context, tuple(names), index)
    return cases


def deep_phrases(depths):
    # main word under many levels
    def cases():
        for depth in depths:
            for places in itertools.product((None, 0, 1), repeat=min(depth, 4)):
                for context in ('after', 'wrapped'):
                    yield (context, depth, places)
    return cases


def run_deep(case, counter):
    context, depth, places = case
    ast = W
    for level in range(depth):
        index = places[level % len(places)]
        # the rest of the phrase is to the left on even levels
        ast = P(W, ast, main=index) if level % 2 else P(ast, W, main=index)
    ast = letters(ast, [])
    relation = Pairs()
    item, texts = CONTEXTS[context](build(ast), relation, variants(ast))
    parser = Parser(item, tokenizer=TOKENIZER)
    counter.step()
    for words, mains in texts:
        check(parser, relation, words, mains, counter,
              '%s: %d levels, main %r' % (context, depth, places))


# parts that look the same or are one object

SHARED = true()
SHARED_RULE = rule(true())
ALIKE = {
    'equal': true,
    'one': lambda: SHARED,
    'rules': lambda: rule(true()),
    'one rule': lambda: SHARED_RULE,
    'types': lambda: type_('RU'),
    'names': lambda: rule(true()).named('Name'),
    'choice': lambda: or_(rule('я'), rule(true())),
    'maybe': lambda: rule(true()).optional(reverse=True),
}


def alike_cases(size):
    for context in sorted(CONTEXTS):
        for name in sorted(ALIKE):
            for count in range(1, size + 1):
                for index in (None,) + tuple(range(count)):
                    yield (context, name, count, index)


def run_alike(case, counter):
    context, name, count, index = case
    parts = [ALIKE[name]() for _ in range(count)]
    if index is not None:
        parts[index] = main(parts[index])
    words = tuple('w' + chr(97 + _) for _ in range(count))
    relation = Pairs()
    item, found = CONTEXTS[context](rule(*parts), relation, [(words, index or 0)])
    if name == 'maybe' and context not in ('after', 'wrapped', 'twice'):
        # parts that may be absent leave words to others
        return
    parser = Parser(item, tokenizer=TOKENIZER)
    counter.step()
    for words, mains in found:
        check(parser, relation, words, mains, counter,
              '%s: %d parts that are %s, main %r' % (context, count, name, index))


class C15(Check):
    def families(self, tier):
        quick = tier == 'quick'
        contexts = tuple(sorted(CONTEXTS))
        some = ('w', 'w?', 'w^w', 'w?^w', '(w^w)?', 'n(w^w)', 'w^w|w')
        return [
            Family('one', phrases(1, contexts), run, 'phrases of one part in %d contexts' % len(contexts)),
            Family('two', phrases(2, contexts), run,
                   'phrases of two parts of %d kinds, every mark, in %d contexts' % (len(ITEMS), len(contexts))),
            Family('three', phrases(3, ('after', 'optional') if quick else contexts, some if quick else None),
                   run, 'phrases of three parts'),
            Family('combined', lambda: combo.cases((3,), ('phrase', 'maybe', 'no main', 'optional') if quick else (
                'phrase', 'maybe', 'no main', 'optional', 'choice', 'repeated', 'lines'), (0,) if quick else (0, 1, 2)), combo.run((4,) if quick else (3, 4)),
                   'three items with main words, relations, absent parts, dictionaries and facts'),
            Family('long', long_phrases((4, 5, 6, 9) if quick else (4, 5, 6, 7, 8, 9, 12, 17, 33)), run,
                   'phrases of many parts, every mark, every absent part'),
            Family('alike', lambda: alike_cases(5 if quick else 9), run_alike,
                   'up to %d parts that are equal or one object, %d kinds' % (5 if quick else 9, len(ALIKE))),
            Family('deep', deep_phrases((3, 4, 6, 10) if quick else (3, 4, 5, 6, 8, 10, 16, 32, 50)), run_deep,
                   'phrases in phrases'),
        ]


CHECK = C15(
    'C15',
    rule='state = (rule, text); transition = one parse with a relation that '
         'holds only for the expected words, or for all but them; trace = one '
         'verdict compared with the model of the main word',
    assumptions=['when the marked part is absent the leftmost present word is the main one']
)
