"""C20: results do not depend on hash order, memory layout or process."""
import functools
import gc
import itertools
import json
import os
import subprocess
import sys

from mc.core import Check, Family, Mismatch, ROOT
from mc import enum, gram, stub
from mc.yg import PLAIN, Parser, describe, text_of
from mc.corpus import show

from yargy import rule, or_, and_, forward
from yargy.interpretation import fact, attribute
from yargy.pipelines import morph_pipeline, pipeline
from yargy.predicates import (
    gram as gram_, in_, dictionary, normalized, true, tag, type as type_, custom
)
from yargy.relations import Relation, main
from yargy.tagger import Tagger
from yargy.tokenizer import TokenRule, RULES

from checks import c05, c18


# ------------------------------------------------ fresh processes

def run_process(seed, options, malloc=None):
    environ = dict(os.environ)
    environ['PYTHONHASHSEED'] = str(seed)
    if malloc:
        environ['PYTHONMALLOC'] = malloc
    output = subprocess.run(
        [sys.executable, os.path.join(ROOT, 'mc', 'corpus.py'), json.dumps(options)],
        env=environ, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600
    )
    if output.returncode:
        raise Mismatch('process with seed %s fails: %s' % (
            seed, output.stderr.decode('utf8')[-500:]
        ))
    return json.loads(output.stdout.decode('utf8'))


def process_cases(seeds, layouts):
    for seed in range(1, seeds):
        yield (seed, None, (), 0)
    for number in range(layouts):
        malloc = ('malloc', 'pymalloc_debug', 'pymalloc')[number % 3]
        yield (
            number, malloc, (('gc', (1, 0, 700)[number // 3 % 3]),), 3000 * (number % 4)
        )


class Reference(object):
    """Made once, before the workers start."""

    def __init__(self, size, high):
        self.options = dict(size=size, high=high)
        self.value = None

    def get(self):
        if self.value is None:
            self.value = run_process(0, self.options)
        return self.value


def run_processes(reference):
    def run(case, counter):
        seed, malloc, more, junk = case
        options = dict(reference.options, **dict(more))
        if junk:
            options['junk'] = junk
        expected = reference.get()
        actual = run_process(seed, options, malloc)
        counter.step()
        for name in sorted(expected):
            counter.trace(len(expected[name]))
            for index, digest in enumerate(expected[name]):
                counter.state(name, index, case)
            if actual.get(name) != expected[name]:
                index = next((
                    index for index, pair in enumerate(itertools.zip_longest(
                        actual.get(name, []), expected[name])) if pair[0] != pair[1]
                ), None)
                raise Mismatch('process %r: result %s of %s differs from the one of the process with hash seed 0' % (
                    case, index, name
                ))
    return run


# ------------------------------------------------ chosen orders of sets

class Word(str):
    """A string with a chosen hash, equal to itself only."""

    def __new__(cls, value, number):
        self = str.__new__(cls, value)
        self.number = number
        return self

    def __hash__(self):
        return self.number

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other


class Same(Relation):
    __attributes__ = ['names']
    label = 'same'

    def __init__(self, names):
        self.names = names

    def __call__(self, form, other):
        return any(_ in form.grams.values and _ in other.grams.values for _ in self.names)


class Labels(Tagger):
    def __init__(self, names):
        self.tags = set(names)
        self.names = list(names)

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged(self.names[index % len(self.names)])


NORMALS = 'хуяю'
GRAMS = ('r0', 'r1', 'g0', 'g1')


def ordered_world(normals, grams):
    """Results when strings have the given hashes."""
    n = {value: Word(value, number) for value, number in zip(NORMALS, normals)}
    g = {value: Word(value, number) for value, number in zip(GRAMS, grams)}

    readings = {
        'а': [(n['х'], (g['r0'], g['g0'])), (n['у'], (g['r1'], g['g0'])), (n['я'], (g['r0'], g['r1'], g['g1']))],
        'б': [(n['я'], (g['r1'],)), (n['х'], (g['r0'], g['g1'])), (n['ю'], (g['g0'],))],
        'в': [(n['ю'], (g['r0'], g['r1'])), (n['у'], (g['r1'], g['g1']))],
    }

    class Dictionary(stub.Dictionary):
        class TagClass(object):
            @staticmethod
            def grammeme_is_known(value):
                return True

        def parse(self, word):
            return [
                Record(word, normal, set(items))
                for normal, items in readings.get(word.lower(), [])
            ] or [Record(word, n['ю'], set())]

    class Record(stub.Record):
        def __init__(self, word, normal, items):
            stub.Record.__init__(self, word, normal, items)
            self.tag.grammemes = set(items)

        def inflect(self, items):
            return stub.Record(self.word + '/' + '+'.join(sorted(items)), self.normal_form, items)

    tokenizer = stub.MorphTokenizer(morph=stub.MorphAnalyzer(Dictionary({})))
    same = Same(list(g.values())[:2])
    F = fact('F', ['a', 'b', attribute('c').repeatable()])
    rules = {
        'lines': morph_pipeline(['а', 'б', 'в', 'а б', 'б а', 'а в']).interpretation(
            F.a.normalized()).interpretation(F),
        'lines in rule': rule(
            morph_pipeline(['а', 'б', 'в', 'в б']).interpretation(F.a.normalized()).optional(),
            morph_pipeline(['б', 'а']).interpretation(F.b.normalized())
        ).interpretation(F),
        'dictionary': rule(dictionary({n['х'], n['у'], n['я']})).interpretation(
            F.c).repeatable().interpretation(F),
        'normalized': or_(
            rule(normalized(n['х'])).interpretation(F.a.normalized()),
            rule(normalized(n['ю'])).interpretation(F.b.normalized())
        ).interpretation(F),
        'grams': rule(
            and_(gram_(g['r0']), gram_(g['g0'])).interpretation(F.a.normalized()),
            gram_(g['r1']).interpretation(F.b.inflected({g['r0'], g['g1'], g['r1']}))
        ).interpretation(F),
        'agree': rule(
            true().match(same).interpretation(F.a.normalized()),
            rule(gram_(g['g0']).optional(), main(rule(gram_(g['r1'])))).match(same).interpretation(F.c)
        ).interpretation(F),
        'tags': rule(tag(n['х']), or_(rule(tag(n['у'])), rule(tag(n['я'])))).repeatable(),
        'custom': rule(custom(lambda value: value != 'в', types='RU'), true()),
        'in': rule(in_({'а', 'б', '1'})).repeatable(max=2),
    }
    tagger = Labels([n['х'], n['у'], n['я']])
    result = []
    for name in sorted(rules):
        parser = Parser(rules[name], tokenizer=tokenizer, tagger=tagger)
        for size in (1, 2, 3):
            for letters in itertools.product('абв', repeat=size):
                text = ' '.join(letters)
                found = list(parser.extract(text))
                if not found:
                    continue
                result.append((
                    name, text, describe(parser.match(text)),
                    [(describe(_), show(_.tree), c05.read(lambda: (
                        repr(_.fact), repr(_.fact.as_json), tuple(map(tuple, _.fact.spans))
                    ))) for _ in found],
                    [describe(_) for _ in parser.findall(text)],
                ))
    return result


def order_cases(full):
    same = tuple(range(4))
    for normals in itertools.permutations(range(4)):
        yield (normals, same)
        if normals != same:
            yield (same, normals)
    # all in one bucket, the order of insertion decides
    yield ((0, 0, 0, 0), (0, 0, 0, 0))
    yield ((0, 8, 16, 24), (24, 16, 8, 0))
    if full:
        for normals in itertools.permutations(range(4)):
            for grams in itertools.permutations(range(4)):
                yield (normals, grams)


@functools.lru_cache(None)
def ordered_reference():
    return repr(ordered_world((0, 1, 2, 3), (0, 1, 2, 3)))


def run_order(case, counter):
    actual = repr(ordered_world(*case))
    counter.step()
    counter.trace()
    counter.state(case)
    if actual != ordered_reference():
        expected = ordered_world((0, 1, 2, 3), (0, 1, 2, 3))
        for one, other in zip(ordered_world(*case), expected):
            if repr(one) != repr(other):
                raise Mismatch('hashes of strings %r: %s, with other hashes %s' % (
                    case, c05.difference(one, other), ''
                ))
        raise Mismatch('hashes of strings %r change the results' % (case,))


# ------------------------------------------------ memory used again

SMALL = None


def small():
    """Rules built one after another that get the addresses of each other."""
    global SMALL
    if SMALL is None:
        SMALL = [
            gram.number_grammar((ast, ())) for ast in enum.canonical_asts(3, 3)
        ][::5]
    return SMALL


def result_of(grammar):
    parser = Parser(gram.build(grammar), tokenizer=PLAIN)
    return [
        (text, describe(parser.match(text)), [
            (describe(_), show(_.tree)) for _ in parser.extract(text)
        ])
        for text in ('a', 'b', 'a b', 'a a', 'b a a', 'a b b')
    ]


@functools.lru_cache(None)
def fresh(index):
    return result_of(small()[index])


WAYS = ('drop', 'keep', 'cycle')


def reuse_cases(count):
    total = len(small())
    for start in range(total):
        for step in range(1, total if count is None else count + 1):
            for way in WAYS:
                yield (start, step, way)


def run_reuse(case, counter):
    start, step, way = case
    grammars = small()
    kept = []
    if way == 'drop':
        gc.disable()
    try:
        for number in range(4):
            index = (start + step * number) % len(grammars)
            expected = fresh(index)
            parser = Parser(gram.build(grammars[index]), tokenizer=PLAIN)
            for text, _, _ in expected:
                parser.match(text)
            actual = result_of(grammars[index])
            counter.step()
            counter.trace()
            counter.state(case, number)
            if actual != expected:
                raise Mismatch('rule %s after %d others (%s): %s' % (
                    gram.show_grammar(grammars[index]), number, way,
                    c05.difference(actual, expected)
                ))
            if way == 'keep':
                kept.append(parser)
            elif way == 'cycle':
                holder = [parser]
                holder.append(holder)
                del holder
                gc.collect(0)
            del parser
    finally:
        gc.enable()


# ------------------------------------------------ cached analysis, other parsers

def cached_cases():
    for name in sorted(c05.RECIPES):
        for index in range(3):
            for other in sorted(c05.RECIPES):
                yield (name, index, other)


def make(item, cached, tagger=None):
    return Parser(item, tokenizer=stub.tokenizer(c05.FIRST, cached=cached), tagger=c05.Labels())


@functools.lru_cache(None)
def uncached(name, index):
    return c05.read(lambda: c05.behaviour(make(c05.RECIPES[name]()[index], False), TEXTS))


TEXTS = c05.TEXTS[:9]
SHARED = []


def run_cached(case, counter):
    name, index, other = case
    expected = uncached(name, index)
    items = c05.RECIPES[other]()
    others = []
    for item in items:
        parser = c05.read(lambda: make(item, True))
        if isinstance(parser, Parser):
            for text in TEXTS:
                parser.match(text)
            others.append(parser)
    if not SHARED:
        SHARED.append(stub.tokenizer(c05.FIRST, cached=True))
    for label, build in (
            ('cached', lambda: make(c05.RECIPES[name]()[index], True)),
            ('shared tokenizer', lambda: Parser(
                c05.RECIPES[name]()[index], tokenizer=SHARED[0], tagger=c05.Labels()))):
        actual = c05.read(lambda: c05.behaviour(build(), TEXTS))
        counter.step()
        counter.trace()
        counter.state(case, label)
        if actual != expected:
            raise Mismatch('rule %s, %s, after parsers of %s: %s' % (
                name, label, other, c05.difference(actual, expected)
            ))


# ------------------------------------------------ values of other parsers

def constant_cases():
    for case in c18.equal_cases():
        if case[-1] != 'one parser':
            yield case


class C20(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        reference = Reference(4 if deep else 3, 3)
        reference.get()
        seeds, layouts = (200, 36) if deep else (12, 9)
        return [
            Family('processes', lambda: process_cases(seeds, layouts), run_processes(reference),
                   '%d hash seeds, %d memory layouts, corpus of %d results' % (
                       seeds, layouts, sum(map(len, reference.get().values()))),
                   cpu_limit=300),
            Family('orders', lambda: order_cases(deep), run_order,
                   'all orders of sets of 4 normal forms and of 4 grammemes%s' % (
                       ', all pairs of them' if deep else '')),
            Family('reuse', lambda: reuse_cases(None if deep else 4), run_reuse,
                   '%d rules one after another in every stride, dropped, kept or in a cycle' % len(small())),
            Family('constants', constant_cases, c18.run_equal,
                   'parsers with values that are equal and differ, in every order of up to 3'),
            Family('cached', cached_cases, run_cached,
                   'all pairs of %d recipes' % len(c05.RECIPES)),
        ]


CHECK = C20(
    'C20',
    rule='state = (result, process or order of hashes or history); transition = '
         'one process or one world; trace = one result compared',
    assumptions=['hash seeds of processes are those listed, orders of small '
                 'sets are all covered by chosen hashes']
)
