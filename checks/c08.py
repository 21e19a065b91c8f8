"""C08: an exception raised during parsing leaves no trace."""
import functools
import gc
import itertools

from mc.core import Check, Family, Mismatch
from mc import stub
from mc.enum import sizes
from mc.yg import Parser, describe, describe_token

from yargy import rule, or_, and_, not_, forward
from yargy.interpretation import fact, attribute, custom as custom_value
from yargy.morph import MorphAnalyzer
from yargy.pipelines import morph_pipeline, pipeline
from yargy.predicates import (
    Predicate, gram, custom, true, type as type_, tag, normalized
)
from yargy.relations import Relation, main
from yargy.tagger import Tagger, TaggersComposition
from yargy.tokenizer import MorphTokenizer, RULES


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


EXCEPTIONS = {
    _.__name__: _ for _ in (
        Fault, Stop, ValueError, TypeError, KeyError, IndexError,
        AttributeError, RuntimeError, RecursionError, AssertionError,
        MemoryError, KeyboardInterrupt, NotImplementedError, UnicodeError
    )
}


class Injector(object):
    """Counts calls of every site, raises at a chosen one."""

    def __init__(self):
        self.counts = {}
        self.site = None
        self.left = 0
        self.error = None
        self.raised = False

    def arm(self, site, number, error):
        self.counts = {}
        self.site = site
        self.left = number
        self.error = error
        self.raised = False

    def disarm(self):
        self.site = None

    def hit(self, site):
        self.counts[site] = self.counts.get(site, 0) + 1
        if site == self.site:
            self.left -= 1
            if not self.left:
                self.site = None
                self.raised = True
                raise self.error


class World(object):
    """A parser all callbacks of which can fail."""

    def __init__(self, recipe, cached):
        self.injector = injector = Injector()
        hit = injector.hit

        class Dictionary(stub.Dictionary):
            def parse(self, word):
                hit('dictionary')
                return [
                    InflectedRecord(_.word, _.normal_form, _.tag.grammemes)
                    for _ in stub.Dictionary.parse(self, word)
                ]

            class TagClass(object):
                @staticmethod
                def grammeme_is_known(value):
                    hit('grammeme')
                    return stub.TagClass.grammeme_is_known(value)

        class InflectedRecord(stub.Record):
            def inflect(self, grams):
                hit('inflect')
                return stub.Record(self.word + '1', self.normal_form, grams)

        class Words(MorphTokenizer):
            def __call__(self, text):
                hit('tokenizer')
                for token in MorphTokenizer.__call__(self, text):
                    hit('token')
                    yield token
                hit('last token')

            def split(self, text):
                hit('split')
                return MorphTokenizer.split(self, text)

            def check_type(self, type):
                hit('check type')
                return MorphTokenizer.check_type(self, type)

        class Labels(Tagger):
            tags = {'T'}

            def __call__(self, tokens):
                hit('tagger')
                for index, token in enumerate(tokens):
                    hit('label')
                    yield token.tagged('T') if index % 2 else token
                hit('last label')

        class Whole(Tagger):
            """Reads everything before it answers."""
            tags = {'U'}

            def __call__(self, tokens):
                result = list(tokens)
                hit('whole')
                return result

        class Word(Predicate):
            __attributes__ = ['value']

            def __init__(self, value):
                self.value = value

            def __call__(self, token):
                hit('predicate')
                return token.value == self.value

            def constrain(self, token):
                hit('constrain')
                return token

        class Scheme(Predicate):
            __attributes__ = ['value']

            def __init__(self, value):
                self.value = value

            def activate(self, context):
                hit('activate')
                return Word(self.value)

        class Same(Relation):
            __attributes__ = []
            label = 'same'

            def __call__(self, form, other):
                hit('relation')
                return bool(numbers(form) & numbers(other))

        def check(value):
            hit('custom')
            return value != 'в'

        def change(value):
            hit('normaliser')
            return value.upper()

        class Failing(Parser):
            def predict(self, *args):
                hit('predict')
                result = super(Failing, self).predict(*args)
                hit('predicted')
                return result

            def scan(self, *args):
                hit('scan')
                result = super(Failing, self).scan(*args)
                hit('scanned')
                return result

            def complete(self, *args):
                hit('complete')
                result = super(Failing, self).complete(*args)
                hit('completed')
                return result

        raw = Dictionary(READINGS)
        if cached:
            morph = stub.CachedMorphAnalyzer.__new__(stub.CachedMorphAnalyzer)
            MorphAnalyzer.__init__(morph, raw)
        else:
            morph = MorphAnalyzer(raw)
        self.tokenizer = Words(RULES, morph=morph)
        self.tagger = TaggersComposition([Labels(), Whole()]) if recipe != 'lines' else Labels()
        self.make = Failing
        self.rule = RECIPES[recipe](Word, Scheme, Same(), check, change)
        self.parser = None

    def build(self):
        self.parser = self.make(
            self.rule, tokenizer=self.tokenizer, tagger=self.tagger
        )


def numbers(form):
    return {_ for _ in form.grams.values if _.startswith('r')}


READINGS = {
    'а': [('х', ('r0', 'NOUN')), ('у', ('r1', 'VERB'))],
    'б': [('х', ('r1', 'NOUN')), ('я', ('r0', 'NOUN'))],
    'в': [('я', ('r1', 'VERB'))],
}


def words(Word, Scheme, same, check, change):
    F = fact('F', ['a', attribute('c').repeatable()])
    return or_(
        rule(Word('а')).interpretation(F.a.inflected()),
        rule(custom(check)).interpretation(F.c)
    ).repeatable().interpretation(F)


def agree(Word, Scheme, same, check, change):
    F = fact('F', ['a', 'b'])
    return rule(
        and_(gram('NOUN'), custom(check)).match(same).interpretation(F.a.normalized().custom(change)),
        rule(Scheme('в').optional(), main(rule(true()))).match(same).interpretation(F.b.custom(change))
    ).interpretation(F)


def recursive(Word, Scheme, same, check, change):
    F = fact('F', [attribute('c').repeatable()])
    item = forward()
    word = or_(rule(Word('а')), rule(Scheme('б'))).interpretation(custom_value(change))
    item.define(or_(
        word.interpretation(F.c), rule(word.interpretation(F.c), tag('T').optional(), item)
    ))
    return item.interpretation(F)


def lines(Word, Scheme, same, check, change):
    F = fact('F', ['a', 'b'])
    return rule(
        morph_pipeline(['а', 'а б', 'в']).interpretation(F.a.normalized()),
        or_(pipeline(['б', 'а']), rule(type_('INT'))).interpretation(
            F.b.inflected({'gent'}).custom(change)).optional()
    ).interpretation(F)


def ambiguous(Word, Scheme, same, check, change):
    F = fact('F', [attribute('c').repeatable()])
    word = or_(rule(Word('а')), rule(not_(Word('в')))).match(same)
    return word.interpretation(F.c).repeatable(max=2).repeatable().interpretation(F)


RECIPES = {_.__name__: _ for _ in (words, agree, recursive, lines, ambiguous)}
TEXTS = ('а б', 'б а 1', 'а в б', 'в')


def value(match):
    if match is None:
        return None
    made = match.fact
    return repr(made), repr(made.as_json), tuple(map(tuple, made.spans))


def op_build(world, text):
    world.build()


def op_match(world, text):
    return describe(world.parser.match(text))


def op_findall(world, text):
    return [describe(_) for _ in world.parser.findall(text)]


def op_extract(world, text):
    return [describe(_) for _ in world.parser.extract(text)]


def op_facts(world, text):
    return [value(_) for _ in world.parser.extract(text)]


def op_fact(world, text):
    return value(world.parser.match(text))


OPERATIONS = {
    'build': op_build, 'match': op_match, 'findall': op_findall,
    'extract': op_extract, 'facts': op_facts, 'fact': op_fact,
}


def new_world(recipe, cached, operation):
    world = World(recipe, cached)
    if operation != 'build':
        world.build()
    world.injector.counts = {}
    return world


@functools.lru_cache(None)
def sites(recipe, cached, operation, text):
    """How many times each callback is called."""
    world = new_world(recipe, cached, operation)
    OPERATIONS[operation](world, text)
    return tuple(sorted(world.injector.counts.items()))


def probes(world):
    result = []
    for attempt in (1, 2):
        for text in TEXTS:
            result.append((
                attempt, text,
                op_match(world, text), op_findall(world, text),
                op_extract(world, text), op_fact(world, text),
            ))
            tokens = [describe_token(_) for _ in world.tokenizer(text)]
            result.append((attempt, text, tokens, world.tokenizer.split(text)))
        # the rule is as good as before too
        world.build()
    return result


@functools.lru_cache(None)
def untouched(recipe, cached):
    world = World(recipe, cached)
    world.build()
    return probes(world)


def fault_cases(recipes, operations, texts, exceptions, cached=(False, True)):
    """exceptions(number of the call) -> names"""
    for recipe in recipes:
        for cache in cached:
            for operation in operations:
                for text in texts[:1] if operation == 'build' else texts:
                    for site, count in sites(recipe, cache, operation, text):
                        for number in range(1, count + 1):
                            for name in exceptions(number):
                                yield (recipe, cache, ((operation, text, site, number, name),))


def fail(world, step, where):
    operation, text, site, number, name = step
    error = EXCEPTIONS[name]('injected')
    world.injector.arm(site, number, error)
    try:
        OPERATIONS[operation](world, text)
    except BaseException as caught:
        if type(caught).__name__ == 'Hang':
            raise
        if caught is not error:
            raise Mismatch('%s: %s, %s reaches the caller instead of the exception raised' % (
                where, step, repr(caught)
            ))
        return True
    finally:
        world.injector.disarm()
    if world.injector.raised:
        raise Mismatch('%s: %s, the exception does not reach the caller' % (where, step))
    return False


def run(case, counter):
    recipe, cached, faults = case
    world = World(recipe, cached)
    if faults[0][0] != 'build':
        world.build()
    where = 'rule %s%s' % (recipe, ', cached analysis' if cached else '')
    for step in faults:
        counter.step()
        if not fail(world, step, where):
            if len(faults) == 1:
                raise Mismatch('%s: %s, the call is not repeated in a fresh world' % (where, step))
            counter.note('faults not reached')
    if not world.parser:
        world.build()
    check(world, case, where + ', after %s' % (faults,), counter)


def check(world, case, where, counter):
    counter.state(case)
    counter.trace()
    counter.step()
    actual = probes(world)
    expected = untouched(case[0], case[1])
    for one, other in zip(actual, expected):
        if one != other:
            raise Mismatch('%s: %r, untouched %r' % (where, one, other))


# ------------------------------------------------ two failures one after another

def pair_cases(recipes, sites_of, texts):
    for recipe in recipes:
        single = [
            _[2][0] for _ in fault_cases(
                [recipe], ['match', 'fact', 'facts'], texts,
                lambda number: ('Fault',), cached=(True,)
            ) if _[2][0][2] in sites_of
        ]
        # first and last call of each site
        chosen = [
            _ for _ in single
            if _[3] == 1 or _[3] == dict(sites(recipe, True, _[0], _[1]))[_[2]]
        ]
        for pair in itertools.product(chosen, repeat=2):
            yield (recipe, True, pair)


# ------------------------------------------------ results nobody reads to the end

def abandon_cases():
    for recipe in sorted(RECIPES):
        for cached in (False, True):
            for call in ('findall', 'extract', 'tokens'):
                for text in TEXTS:
                    for count in range(4):
                        for way in ('close', 'drop', 'keep'):
                            yield (recipe, cached, call, text, count, way)


def run_abandon(case, counter):
    recipe, cached, call, text, count, way = case
    world = World(recipe, cached)
    world.build()
    stream = iter(
        world.tokenizer(text) if call == 'tokens'
        else getattr(world.parser, call)(text)
    )
    taken = list(itertools.islice(stream, count))
    if way == 'close' and hasattr(stream, 'close'):
        stream.close()
    elif way == 'drop':
        del stream
        gc.collect(0)
    check(world, case, 'rule %s, %d of %s(%r) are read, the rest is left (%s)' % (
        recipe, len(taken), call, text, way
    ), counter)


# ------------------------------------------------ failure between two results

def between_cases():
    for recipe in sorted(RECIPES):
        for call in ('findall', 'extract'):
            for text in TEXTS:
                for count in range(4):
                    yield (recipe, True, call, text, count)


def run_between(case, counter):
    """Matches already returned stay good when a later step fails."""
    recipe, cached, call, text, count = case
    expected = [
        (describe(_), value(_)) for _ in _stream(new_world(recipe, cached, call), call, text)
    ]
    probe = new_world(recipe, cached, call)
    stream = iter(_stream(probe, call, text))
    list(itertools.islice(stream, count))
    probe.injector.counts = {}
    list(stream)
    rest = dict(probe.injector.counts)
    for site in sorted(rest):
        for number in range(1, rest[site] + 1):
            world = new_world(recipe, cached, call)
            stream = iter(_stream(world, call, text))
            taken = list(itertools.islice(stream, count))
            error = Fault()
            world.injector.arm(site, number, error)
            where = 'rule %s, %s(%r), call %d of %s fails after %d results' % (
                recipe, call, text, number, site, len(taken)
            )
            try:
                list(stream)
            except Fault as caught:
                if caught is not error:
                    raise Mismatch('%s: other exception' % where)
            else:
                raise Mismatch('%s: the exception does not reach the caller' % where)
            world.injector.disarm()
            counter.step()
            actual = [(describe(_), value(_)) for _ in taken]
            if actual != expected[:len(taken)]:
                raise Mismatch('%s: earlier matches are %r, expected %r' % (
                    where, actual, expected[:len(taken)]
                ))
            check(world, case, where, counter)
            counter.state(case, site, number)


def _stream(world, call, text):
    return getattr(world.parser, call)(text)


# ------------------------------------------------ many failures, late failures

def series_cases(limit):
    for recipe in sorted(RECIPES):
        for cached in (False, True):
            for operation, text in (('build', TEXTS[0]), ('facts', TEXTS[1])):
                for site, count in sites(recipe, cached, operation, text):
                    for number in sorted({1, count}):
                        yield (recipe, cached, (operation, text, site, number, 'Fault'), limit)


def run_series(case, counter):
    """One call fails many times."""
    recipe, cached, step, limit = case
    world = World(recipe, cached)
    if step[0] != 'build':
        world.build()
    where = 'rule %s%s' % (recipe, ', cached analysis' if cached else '')
    marks = set(sizes(limit, 3))
    for number in range(1, limit + 1):
        counter.step()
        if not fail(world, step, where):
            counter.note('faults not reached')
            break
        if number not in marks:
            continue
        if step[0] == 'build':
            world.build()
        check(world, (recipe, cached, step, number), '%s, after %d times %s' % (
            where, number, step
        ), counter)


WORDS = 'абваб1'


def late_cases(limit):
    for recipe in sorted(RECIPES):
        for operation in ('findall', 'fact'):
            for count in sizes(limit, 0):
                # the time grows fast
                if recipe != 'ambiguous' or count < 12:
                    yield (recipe, operation, count)


def run_late(case, counter):
    """A long text, the call fails near its end."""
    recipe, operation, count = case
    text = ' '.join(WORDS[_ * _ % len(WORDS)] for _ in range(count))
    for site, calls in sites(recipe, True, operation, text):
        for number in sorted({calls, calls - calls // 3} - {0}):
            world = World(recipe, True)
            world.build()
            where = 'rule %s, text of %d words' % (recipe, count)
            step = (operation, text, site, number, 'Fault')
            counter.step()
            if not fail(world, step, where):
                raise Mismatch('%s: %s, the call is not repeated in a fresh world' % (where, step))
            check(world, (recipe, True, step), '%s, after call %d of %s failed' % (
                where, number, site
            ), counter)


class C08(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        names = sorted(EXCEPTIONS)

        def all_names(number):
            return names

        def rotating(number):
            # every kind at the first call, then two of them in turn
            return names if number == 1 else [names[number % len(names)], 'Fault']

        def main_names(number):
            return ('Fault', 'TypeError') if number > 1 else names

        result = [
            Family('faults', lambda: fault_cases(
                sorted(RECIPES), ['build', 'facts', 'fact'], TEXTS[:2] if not deep else TEXTS,
                all_names if deep else (lambda number: ('Fault',) if number > 1 else names[:3]),
                cached=(False, True) if deep else (True,)
            ), run, 'every call of every callback, %d kinds of exceptions' % len(names)),
            Family('calls', lambda: fault_cases(
                sorted(RECIPES), ['match', 'findall'], TEXTS if deep else TEXTS[2:3],
                rotating if deep else (lambda number: ('Fault',)),
                cached=(False,)
            ), run, 'every call of every callback'),
            Family('kinds', lambda: (
                _ for _ in fault_cases(
                    ['agree', 'lines'], ['facts', 'build'], TEXTS[:1],
                    lambda number: names if number == 1 else (), cached=(True,)
                )
            ), run, 'first call of every callback, %d kinds of exceptions' % len(names)),
            Family('abandoned', abandon_cases, run_abandon,
                   'up to 3 results are read, three ways to leave the rest'),
            Family('between', between_cases, run_between,
                   'every callback fails after each number of results'),
            Family('series', lambda: series_cases(1100 if deep else 34), run_series,
                   'one call fails up to %d times' % (1100 if deep else 34)),
            Family('late', lambda: late_cases(140 if deep else 12), run_late,
                   'texts of up to %d words, callbacks fail near the end' % (140 if deep else 12)),
        ]
        if deep:
            every = {
                'dictionary', 'token', 'label', 'whole', 'predicate', 'constrain',
                'relation', 'normaliser', 'inflect', 'predict', 'scanned',
                'completed', 'custom', 'last token'
            }
            result.append(Family(
                'pairs', lambda: pair_cases(sorted(RECIPES), every, TEXTS[:1]), run,
                'two failed calls, first and last call of every callback'
            ))
        return result


CHECK = C08(
    'C08',
    rule='state = (rule, history of failures); transition = one failed or '
         'probing call; trace = all probes compared with an untouched parser',
    assumptions=['StopIteration and GeneratorExit are not injected, Python '
                 'itself changes them inside generators']
)
