"""C06: concurrent and interleaved calls equal isolated calls."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import sched, stub
from mc.enum import sizes
from mc.yg import Parser, describe, describe_token

from yargy import rule, or_, and_, not_, forward
from yargy.interpretation import fact, attribute
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.predicates import (
    eq, gram, true, tag, type as type_, normalized, caseless, in_, in_caseless,
    gte, lte, length_eq, dictionary, custom, is_lower, is_upper, is_title,
    is_capitalized, is_single
)
from yargy.relations import Relation, main
from yargy.tagger import Tagger


class Same(Relation):
    __attributes__ = []
    label = 'same'

    def __call__(self, form, other):
        return bool(form.grams.values & other.grams.values)


class Labels(Tagger):
    tags = {'T'}

    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged('T') if index % 2 or token.value in ('а', '50') else token


READINGS = {
    'а': [('х', ('r0', 'NOUN')), ('у', ('r1', 'VERB'))],
    'б': [('х', ('r1', 'NOUN')), ('я', ('r0', 'ADJF'))],
    'в': [('я', ('r1', 'VERB'))],
}


def agree():
    F = fact('F', ['a', 'b'])
    same = Same()
    return rule(
        gram('NOUN').match(same).interpretation(F.a.normalized()),
        rule(rule('в').optional(), main(rule(true()))).match(same).interpretation(F.b)
    ).interpretation(F)


def recursive():
    F = fact('F', [attribute('c').repeatable()])
    item = forward()
    word = or_(rule('а'), rule(normalized('х'))).interpretation(F.c)
    item.define(or_(word, rule(word, item)))
    return item.interpretation(F)


def lines():
    F = fact('F', ['a', 'b'])
    return rule(
        morph_pipeline(['а', 'а б', 'в']).interpretation(F.a.normalized()),
        or_(rule(tag('T')), rule(type_('INT'))).interpretation(F.b).optional()
    ).interpretation(F)


def predicates():
    # every kind, each of them is true for some of the words
    F = fact('F', ['a'])
    items = [
        eq('а'), caseless('А'), in_(['а', '5']), in_caseless(['А']), gte(10),
        lte(10), length_eq(1), normalized('х'), dictionary(['а', 'zz']),
        gram('NOUN'), type_('INT'), tag('T'), custom(str.isdigit),
        custom(str.isupper, types='LATIN'), is_lower(), is_upper(), is_title(),
        is_capitalized(), is_single(), and_(gram('VERB'), is_single()),
        or_(eq('5'), is_single()), not_(gram('NOUN')), not_(or_(gte(10), tag('T'))),
    ]
    rules = [rule(_) for _ in items] + [
        pipeline(['а', '5']), caseless_pipeline(['А', 'zz']), morph_pipeline(['а', '50']),
    ]
    return or_(*(
        item.interpretation(F.a.const(index))
        for index, item in enumerate(rules)
    )).interpretation(F)


def overlaps():
    # phrases that overlap, one of several sets of them is chosen
    F = fact('F', ['a'])
    word = or_(*map(rule, 'абв5'))
    return or_(
        rule('а', 'б').interpretation(F.a.const(1)),
        rule('б', word, 'в').interpretation(F.a.const(2)),
        rule('в', 'а').interpretation(F.a.const(3)),
        rule('а').interpretation(F.a.const(4)),
        rule('5', '5', '5', '5').interpretation(F.a.const(5)),
        rule('5').interpretation(F.a.const(6)),
    ).interpretation(F)


RECIPES = {_.__name__: _ for _ in (agree, recursive, lines)}
# used in one family
SPECIAL = {_.__name__: _ for _ in (predicates, overlaps)}
TEXTS = ('а б', 'б в а', 'а а')
# no words of the rule
REFUSED = {'agree': 'в', 'recursive': 'в', 'lines': 'б'}
WORDS = {'small': 'а', 'big': 'ZZ', 'few': '5', 'many': '50', 'verb': 'в'}


class World(object):
    def __init__(self, recipe, warm=False):
        self.recipe = recipe
        self.rule = dict(RECIPES, **SPECIAL)[recipe]()
        self.tokenizer = stub.tokenizer(READINGS, cached=True)
        self.other = stub.tokenizer(READINGS)
        self.tagger = Labels()
        self.parser = self.make(self.tokenizer)
        self.matches = None
        if warm:
            list(self.parser.extract(TEXTS[1]))

    def prepare(self, names):
        if 'read' in names or 'draw' in names:
            self.matches = list(self.parser.extract(TEXTS[1]))

    def make(self, tokenizer):
        return Parser(self.rule, tokenizer=tokenizer, tagger=self.tagger)


def view(match):
    if match is None:
        return None
    made = match.fact
    return describe(match), repr(made), repr(made.as_json), tuple(map(tuple, made.spans))


def op_match(world):
    return view(world.parser.match(TEXTS[0]))


def op_match_other(world):
    return view(world.parser.match(TEXTS[2]))


def op_find(world):
    return describe(world.parser.find(TEXTS[1]))


def op_findall(world):
    return [describe(_) for _ in world.parser.findall(TEXTS[1])]


def op_extract(world):
    return [view(_) for _ in world.parser.extract(TEXTS[0])]


def op_build(world):
    return view(world.make(world.other).match(TEXTS[0]))


def op_look(world):
    return list(world.rule.normalized.as_bnf.source), list(world.rule.as_dot.source)


def op_read(world):
    return [view(_) for _ in world.matches]


def op_draw(world):
    return [list(_.tree.as_dot.source) for _ in world.matches]


def op_tokens(world):
    return [describe_token(_) for _ in world.tokenizer(TEXTS[1])]


def op_reanalyse(world):
    """Another tokenizer of the same morphology."""
    return [
        [_.normalized for _ in world.tokenizer.morph(word)] for word in 'абв'
    ] + [sorted(world.tokenizer.morph.normalized('а'))]


def op_refuse(world):
    text = REFUSED[world.recipe]
    return view(world.parser.match(text)), view(world.parser.find(text))


def word_operation(text):
    def operation(world):
        return sorted(view(_) for _ in world.parser.extract(text))
    return operation


OPERATIONS = {
    'match': op_match, 'match other': op_match_other, 'find': op_find,
    'findall': op_findall, 'extract': op_extract, 'build': op_build,
    'look': op_look, 'read': op_read, 'draw': op_draw, 'tokens': op_tokens,
    'analyse': op_reanalyse, 'refuse': op_refuse,
}
CHOICES = {
    'choose one': 'а б а в а 5', 'choose long': '5 5 5 5 а б б в',
    'choose many': 'а а б 5 в а б в в а',
}


def choice_operation(text):
    def operation(world):
        return [describe(_) for _ in world.parser.findall(text)]
    return operation


WORD_OPERATIONS = {name: word_operation(text) for name, text in WORDS.items()}
CHOICE_OPERATIONS = {name: choice_operation(text) for name, text in CHOICES.items()}
ALL_OPERATIONS = dict(OPERATIONS, **WORD_OPERATIONS, **CHOICE_OPERATIONS)


@functools.lru_cache(None)
def alone(recipe, warm, operation):
    world = World(recipe, warm)
    world.prepare([operation])
    try:
        return ('value', ALL_OPERATIONS[operation](world))
    except Exception as error:
        return ('error', type(error).__name__, str(error))


@functools.lru_cache(None)
def points(recipe, warm, operation, mode, occurrences):
    """Steps to stop at: all, or some executions of every line."""
    world = World(recipe, warm)
    world.prepare([operation])
    log, _ = sched.steps(lambda: ALL_OPERATIONS[operation](world), mode)
    if occurrences is None:
        return tuple(range(len(log)))
    numbers = {}
    for number, place in enumerate(log):
        numbers.setdefault(place, []).append(number)
    chosen = set()
    for items in numbers.values():
        chosen.update(items[:occurrences])
        chosen.add(items[-1])
    return tuple(sorted(chosen))


CHUNK = 50


def preemption_cases(pairs, mode, occurrences, warms=(False,), core=None, recipes=RECIPES):
    for recipe in sorted(recipes):
        for warm in warms:
            for first, second in pairs:
                if core is not None and recipe != 'agree' and (first, second) not in core:
                    continue
                count = len(points(recipe, warm, first, mode, occurrences))
                for start in range(0, count, CHUNK):
                    yield (recipe, warm, first, second, mode, occurrences, start)


def judge(case, where, recipe, warm, names, plan, mode, counter):
    world = World(recipe, warm)
    world.prepare(names)
    functions = [
        functools.partial(ALL_OPERATIONS[name], world) for name in names
    ]
    results, waited, ended = sched.run(functions, plan, mode)
    counter.step()
    counter.trace(len(names))
    counter.note('schedules')
    counter.state(recipe, warm, names, plan, mode)
    if waited:
        counter.note('schedules where a thread waited for a lock')
    if not ended:
        raise Mismatch('%s: the threads never end' % where)
    for name, result in zip(names, results):
        expected = alone(recipe, warm, name)
        if result != expected:
            raise Mismatch('%s: %s gives %r, alone %r' % (where, name, result, expected))
    # and the parser is as good as before
    for name in ('few' if recipe in SPECIAL else 'match',):
        actual = ('value', ALL_OPERATIONS[name](world))
        expected = alone(recipe, True, name)
        if actual != expected:
            raise Mismatch('%s: afterwards %s gives %r, expected %r' % (
                where, name, actual, expected
            ))


def run_preemption(case, counter):
    recipe, warm, first, second, mode, occurrences, start = case
    chosen = points(recipe, warm, first, mode, occurrences)[start:start + CHUNK]
    for number in chosen:
        plan = ((0, number), (1, None), (0, None))
        where = 'rule %s, %s is stopped at its %s %d, %s runs' % (
            recipe, first, mode, number, second
        )
        judge(case, where, recipe, warm, (first, second), plan, mode, counter)


def double_cases(pairs, mode, occurrences):
    for recipe in sorted(RECIPES):
        for first, second in pairs:
            for number in points(recipe, False, first, mode, occurrences):
                yield (recipe, first, second, mode, occurrences, number)


def run_double(case, counter):
    recipe, first, second, mode, occurrences, number = case
    for other in points(recipe, False, second, mode, occurrences):
        plan = ((0, number), (1, other), (0, None), (1, None))
        where = 'rule %s, %s is stopped at its %s %d, %s at its %s %d' % (
            recipe, first, mode, number, second, mode, other
        )
        judge(case, where, recipe, False, (first, second), plan, mode, counter)


def triple_cases(triples, mode, occurrences):
    for recipe in sorted(RECIPES):
        for names in triples:
            for number in points(recipe, False, names[0], mode, occurrences):
                yield (recipe, names, mode, occurrences, number)


def run_triple(case, counter):
    recipe, names, mode, occurrences, number = case
    for other in points(recipe, False, names[1], mode, occurrences):
        plan = ((0, number), (1, other), (2, None), (0, None), (1, None))
        where = 'rule %s, %r, stopped at %s %d and %d' % (
            recipe, names, mode, number, other
        )
        judge(case, where, recipe, False, names, plan, mode, counter)


# ------------------------------------------------ lazily consumed results

LONG = ('а б в', 'а а б', 'б', 'а 1 а б')


def open_stream(world, kind, text):
    if kind == 'tokens':
        return (describe_token(_) for _ in world.tokenizer(text))
    if kind == 'labels':
        return (describe_token(_) for _ in world.tagger(world.tokenizer(text)))
    if kind == 'facts':
        return (view(_) for _ in world.parser.extract(text))
    return (describe(_) for _ in getattr(world.parser, kind)(text))


@functools.lru_cache(None)
def whole(recipe, kind, text):
    return tuple(open_stream(World(recipe), kind, text))


def stream_cases(count, kinds, texts):
    for recipe in sorted(RECIPES):
        for chosen in itertools.product(kinds, repeat=count):
            for lines_ in itertools.product(texts, repeat=count):
                yield (recipe, chosen, lines_)


def merges(lengths):
    """All orders to advance streams of these lengths."""
    if not any(lengths):
        yield ()
        return
    for index, length in enumerate(lengths):
        if length:
            rest = lengths[:index] + (length - 1,) + lengths[index + 1:]
            for tail in merges(rest):
                yield (index,) + tail


def run_streams(limit, together=False):
    def run(case, counter):
        recipe, kinds, texts = case
        expected = [
            whole(recipe, kind, text) for kind, text in zip(kinds, texts)
        ]
        # one step to open it, one more step to see the end
        lengths = tuple(min(len(_) + 1, limit) + (not together) for _ in expected)
        for order in merges(lengths):
            world = World(recipe)
            streams = {}
            got = [[] for _ in kinds]
            if together:
                # all are opened before the first one is read
                for index in range(len(kinds)):
                    streams[index] = open_stream(world, kinds[index], texts[index])
            for index in order:
                counter.step()
                if index not in streams:
                    streams[index] = open_stream(world, kinds[index], texts[index])
                    continue
                item = next(streams[index], 'end')
                got[index].append(item)
                wanted = (expected[index] + ('end',))[len(got[index]) - 1]
                if item != wanted:
                    raise Mismatch('rule %s, %r of %r advanced in the order %r: %r, alone %r' % (
                        recipe, kinds, texts, order, item, wanted
                    ))
            counter.trace()
            counter.state(case, order)
    return run


# ------------------------------------------------ many calls

CROWD = ('findall', 'extract', 'facts', 'tokens', 'labels')


def crowd_cases(limit):
    for recipe in sorted(RECIPES):
        for kind in CROWD:
            for way in ('turns', 'opened', 'stack', 'behind'):
                for count in sizes(limit, 6):
                    yield (recipe, kind, way, count)


def crowd_order(way, count, length):
    """In what order the streams are advanced."""
    if way in ('turns', 'opened'):
        return [index for _ in range(length) for index in range(count)]
    if way == 'stack':
        # all are opened, the last one is read first
        return list(range(count)) + [
            index for index in reversed(range(count)) for _ in range(length - 1)
        ]
    # one is left behind all the others
    return [0] + [index for index in range(1, count) for _ in range(length)] + [0] * (length - 1)


def run_crowd(case, counter):
    """Many results of one parser are read at the same time."""
    recipe, kind, way, count = case
    kinds = [
        kind if index % 2 == 0 else CROWD[index // 2 % len(CROWD)]
        for index in range(count)
    ]
    chosen = [LONG[index % len(LONG)] for index in range(count)]
    expected = [whole(recipe, *_) for _ in zip(kinds, chosen)]
    length = max(len(_) for _ in expected) + 1
    world = World(recipe)
    streams = {}
    got = [0] * count
    if way == 'opened':
        for index in range(count):
            streams[index] = open_stream(world, kinds[index], chosen[index])
    for index in crowd_order(way, count, length):
        if index not in streams:
            streams[index] = open_stream(world, kinds[index], chosen[index])
        counter.step()
        item = next(streams[index], 'end')
        wanted = (expected[index] + ('end',) * length)[got[index]]
        got[index] += 1
        if item != wanted:
            raise Mismatch('rule %s, %d results are read (%s), number %d is %s(%r): %r, alone %r' % (
                recipe, count, way, index, kinds[index], chosen[index], item, wanted
            ))
    counter.trace()
    counter.state(case)


def series_cases(limit):
    for recipe in sorted(RECIPES):
        for names in itertools.permutations(('match', 'match other', 'find', 'extract', 'refuse'), 2):
            yield (recipe, names, limit)
        yield (recipe, ('build', 'look'), limit // 4)


def run_series(case, counter):
    """The same call again and again, with another one in between."""
    recipe, names, limit = case
    world = World(recipe)
    marks = set(sizes(limit, 8))
    for number in range(1, limit + 1):
        actual = ('value', OPERATIONS[names[0]](world))
        counter.step()
        if actual != alone(recipe, False, names[0]):
            raise Mismatch('rule %s, call %d of %s gives %r, the first one %r' % (
                recipe, number, names[0], actual, alone(recipe, False, names[0])
            ))
        if number in marks:
            actual = ('value', OPERATIONS[names[1]](world))
            counter.state(case, number)
            counter.trace()
            if actual != alone(recipe, False, names[1]):
                raise Mismatch('rule %s, after %d calls of %s %s gives %r, alone %r' % (
                    recipe, number, names[0], names[1], actual, alone(recipe, False, names[1])
                ))


class C06(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        quick_pairs = [
            ('match', 'match other'), ('findall', 'match'), ('extract', 'extract'),
            ('build', 'match'), ('match', 'build'), ('build', 'look'),
            ('look', 'build'), ('read', 'read'), ('draw', 'read'), ('tokens', 'findall'),
            ('match', 'refuse'), ('refuse', 'match'),
        ]
        words = [('small', 'big'), ('big', 'small'), ('few', 'many'), ('verb', 'small')]
        turns = [('choose one', 'choose long'), ('choose long', 'choose many'), ('choose many', 'choose one')]
        core = [('match', 'match other'), ('findall', 'match'), ('build', 'match'), ('read', 'read')]
        every = list(itertools.product(sorted(OPERATIONS), repeat=2))
        kinds = ('findall', 'extract', 'facts', 'tokens', 'labels')
        result = [
            Family('preemption', lambda: preemption_cases(
                every if deep else quick_pairs, 'line', 2 if deep else 1,
                (False, True) if deep else (False,), None if deep else core
            ), run_preemption,
                'one preemption at %s execution of every line, %d pairs of calls' % (
                    'the first, second and last' if deep else 'the first and last',
                    len(every if deep else quick_pairs)), cpu_limit=120),
            Family('predicates', lambda: preemption_cases(
                list(itertools.permutations(sorted(WORDS), 2)) if deep else words,
                'opcode' if deep else 'line', 1, (True,), recipes=('predicates',)
            ), run_preemption,
                'one preemption at every %s of parsing one word by %s, in favour of another word' % (
                    'instruction' if deep else 'line', '26 kinds of predicates and dictionaries'),
                cpu_limit=120),
            Family('choices', lambda: preemption_cases(
                list(itertools.product(sorted(CHOICES), repeat=2)) if deep else turns,
                'opcode' if deep else 'line', 2, (False,), recipes=('overlaps',)
            ), run_preemption,
                'one preemption at the first, second and last execution of every %s of choosing '
                'among overlapping phrases of a text, in favour of another text' % (
                    'instruction' if deep else 'line'), cpu_limit=120),
            Family('streams', lambda: stream_cases(2, kinds, LONG[:2] if not deep else LONG),
                   run_streams(4 if deep else 3),
                   'all merges of two results read step by step'),
            Family('three streams', lambda: stream_cases(3, ('extract', 'findall'), LONG[:2 if deep else 1]),
                   run_streams(3 if deep else 2, True),
                   'all merges of three results, opened before'),
            Family('crowd', lambda: crowd_cases(1100 if deep else 70), run_crowd,
                   'up to %d results read at the same time in four orders' % (1100 if deep else 70)),
            Family('series', lambda: series_cases(2100 if deep else 130), run_series,
                   'up to %d calls one after another' % (2100 if deep else 130)),
        ]
        if not deep:
            result.append(Family(
                'instructions', lambda: preemption_cases(
                    core[:1], 'opcode', 1, core=[]), run_preemption,
                'one preemption at the first and last execution of every instruction, one pair of calls'
            ))
        if deep:
            result += [
                Family('every line', lambda: preemption_cases(
                    quick_pairs, 'line', None), run_preemption,
                    'one preemption at every execution of every line', cpu_limit=120),
                Family('instructions', lambda: preemption_cases(
                    quick_pairs, 'opcode', 1), run_preemption,
                    'one preemption at the first and last execution of every instruction',
                    cpu_limit=120),
                Family('two preemptions', lambda: double_cases(
                    quick_pairs[:6], 'call', 1), run_double,
                    'two preemptions at the first and last call of every function',
                    cpu_limit=120),
            ]
        return result


CHECK = C06(
    'C06',
    rule='state = schedule; transition = one schedule or one step of a lazily '
         'read result; trace = one result compared with the isolated call',
    assumptions=['threads are preempted between lines (instructions) of yargy, '
                 'not inside of C code; a thread that waits for a lock longer '
                 'than %s s is left to run' % sched.WAIT]
)
