"""C30: the chart of a text lists its partial derivations."""
import collections
import itertools
import re

from mc.core import Check, Family, Mismatch
from mc import enum, gram as grammars
from mc.yg import PLAIN, Parser, describe, ReadyTokenizer, text_of

from yargy import or_, rule

from checks import c05, c21, c28, c29

ITEM = re.compile(r'\[(\d+):(\d+)\] (\S+) -> (.*)')
LINE = re.compile(r'-+')


class Item(object):
    def __init__(self, start, stop, name, done, rest):
        self.start = start
        self.stop = stop
        self.name = name
        self.done = done
        self.rest = rest


def read_chart(lines, tokens):
    """Columns of items"""
    columns = []
    number = 0
    lines = list(lines)
    while number < len(lines):
        index = len(columns)
        if index > len(tokens):
            raise Mismatch('%d columns for %d tokens' % (index + 1, len(tokens)), lines=lines)
        token = tokens[index - 1] if index else None
        if lines[number] != '%d %r' % (index, token):
            raise Mismatch('column %d of %r starts with %r' % (index, token, lines[number]))
        if not LINE.fullmatch(lines[number + 1]):
            raise Mismatch('column %d of %r is %r' % (index, token, lines[number:]))
        number += 2
        column = []
        while lines[number]:
            found = ITEM.fullmatch(lines[number])
            if not found:
                raise Mismatch('can not read %r' % lines[number])
            start, stop, name, terms = found.groups()
            terms = terms.split(' ')
            if terms.count('$') != 1:
                raise Mismatch('can not read %r' % lines[number])
            dot = terms.index('$')
            item = Item(int(start), int(stop), name, terms[:dot], terms[dot + 1:])
            if item.stop != index or item.start > item.stop:
                raise Mismatch('%r is in column %d' % (lines[number], index))
            column.append(item)
            number += 1
        number += 1
        columns.append(column)
    if len(columns) != len(tokens) + 1:
        raise Mismatch('%d columns for %d tokens' % (len(columns), len(tokens)))
    return columns


def check_items(columns, printed, letters, all=True):
    """Every item is a partial derivation."""
    printed.read(letters)
    expected = [
        {_.rest[0] for _ in column if _.rest} | ({printed.start} if all or not number else set())
        for number, column in enumerate(columns)
    ]
    for column in columns:
        for item in column:
            text = '[%d:%d] %s -> %s $ %s' % (
                item.start, item.stop, item.name, ' '.join(item.done), ' '.join(item.rest)
            )
            if item.done + item.rest not in printed.rules.get(item.name, ()):
                raise Mismatch('%s of the chart of %r is not a line of %r' % (text, letters, printed.lines))
            ends = {item.start}
            for term in item.done:
                if term in c21.TERMINALS:
                    ends = {_ + 1 for _ in ends if letters[_:_ + 1] == c21.TERMINALS[term]}
                else:
                    ends = {end for _ in ends for end in printed.table.get((term, _), ())}
            if item.stop not in ends:
                raise Mismatch('%s of the chart of %r does not derive' % (text, letters))
            if item.name not in expected[item.start]:
                raise Mismatch('%s of the chart of %r is not expected at %d' % (text, letters, item.start))


def finished(columns, name):
    return collections.Counter(
        (item.start, item.stop) for column in columns for item in column
        if item.name == name and not item.rest
    )


def grammar_cases(low, high):
    for ast in enum.canonical_asts(low, high):
        yield (ast, ())


def looped_cases(deep):
    for grammar in enum.cfgs(1, 2, 3 if deep else 2):
        yield grammar
    for grammar in enum.cfgs(2, 2, 1):
        if enum.reachable(grammar):
            yield grammar


def run_items(high):
    texts = list(enum.words('ab', 0, high))

    def run(case, counter):
        numbered = grammars.number_grammar(case)
        parser = Parser(grammars.build(numbered), tokenizer=PLAIN)
        lines = list(grammars.build(numbered).normalized.as_bnf.source)
        printed = c21.Printed(lines)
        cfg = grammars.CFG(numbered)
        for letters in texts:
            text = text_of(letters)
            tokens = list(PLAIN(text))
            counter.state(case, letters)
            chart = parser.chart(text)
            columns = read_chart(chart.source, tokens)
            counter.step(sum(len(_) for _ in columns))
            counter.trace()
            check_items(columns, printed, letters)
            if list(chart.source) != list(chart.source):
                raise Mismatch('chart of %r changes when it is printed' % letters)
            if list(parser.chart(text).source) != list(chart.source):
                raise Mismatch('chart of %r is another the second time' % letters)
            found = finished(columns, printed.start)
            expected = {
                (start, stop): 1
                for start, stop in grammars.spans(case, letters)
                if start < stop
            }
            try:
                trees = grammars.Trees(cfg, letters).all()
                for span in trees:
                    expected[span] = len(trees[span])
                count = True
            except grammars.TooMany:
                count = False
            check_finished(found, expected, count, letters, lines)
            # from the start of the text only
            columns = read_chart(parser.chart(text, all=False).source, tokens)
            check_items(columns, printed, letters, all=False)
            found = finished(columns, printed.start)
            check_finished(
                {span: number for span, number in found.items() if not span[0]},
                {span: number for span, number in expected.items() if not span[0]},
                count, letters, lines
            )
            # what is reported
            reports = collections.Counter()
            for match in parser.extract(text):
                first, last = match.tokens[0], match.tokens[-1]
                reports[tokens.index(first), tokens.index(last) + 1] += 1
            if not cfg.cyclic():
                check_finished(reports, expected, count, letters, lines)
    return run


def check_finished(found, expected, count, letters, lines):
    for span in set(expected) | set(_ for _ in found if _[0] < _[1]):
        one, other = found.get(span, 0), expected.get(span, 0)
        if one != other and (count or not one or not other):
            raise Mismatch('%r of %r is derived in %d ways, the chart finishes it %d times' % (
                span, letters, other, one
            ), grammar=lines)


# ------------------------------------------------ parsers with steps of their own, as in the cookbook

class TooManyStates(Exception):
    pass


def capped(method):
    def wrap(self, column, *args):
        before = len(column.states)
        method(self, column, *args)
        after = len(column.states)
        self.states += (after - before)
        if self.cap and self.states > self.cap:
            raise TooManyStates
    return wrap


class CappedParser(Parser):
    def reset(self):
        self.states = 0

    def __init__(self, *args, **kwargs):
        self.cap = kwargs.pop('cap', None)
        self.reset()
        Parser.__init__(self, *args, **kwargs)

    def chart(self, *args, **kwargs):
        self.reset()
        return Parser.chart(self, *args, **kwargs)

    predict = capped(Parser.predict)
    scan = capped(Parser.scan)
    complete = capped(Parser.complete)


def calls(parser, text):
    return (
        ('match', lambda: describe(parser.match(text))),
        ('find', lambda: describe(parser.find(text))),
        ('findall', lambda: [describe(_) for _ in parser.findall(text)]),
        ('extract', lambda: sorted(map(repr, (describe(_) for _ in parser.extract(text))))),
    )


def has_empty(printed):
    return any([] in alternatives for alternatives in printed.rules.values())


def run_capped(high):
    texts = list(enum.words('ab', 1, high))

    def run(case, counter):
        item = grammars.build(grammars.number_grammar(case))
        printed = c21.Printed(list(item.normalized.as_bnf.source))
        plain = Parser(item, tokenizer=PLAIN)
        free = CappedParser(item, tokenizer=PLAIN)
        limited = CappedParser(item, tokenizer=PLAIN, cap=1)
        exact = not has_empty(printed)
        for letters in texts:
            text = text_of(letters)
            counter.state(case, letters)
            expected = dict((name, call()) for name, call in calls(plain, text))
            for all in (True, False):
                total = sum(len(list(_)) for _ in plain.chart(text, all=all).columns)
                free.chart(text, all=all)
                if free.states > total or (exact and free.states != total):
                    raise Mismatch('%r: steps made %d items of %d' % (letters, free.states, total))
                if free.states:
                    names = ('match',) if not all else ('find', 'findall', 'extract')
                    for cap in sorted({1, free.states // 2 or 1, free.states - 1 or 1, free.states, free.states + 1}):
                        limited.cap = cap
                        for name, call in calls(limited, text):
                            if name not in names:
                                continue
                            counter.step()
                            counter.trace()
                            try:
                                value = call()
                                stopped = False
                            except TooManyStates:
                                stopped = True
                            if stopped != (free.states > cap):
                                raise Mismatch('%s of %r makes %d items, with a cap of %d it is %s' % (
                                    name, letters, free.states, cap, 'stopped' if stopped else 'not stopped'
                                ))
                            if not stopped and value != expected[name]:
                                raise Mismatch('%s of %r is %r under a cap instead of %r' % (
                                    name, letters, value, expected[name]
                                ))
            for name, call in calls(free, text):
                counter.trace()
                if call() != expected[name]:
                    raise Mismatch('%s of %r differs with steps of a subclass' % (name, letters))
    return run


# the text of the cookbook

def cookbook_cases():
    for size in range(1, 10):
        yield (size,)


def run_cookbook(case, counter):
    size, = case
    A = or_(rule('a'), rule('a', 'a'))
    parser = CappedParser(A.repeatable(), cap=100)
    counter.state(case)
    counter.step()
    counter.trace()
    try:
        parser.match('a ' * size)
        stopped = False
    except TooManyStates:
        stopped = True
    if stopped != (size >= 6):
        raise Mismatch('text of %d words is %s' % (size, 'stopped' if stopped else 'not stopped'))


# ------------------------------------------------ everything else a rule may have

def run_recipe(case, counter):
    name, index = case
    for tokenizer in (c28.STUB, ReadyTokenizer(c28.STUB)):
        item = c05.RECIPES[name]()[index]
        parser = Parser(item, tokenizer=tokenizer, tagger=c05.Labels())
        names = [_.split(' -> ')[0] for _ in item.normalized.as_bnf.source]
        for text in c05.TEXTS:
            given = text if tokenizer is c28.STUB else list(c28.STUB(text))
            tokens = list(c05.Labels()(list(c28.STUB(text))))
            counter.state(case, text)
            counter.step()
            counter.trace()
            columns = read_lines(parser.chart(given), tokens)
            found = finished(columns, columns and parser.rule.label)
            for column in columns:
                for item in column:
                    if item.name not in names:
                        raise Mismatch('%r of the chart is not one of %r' % (item.name, names))
            given = text if tokenizer is c28.STUB else list(c28.STUB(text))
            starts = {tuple(_.span)[0]: number for number, _ in enumerate(tokens)}
            reports = collections.Counter()
            for match in parser.extract(given):
                first, last = match.tokens[0], match.tokens[-1]
                reports[starts[first.span.start], starts[last.span.start] + 1] += 1
            for span in reports:
                if reports[span] > found[span]:
                    raise Mismatch('%r of %r is reported %d times, the chart finishes it %d times' % (
                        span, text, reports[span], found[span]
                    ))


def read_lines(chart, tokens):
    lines = list(chart.source)
    c29.check_lines(chart, lines, _Nobody)
    # labels may have blanks
    return read_chart(lines, tokens)


class _Nobody(object):
    @staticmethod
    def trace():
        pass


# ------------------------------------------------ many lines

def wide_cases(limit):
    for count in enum.sizes(limit):
        for kind in ('alternatives', 'starts', 'long'):
            yield (kind, count)


def run_wide(case, counter):
    """Nothing is cut when there is much to list."""
    kind, count = case
    if kind == 'alternatives':
        # one word, read in many ways
        item, text, expected = or_(*(rule('a').named('N%d' % _) for _ in range(count))), 'a', {(0, 1): count}
    elif kind == 'starts':
        # one of many phrases
        item = or_(*(rule('a', str(_)) for _ in range(count)))
        text, expected = 'a %d' % (count - 1), {(0, 2): 1}
    else:
        size = min(count, 60)
        item, text = rule('a').repeatable(), 'a ' * size
        expected = {(a, b): 1 for a in range(size) for b in range(a + 1, size + 1)}
    parser = Parser(item, tokenizer=PLAIN)
    counter.state(case)
    counter.step()
    chart = parser.chart(text)
    lines = list(chart.source)
    columns = read_lines(chart, list(PLAIN(text)))
    counter.trace(len(lines))
    sizes = [len(list(_)) for _ in chart.columns]
    if [len(_) for _ in columns] != sizes:
        raise Mismatch('%s: %s items, %s lines' % (case, sizes, [len(_) for _ in columns]))
    for index, column in enumerate(chart.columns):
        if len(list(column.source)) != sizes[index] + 2:
            raise Mismatch('%s: %d lines of %d items of column %d' % (
                case, len(list(column.source)), sizes[index], index
            ))
    found = finished(columns, parser.rule.label)
    if dict(found) != expected:
        raise Mismatch('%s: finished %s instead of %s' % (case, dict(found), expected))


class C30(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        return [
            Family('items', lambda: grammar_cases(1, 5 if deep else 4), run_items(4 if deep else 3),
                   'all rules of <= %d nodes, all texts of <= %d words' % ((5, 4) if deep else (4, 3))),
            Family('looped', lambda: looped_cases(deep), run_items(4 if deep else 3),
                   'recursive rules of <= %d alternatives' % (3 if deep else 2)),
            Family('capped', lambda: itertools.chain(grammar_cases(1, 4 if deep else 3), looped_cases(False)),
                   run_capped(4 if deep else 3), 'parsers whose steps are wrapped, all caps around the limit'),
            Family('wide', lambda: wide_cases(1100 if deep else 300), run_wide,
                   'up to %d alternatives' % (1100 if deep else 300)),
            Family('cookbook', cookbook_cases, run_cookbook, 'the example of the documentation'),
            Family('recipes', c29.recipe_cases, run_recipe, 'recipes and texts of C05'),
        ]


CHECK = C30(
    'C30',
    rule='state = (grammar, text); transition = one item of a chart; '
         'trace = one chart compared with the derivations of the model'
)
