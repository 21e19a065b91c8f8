"""C21: the printed grammar is the grammar that is parsed."""
import itertools
import re

from mc.core import Check, Family, Mismatch
from mc import enum, gram, stub
from mc.yg import PLAIN, Parser, describe, text_of

from yargy import rule, or_, empty, forward
from yargy.interpretation import fact, attribute
from yargy.predicates import Predicate
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.relations import Relation, main

A, B, C = enum.A, enum.B, enum.C

# ------------------------------------------------ decorations

F = fact('F', ['a', attribute('b').repeatable()])
G = fact('G', ['a', 'x1'])


def yes(value):
    return value


INTERPRETATIONS = {
    'F': F, 'G': G, 'F.a': F.a, 'F.b': F.b, 'G.a': G.a, 'G.x1': G.x1,
    'F.a.normalized()': F.a.normalized(),
    'G.a.custom(yes)': G.a.custom(yes),
    'G.x1.const(1)': G.x1.const(1),
}


class Always(Relation):
    __attributes__ = ['name']

    def __init__(self, name):
        self.name = name

    def __call__(self, form, other):
        return True

    @property
    def label(self):
        return self.name


RELATIONS = {_: Always(_) for _ in ('rel', 'other')}


CYRILLIC = dict(zip('abcdn', 'абвгд'))
LATIN = {value: key for key, value in CYRILLIC.items()}


def russian(text):
    return ''.join(CYRILLIC.get(_, _) for _ in text)


class Letter(Predicate):
    __attributes__ = ['letter']

    def __init__(self, letter):
        self.letter = letter

    def __call__(self, token):
        return token.value == CYRILLIC[self.letter]

    @property
    def label(self):
        return "'%s'" % self.letter


def build(root, defs):
    """Like gram.build, for decorated trees, every terminal is its own."""
    built = {}
    forwards = {
        index: forward() for index, (kind, _) in enumerate(defs) if kind == 'fwd'
    }

    def ref(index):
        if index in forwards:
            return forwards[index]
        if index not in built:
            built[index] = make(defs[index][1])
        return built[index]

    def term(ast):
        return Letter(ast[1])

    def make(ast):
        kind = ast[0]
        if kind == 't':
            return rule(term(ast))
        if kind == 'seq':
            return rule(*(term(_) if _[0] == 't' else make(_) for _ in ast[1]))
        if kind == 'seqm':
            items = [term(_) if _[0] == 't' else make(_) for _ in ast[1]]
            items[ast[2]] = main(items[ast[2]])
            return rule(*items)
        if kind == 'or':
            return or_(*(make(_) for _ in ast[1]))
        if kind == 'opt':
            return make(ast[1]).optional(reverse=ast[2])
        if kind == 'rep':
            return make(ast[1]).repeatable(
                min=ast[2] or None, max=ast[3] or None, reverse=ast[4]
            )
        if kind == 'named':
            return make(ast[1]).named(ast[2])
        if kind == 'interp':
            return make(ast[1]).interpretation(INTERPRETATIONS[ast[2]])
        if kind == 'rel':
            return make(ast[1]).match(RELATIONS[ast[2]])
        if kind == 'lines':
            return {
                'pipeline': pipeline, 'caseless_pipeline': caseless_pipeline,
                'morph_pipeline': morph_pipeline
            }[ast[1]]([russian(_) for _ in ast[2]])
        if kind == 'empty':
            return empty()
        if kind == 'ref':
            return ref(ast[1])
        raise ValueError(kind)

    for index, item in forwards.items():
        item.define(make(defs[index][1]))
    return make(root)


def plain(ast):
    """Without decorations, for gram.Language."""
    kind = ast[0]
    if kind in ('seq', 'or', 'seqm'):
        return ('seq' if kind == 'seqm' else kind, tuple(plain(_) for _ in ast[1]))
    if kind in ('named', 'interp', 'rel'):
        return plain(ast[1])
    if kind in ('opt', 'rep'):
        return (kind, plain(ast[1])) + tuple(ast[2:])
    if kind == 'lines':
        return ('or', tuple(
            ('seq', tuple(('t', _) for _ in line.split())) for line in ast[2]
        ))
    return ast


def walk(ast):
    yield ast
    if ast[0] in ('seq', 'or', 'seqm'):
        for item in ast[1]:
            for _ in walk(item):
                yield _
    elif ast[0] in ('opt', 'rep', 'named', 'interp', 'rel'):
        for _ in walk(ast[1]):
            yield _


# ------------------------------------------------ reading the text

TERMINALS = {"'%s'" % _: _ for _ in 'abcdn'}
ABBREVIATIONS = ('pipeline', 'caseless_pipeline', 'morph_pipeline')


class Printed(object):
    """The text read as a context-free grammar."""

    def __init__(self, lines, languages=None):
        self.lines = lines
        self.start = None
        self.rules = {}
        self.marks = {}
        self.lists = {}
        for line in lines:
            if not isinstance(line, str) or '\n' in line:
                raise Mismatch('not a line: %r' % (line,))
            parts = line.split(' ')
            if len(parts) < 3 or parts[1] != '->' or '' in parts:
                raise Mismatch('can not read line %r of %r' % (line, lines))
            name = parts[0]
            if name in self.rules or name in self.lists:
                raise Mismatch('%r is defined twice: %r' % (name, lines))
            if self.start is None:
                self.start = name
            if len(parts) == 3 and parts[2] in ABBREVIATIONS:
                self.lists[name] = parts[2]
                continue
            alternatives = []
            marks = []
            for group, items in itertools.groupby(parts[2:], lambda _: _ == '|'):
                if group:
                    if len(list(items)) > 1:
                        raise Mismatch('can not read line %r' % line)
                    continue
                items = list(items)
                if items == ['e']:
                    items = []
                marked = [index for index, _ in enumerate(items) if _.startswith('^')]
                alternatives.append([_.lstrip('^') for _ in items])
                marks.append(marked)
            if len(alternatives) != parts.count('|') + 1:
                raise Mismatch('can not read line %r' % line)
            self.rules[name] = alternatives
            self.marks[name] = marks
        self.check()
        self.languages = languages or {}
        self.text = None

    def check(self):
        used = {self.start}
        queue = [self.start]
        while queue:
            name = queue.pop()
            for items in self.rules.get(name, ()):
                for item in items:
                    if item in TERMINALS:
                        continue
                    if item not in self.rules and item not in self.lists:
                        raise Mismatch('%r is not defined: %r' % (item, self.lines))
                    if item not in used:
                        used.add(item)
                        queue.append(item)
        extra = (set(self.rules) | set(self.lists)) - used
        if extra:
            raise Mismatch('%r are not used: %r' % (sorted(extra), self.lines))

    def read(self, text):
        self.text = text
        self.table = {}
        changed = True
        while changed:
            changed = False
            for name in itertools.chain(self.rules, self.lists):
                for start in range(len(text) + 1):
                    new = self.derive(name, start)
                    if new != self.table.get((name, start), frozenset()):
                        self.table[name, start] = new
                        changed = True

    def derive(self, name, start):
        if name in self.lists:
            return frozenset(
                start + len(line) for line in self.languages[self.lists[name]]
                if self.text.startswith(line, start)
            )
        result = set()
        for items in self.rules[name]:
            ends = {start}
            for item in items:
                if item in TERMINALS:
                    ends = {
                        _ + 1 for _ in ends
                        if self.text[_:_ + 1] == TERMINALS[item]
                    }
                else:
                    ends = {
                        end for _ in ends
                        for end in self.table.get((item, _), ())
                    }
            result |= ends
        return frozenset(result)

    def accepts(self, name, text):
        if self.text != text:
            self.read(text)
        return len(text) in self.table.get((name, 0), ())


def unlabelled(text):
    """Pieces of a label: name and relations."""
    return text.split('^')


# ------------------------------------------------ the check

TOKENIZER = stub.tokenizer({})


def source(item):
    return list(item.normalized.as_bnf.source)


def run_case(texts, relations=True):
    def run(case, counter):
        root, defs = case
        check_grammar(root, defs, texts, counter)
    return run


def check_grammar(root, defs, texts, counter, more=None):
    item = build(root, defs)
    lines = source(item)
    languages = {}
    for ast in itertools.chain(*([walk(root)] + [walk(_) for _, _ in defs])):
        if ast[0] == 'lines':
            languages[ast[1]] = [_.replace(' ', '') for _ in ast[2]]
    printed = Printed(lines, languages)
    grammar = item.normalized.as_bnf
    if list(grammar.source) != lines or list(grammar.source) != lines:
        raise Mismatch('the text changes: %r and %r' % (lines, list(grammar.source)))
    counter.step()
    lines_of = [line.split(' -> ')[0] for line in lines]

    # labels
    expected = labels(root, defs)
    sub = {}
    for ast, visible in expected:
        kind, label = ast[0], ast[2]
        names = [
            _ for _ in lines_of
            if (unlabelled(_)[0] == label if kind != 'rel' else label in unlabelled(_)[1:])
        ]
        if visible and not names:
            raise Mismatch('%s %r does not label a line of %r' % (kind, label, lines))
        if kind == 'interp' and len(names) > 1:
            raise Mismatch('%r labels several lines of %r' % (label, lines))
        if names:
            sub[ast] = names
    if root[0] in ('named', 'interp'):
        expected_start = [
            ast for ast, visible in expected if ast is root and visible
        ]
        if expected_start and unlabelled(printed.start)[0] != root[2]:
            raise Mismatch('root is %r, first line is %r' % (root[2], lines[0]))

    parser = Parser(item, tokenizer=TOKENIZER)
    plains = {ast: plain(ast) for ast in sub}
    plain_defs = tuple((kind, plain(_)) for kind, _ in defs)
    for letters in texts:
        counter.state(root, defs, letters)
        counter.trace()
        match = parser.match(russian(text_of(letters)))
        accepted = printed.accepts(printed.start, letters)
        if (match is not None) != (accepted and letters != ''):
            raise Mismatch('%r is %s by the parser, the text %s it: %r' % (
                letters, 'accepted' if match else 'not accepted',
                'derives' if accepted else 'does not derive', lines
            ))
        for ast, names in sub.items():
            if has_p1(ast, defs):
                continue
            by_model = gram.accepts((plains[ast], plain_defs), letters)
            counter.step()
            if all(printed.accepts(_, letters) != by_model for _ in names):
                raise Mismatch('line %r %s %r, the part with this label %s' % (
                    names, 'does not derive' if by_model else 'derives', letters,
                    'does' if by_model else 'does not'
                ), lines=lines)
        if match:
            check_tree(match.tree, printed)
    after = source(item)
    if after != lines:
        raise Mismatch('the text after parsing is %r, was %r' % (after, lines))
    if more:
        more(item, printed)


def has_p1(ast, defs):
    """Bounds over repeatable are dropped, a recorded finding of C01."""
    from checks.c01 import has_p1 as check
    return check((plain(ast), tuple((kind, plain(_)) for kind, _ in defs)))


def labels(root, defs):
    """(decoration, has to be seen): a fact or attribute takes the place of a
    name given to the same part."""
    def see(item):
        while item[0] == 'ref' and defs[item[1]][0] == 'share':
            item = defs[item[1]][1]
        return item

    result = []
    parents = {}
    everything = [_ for top in [root] + [ast for _, ast in defs] for _ in walk(top)]
    hidden = set()
    for ast in everything:
        if ast[0] in ('named', 'interp', 'rel'):
            # nearest name or interpretation on the same part
            child = see(ast[1])
            while child[0] == 'rel':
                child = see(child[1])
            if child[0] in ('named', 'interp') and ast[0] in ('named', 'interp'):
                if ast[0] != child[0]:
                    hidden.add(ast if ast[0] == 'named' else child)
    seen = set()
    for ast in everything:
        if ast[0] in ('named', 'interp', 'rel') and ast not in seen:
            seen.add(ast)
            result.append((ast, ast not in hidden))
    return result


def check_tree(tree, printed):
    """Every step of the derivation is in the text."""
    for node in tree.walk():
        if not node.children:
            continue
        # relations are part of the label
        name = node.label
        if name in printed.lists:
            continue
        if name not in printed.rules:
            raise Mismatch('tree has %r, it is not in %r' % (name, printed.lines))
        children = []
        for child in node.children:
            if child.children:
                children.append(child.label)
            else:
                children.append("'%s'" % LATIN[child.label])
        for items in printed.rules[name]:
            if fits(children, items, printed):
                break
        else:
            raise Mismatch('tree has %s -> %s, it is not in %r' % (
                name, ' '.join(children), printed.lines
            ))


def fits(children, items, printed):
    """children are items without some that derive the empty text."""
    if len(children) > len(items):
        return False
    index = 0
    for item in items:
        if index < len(children) and children[index] == item:
            index += 1
        elif item in TERMINALS or item in printed.lists or 0 not in printed.table.get(
                (item, 0), printed.derive(item, 0)):
            # greedy is right: equal neighbours are interchangeable
            return False
    return index == len(children)


# ------------------------------------------------ cases

def places(ast):
    """Every way to put a decoration on one part: functions of decoration."""
    def put(item, path, wrap):
        if not path:
            return wrap(item)
        head, rest = path[0], path[1:]
        if item[0] in ('seq', 'or', 'seqm'):
            items = list(item[1])
            items[head] = put(items[head], rest, wrap)
            return (item[0], tuple(items)) + tuple(item[2:])
        return (item[0], put(item[1], rest, wrap)) + tuple(item[2:])

    def paths(item):
        yield ()
        if item[0] in ('seq', 'or', 'seqm'):
            for index, child in enumerate(item[1]):
                for path in paths(child):
                    yield (index,) + path
        elif item[0] in ('opt', 'rep', 'named', 'interp', 'rel'):
            for path in paths(item[1]):
                yield (0,) + path

    for path in paths(ast):
        yield lambda wrap, path=path: put(ast, path, wrap)


DECORATIONS = (
    ('named', 'A'), ('named', 'R0'), ('named', 'R1'), ('interp', 'F.a'),
    ('interp', 'F'), ('rel', 'rel'), ('interp', 'G.a.custom(yes)'),
)
SECOND = (('named', 'Z'), ('interp', 'G'), ('rel', 'other'), ('named', 'R2'))


def wrap(kind, label):
    return lambda item: (kind, item, label)


def small_cases(low, high, two):
    for ast in enum.canonical_asts(low, high):
        yield (ast, ())
        for place in places(ast):
            for decoration in DECORATIONS:
                first = place(wrap(*decoration))
                yield (first, ())
                if two:
                    for other in places(first):
                        for more in SECOND:
                            if more[0] == decoration[0] and more[1] == decoration[1]:
                                continue
                            yield (other(wrap(*more)), ())


CHAIN = (
    ('named', 'A'), ('named', 'R0'), ('interp', 'F.a'), ('interp', 'F'), ('rel', 'rel'),
    ('named', 'R1'),
)
CHAIN_BASES = (
    A, ('seq', (A, B)), ('or', (A, ('seq', (A, B)))), ('rep', A, 0, 0, False),
    ('opt', ('seq', (A, B)), False), ('lines', 'pipeline', ('a', 'a b')),
    ('lines', 'caseless_pipeline', ('a', 'b a')), ('ref', 0),
)
X = ('ref', 1)
CHAIN_CONTEXTS = (
    X, ('seq', (X, C)), ('seq', (X, X)), ('or', (X, ('seq', (X, C)))),
    ('named', ('seq', (X, ('opt', X, False))), 'Top'),
)


def chain_cases(depth):
    base = ('fwd', ('or', (('seq', (A, ('ref', 0))), A)))
    other = ('share', ('seq', (A, B)))
    for size in range(depth + 1):
        for chain in itertools.permutations(CHAIN, size):
            for item in CHAIN_BASES:
                for definition in ((base, other) if item == ('ref', 0) else (other,)):
                    ast = item
                    for kind, label in reversed(chain):
                        ast = (kind, ast, label)
                    for context in CHAIN_CONTEXTS:
                        yield (context, (definition, ('share', ast)))


def shared_cases(full):
    items = list(enum.towers(1, A, enum.UNARY)) + [
        ('seq', (A, B)), ('or', (A, B)), A, ('or', (A, ('seq', (B, A)))),
    ]
    if full:
        items += list(enum.towers(2, A, enum.UNARY))
        items += list(enum.canonical_asts(3, 3))
    for item in items:
        for name, context in enum.contexts(item):
            for decoration in (None,) + DECORATIONS:
                ast = (decoration[0], item, decoration[1]) if decoration else item
                yield (context, (('share', ast),))


def forward_cases(high, alternatives, forwards, decorate):
    for root, defs in enum.cfgs(forwards, high, alternatives):
        grammar = (root, defs)
        if not enum.reachable(grammar) or not productive(grammar):
            continue
        yield grammar
        if decorate:
            for kind, label in DECORATIONS:
                yield (root, tuple(
                    (way, (kind, ast, label)) if not index else (way, ast)
                    for index, (way, ast) in enumerate(defs)
                ))
                yield ((kind, root, label), defs)


def productive(grammar):
    """Unit cycles and endless recursion are read by the parser as any other."""
    return True


def mark_cases(size, full):
    items = (
        A, B, ('opt', A, False), ('named', B, 'N'), ('seq', (A, B)),
        ('rep', A, 0, 0, False), ('or', (A, B)), ('seqm', (A, B), 1),
    )
    for count in range(1, size + 1):
        for chosen in itertools.product(items, repeat=count):
            if chosen.count(items[3]) > 1:
                # one name, two rules
                continue
            for index in range(count):
                ast = ('seqm', chosen, index)
                yield (('named', ast, 'Top'), ())
                if full or count < 3:
                    yield (('seq', (ast,)), ())
                    ref = ('ref', 0)
                    yield (('or', (('named', ref, 'Top'), ('seq', (C, ref)))), (('share', ast),))
                    yield (('interp', ('rel', ast, 'rel'), 'F'), ())
    # one rule at several places of a phrase, one of them is main
    ref = ('ref', 0)
    for item in (A, ('seq', (A, B)), ('opt', A, False), ('named', B, 'N'), ('or', (A, B))):
        for count in range(2, size + 2):
            for places in itertools.product((ref, C), repeat=count):
                if ref not in places:
                    continue
                for index in range(count):
                    yield (('named', ('seqm', places, index), 'Top'), (('share', item),))


def run_marks(texts):
    def run(case, counter):
        root, defs = case

        def check(item, printed):
            if root[0] == 'named' and root[1][0] == 'seqm':
                chosen, index = root[1][1:]
                if len(chosen) > 1:
                    marks = printed.marks[printed.start]
                    expected = [[index] if index else []]
                    if marks != expected:
                        raise Mismatch('main is part %d, the text is %r' % (
                            index, printed.lines
                        ))
        check_grammar(root, defs, texts, counter, check)
    return run


def lines_cases():
    for kind in ABBREVIATIONS:
        for lines in (('a',), ('a', 'b a'), ('a b', 'a', 'n'), ('b', 'a b n')):
            P = ('lines', kind, lines)
            for decoration in (None,) + DECORATIONS:
                ast = (decoration[0], P, decoration[1]) if decoration else P
                for context in (
                        ('ref', 0), ('seq', (('ref', 0), A)), ('seq', (('ref', 0), ('ref', 0))),
                        ('or', (('seq', (('ref', 0), B)), ('ref', 0))),
                        ('rep', ('ref', 0), 0, 0, False), ('opt', ('ref', 0), True),
                        ('rep', ('ref', 0), 2, 3, False),
                        ('named', ('seq', (A, ('ref', 0))), 'Top')):
                    yield (context, (('share', ast),))


# ------------------------------------------------ big grammars

def code(number):
    """The phrase with this number: a, b, aa, ab, ..."""
    letters = []
    number += 1
    while number:
        number, rest = divmod(number - 1, 2)
        letters.insert(0, (A, B)[rest])
    return ('seq', tuple(letters))


def big(kind, count):
    """Grammars with `count` parts."""
    many = tuple(code(_) for _ in range(count))
    if kind == 'or':
        yield (('or', many), ())
    elif kind == 'names':
        yield (('or', tuple(('named', _, 'N%d' % index) for index, _ in enumerate(many))), ())
        yield (('seq', tuple(
            ('opt', ('named', _, 'N%d' % index), False) for index, _ in enumerate(many)
        )), ())
    elif kind == 'R':
        # the name looks like a generated one
        for number in sorted({0, 1, 2, count // 2, count - 1, count, count + 1}):
            for place in sorted({0, count // 2, count - 1}):
                items = list(many)
                items[place] = ('named', items[place], 'R%d' % number)
                yield (('or', tuple(items)), ())
                yield (('named', ('seq', tuple(('opt', _, False) for _ in items)), 'Top'), ())
    elif kind == 'opt':
        yield (('seq', tuple(('opt', _, bool(index % 3)) for index, _ in enumerate(many))), ())
    elif kind == 'rep':
        yield (('seq', tuple(
            ('opt', ('rep', _, 0, index % 5, False), False) for index, _ in enumerate(many)
        )), ())
    elif kind == 'fan':
        for item in (A, ('opt', ('seq', (A, B)), False), ('or', (A, ('seq', (A, B)))),
                     ('named', ('seq', (A, B)), 'N')):
            yield (('or', (('ref', 0), ('seq', (('ref', 0),) * count))), (('share', item),))
            yield (('or', tuple(
                ('seq', (('ref', 0),) + _[1]) for _ in many
            )), (('share', item),))
    elif kind == 'bounds':
        if 1 < count <= 50:
            yield (('rep', A, 0, count, False), ())
            yield (('rep', ('named', ('seq', (A, B)), 'N'), 0, count, True), ())
            yield (('rep', A, count, count, False), ())
    elif kind == 'deep':
        if count <= 60:
            item = named = A
            for number in range(count):
                item = ('seq', ((A, B)[number % 2], ('opt', item, False)))
                named = ('named', ('or', ((A, B)[number % 2], ('seq', (A, named)))), 'N%d' % number)
            yield (item, ())
            yield (named, ())
    elif kind == 'forwards':
        # every one refers to the next one, the last one to the first one
        yield (('ref', 0), tuple(
            ('fwd', ('or', (
                ('seq', ((A, B)[index % 2], ('ref', (index + 1) % count))), (A, B)[index % 2],
            ))) for index in range(count)
        ))
    elif kind == 'shares':
        if count <= 60:
            yield (('seq', (('ref', 0), ('opt', ('ref', count - 1), False))), tuple(
                ('share', ('or', ((A, B)[index % 2], ('seq', (
                    ('ref', index + 1) if index < count - 1 else B, ('opt', A, False)
                ))))) for index in range(count)
            ))
    elif kind == 'lines':
        lines = tuple(' '.join(_[1] for _ in item[1]) for item in many)
        for name in ABBREVIATIONS:
            yield (('seq', (('lines', name, lines), A)), ())
    elif kind == 'marks':
        for place in sorted({0, 1, count // 2, count - 1}):
            if place < count:
                yield (('named', ('seqm', tuple(
                    _ if index == place else ('opt', _, False) for index, _ in enumerate(many)
                ), place), 'Top'), ())


KINDS = ('or', 'names', 'R', 'opt', 'rep', 'fan', 'bounds', 'deep', 'forwards',
         'shares', 'lines', 'marks')


def big_cases(limit, full=10):
    for kind in KINDS:
        for count in enum.sizes(limit, full):
            for case in big(kind, count):
                yield case


BIG_TEXTS = ('a', 'b', 'ab', 'ba', 'aab', 'abab')


# ------------------------------------------------ odd names

MARKS = ('^', '^^', '.', ':', '_', '-', "'", '"', '\\', '(', ')', '{}', '%s', '%', '[0]', '$', 'е', '0', '#', '\t', '->', 'R0', 'e')


def name_cases(size):
    """Names made of odd marks, the same but for one mark, in joined rules."""
    for count in range(1, size + 1):
        for marks in itertools.product(MARKS, repeat=count):
            name = 'X' + 'y'.join(marks)
            for other in (name + '1', name[:-1], name.lower(), name + '^', '^' + name, name + 'rel'):
                if other != name and other not in ('', 'X'):
                    for first in (None, 'rel', 'r^', '^'):
                        for second in (None, 'rel'):
                            if name + '^' + str(first) != other and other + '^' + str(second) != name:
                                yield (name, other, first, second)


def run_name(case, counter):
    name, other, first, second = case

    def part(letter, label, relation):
        item = rule(Letter(letter)).named(label)
        return item.match(Always(relation)) if relation else item

    item = rule(part('a', name, first), part('b', other, second)).named('Top')
    labels = [
        label + ('^' + relation if relation else '')
        for label, relation in ((name, first), (other, second))
    ]
    expected = ['Top -> ' + ' '.join(labels)] + [
        "%s -> '%s'" % (label, letter) for label, letter in zip(labels, 'ab')
    ]
    if len(set(labels)) < 2:
        # not told apart by names
        return
    counter.state(case)
    counter.step()
    counter.trace()
    for bnf in (item.normalized.as_bnf, Parser(item, tokenizer=TOKENIZER).rule.as_bnf):
        lines = list(bnf.source)
        if lines != expected:
            raise Mismatch('printed %r, expected %r' % (lines, expected))


class C21(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        texts = list(enum.words('ab', 0, 4 if deep else 3))
        more = list(enum.words('abc', 0, 3))
        some = list(enum.words('abcd', 0, 2)) + list(enum.words('ab', 3, 4))
        size = 4 if deep else 3
        return [
            Family('small', lambda: small_cases(1, size, False), run_case(texts),
                   'rules of <= %d nodes, one decoration in any place, texts <= %d' % (
                       size, len(texts[-1]))),
            Family('two', lambda: small_cases(1, 3 if deep else 2, True), run_case(texts),
                   'rules of <= %d nodes, two decorations in any places' % (3 if deep else 2)),
            Family('chains', lambda: chain_cases(4 if deep else 2), run_case(more),
                   'chains of <= %d decorations on %d parts in %d contexts' % (
                       4 if deep else 2, len(CHAIN_BASES), len(CHAIN_CONTEXTS))),
            Family('shared', lambda: shared_cases(deep), run_case(some),
                   'a rule used several times in %d contexts' % len(list(enum.contexts(A)))),
            Family('forward', lambda: itertools.chain(
                forward_cases(2, 2, 1, True),
                forward_cases(2 if deep else 1, 2, 2, False)),
                run_case(texts), 'recursive rules, 1-2 forwards'),
            Family('marks', lambda: mark_cases(3, deep), run_marks(texts),
                   'main on every part of phrases of <= 3 of 8 kinds of parts'),
            Family('lines', lines_cases, run_case(list(enum.words('abn', 0, 4 if deep else 3))),
                   'pipelines, shared, decorated'),
            Family('names', lambda: name_cases(2 if deep else 1), run_name,
                   'names of <= %d of %d odd marks, joined or not' % (2 if deep else 1, len(MARKS))),
            Family('big', lambda: big_cases(140 if deep else 34), run_marks(BIG_TEXTS),
                   '%d kinds of grammars of up to %d parts' % (len(KINDS), 140 if deep else 34)),
        ]


CHECK = C21(
    'C21',
    rule='state = (rule, text); transition = one printed text or one reading '
         'of a line; trace = one text given to the parser and to the printed grammar',
    assumptions=['labels of terminals and names have no blanks and no | or ^',
                 'a pipeline is printed as one terminal']
)
