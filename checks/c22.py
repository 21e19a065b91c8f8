"""C22: drawings of rules and trees are complete and well-formed."""
import functools
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, gram, stub
from mc.yg import Parser, describe, text_of

from yargy import rule, or_, and_, not_, forward
from yargy.interpretation import fact
from yargy.pipelines import pipeline
from yargy.predicates import Predicate, eq, caseless, custom, gte, in_, is_lower, is_upper, length_eq, type as type_, true
from yargy.tokenizer import Tokenizer

from checks import c21
from checks.c21 import build, russian, LATIN, RELATIONS, walk, plain, places, wrap

A, B, C = enum.A, enum.B, enum.C


# ------------------------------------------------ reading DOT

class Dot(object):
    """The part of the DOT language that is needed; anything else is an error."""

    def __init__(self, source):
        self.source = source
        self.tokens = list(self.split(source))
        self.position = 0
        self.nodes = {}
        self.order = []
        self.edges = []
        self.expect('digraph')
        if self.peek() != '{':
            self.id()
        self.expect('{')
        while self.peek() != '}':
            self.statement()
        self.expect('}')
        if self.position != len(self.tokens):
            self.error('text after the graph')
        for first, second, _ in self.edges:
            if first not in self.nodes or second not in self.nodes:
                self.error('edge %s -> %s of unknown nodes' % (first, second))

    def error(self, message):
        raise Mismatch('%s, DOT is %r' % (message, self.source[-700:]))

    def split(self, source):
        index = 0
        while index < len(source):
            char = source[index]
            if char.isspace():
                index += 1
            elif source.startswith('->', index):
                yield '->'
                index += 2
            elif char in '{}[];,=':
                yield char
                index += 1
            elif char == '"':
                index += 1
                value = []
                while True:
                    if index >= len(source):
                        self.error('string is not closed')
                    char = source[index]
                    if char == '"':
                        break
                    if char == '\\':
                        value.append(source[index:index + 2])
                        index += 2
                    else:
                        if char == '\n':
                            self.error('line break in a string')
                        value.append(char)
                        index += 1
                index += 1
                yield ('string', self.unescape(value))
            elif char.isalnum() and ord(char) < 128 or char in '_-.':
                start = index
                while index < len(source) and (
                        source[index].isalnum() and ord(source[index]) < 128
                        or source[index] in '_-.'):
                    index += 1
                yield ('id', source[start:index])
            else:
                self.error('unexpected %r' % char)

    def unescape(self, parts):
        table = {'\\\\': '\\', '\\"': '"', '\\n': '\n', '\\r': '\r'}
        result = []
        for part in parts:
            if part.startswith('\\'):
                if part not in table:
                    self.error('escape %r' % part)
                part = table[part]
            result.append(part)
        return ''.join(result)

    def peek(self):
        if self.position >= len(self.tokens):
            self.error('graph is not closed')
        return self.tokens[self.position]

    def next(self):
        token = self.peek()
        self.position += 1
        return token

    def expect(self, value):
        token = self.next()
        if token != value and token != ('id', value):
            self.error('%r instead of %r' % (token, value))

    def id(self):
        token = self.next()
        if not isinstance(token, tuple):
            self.error('%r is not a name' % token)
        return token[1]

    def attributes(self):
        result = {}
        while self.position < len(self.tokens) and self.peek() == '[':
            self.next()
            while self.peek() != ']':
                key = self.id()
                self.expect('=')
                value = self.id()
                if key in result:
                    self.error('%r is given twice' % key)
                result[key] = value
                if self.peek() in (',', ';'):
                    self.next()
            self.next()
        return result

    def statement(self):
        if self.peek() == ';':
            self.next()
            return
        name = self.id()
        if name in ('graph', 'node', 'edge'):
            self.attributes()
            return
        if self.peek() == '->':
            self.next()
            other = self.id()
            self.edges.append((name, other, self.attributes()))
            return
        attributes = self.attributes()
        if name in self.nodes:
            self.error('node %s is drawn twice' % name)
        self.nodes[name] = attributes
        self.order.append(name)


def dashed(attributes):
    return 'dashed' in attributes.get('style', '')


class Drawing(object):
    def __init__(self, graph):
        lines = list(graph.source)
        again = list(graph.source)
        if again != lines:
            raise Mismatch('the second text is %r, the first %r' % (again, lines))
        self.dot = Dot('\n'.join(lines))
        self.children = {_: [] for _ in self.dot.order}
        self.styles = {_: [] for _ in self.dot.order}
        self.joined = []
        incoming = set()
        for first, second, attributes in self.dot.edges:
            if dashed(attributes):
                self.joined.append((first, second, attributes))
            else:
                self.children[first].append(second)
                self.styles[first].append(attributes)
                incoming.add(second)
        if not self.dot.order:
            raise Mismatch('nothing is drawn')
        for name, attributes in self.dot.nodes.items():
            if 'label' not in attributes:
                raise Mismatch('node %s has no label: %r' % (name, lines))
        roots = [_ for _ in self.dot.order if _ not in incoming]
        self.root = roots[0] if roots else self.dot.order[0]
        if len(roots) > 1:
            raise Mismatch('several roots: %r' % lines)

    def label(self, name):
        return self.dot.nodes[name]['label']

    def numbers(self, root=None):
        """Nodes in the order of a walk from the root."""
        numbers = {}
        queue = [self.root if root is None else root]
        while queue:
            name = queue.pop(0)
            if name in numbers:
                continue
            numbers[name] = len(numbers)
            queue.extend(self.children[name])
        return numbers

    def shape(self):
        numbers = self.numbers()
        if len(numbers) != len(self.dot.order):
            raise Mismatch('parts are drawn apart: %r' % self.dot.source[-700:])
        return [
            (self.label(name), [numbers[_] for _ in self.children[name]])
            for name in numbers
        ]


# ------------------------------------------------ what has to be drawn

def constructs(root, defs):
    """(label, children) of every construct, numbered as in Drawing.shape."""
    nodes = []
    refs = {}

    def add(label, children=()):
        nodes.append((label, list(children)))
        return len(nodes) - 1

    def term(ast):
        return add("'%s'" % ast[1])

    def phrase(items):
        return add('Rule', [add('Production', items)])

    def make(ast):
        kind = ast[0]
        if kind == 't':
            return phrase([term(ast)])
        if kind in ('seq', 'seqm'):
            return phrase([
                term(_) if _[0] == 't' else make(_) for _ in ast[1]
            ])
        if kind == 'or':
            return add('Or', [make(_) for _ in ast[1]])
        if kind == 'opt':
            return add('Optional', [make(ast[1])])
        if kind == 'rep':
            low, high = ast[2], ast[3]
            if low and high:
                label = 'MinMaxBounded [%d, %d]' % (low, high)
            elif low:
                label = 'MinBounded >=%d' % low
            elif high:
                label = 'MaxBounded <=%d' % high
            else:
                label = 'Repeatable'
            return add(label, [make(ast[1])])
        if kind in ('named', 'interp', 'rel'):
            return add(ast[2], [make(ast[1])])
        if kind == 'lines':
            return add('[%s]' % ast[1])
        if kind == 'empty':
            return add('Empty')
        if kind == 'ref':
            index = ast[1]
            if index not in refs:
                if defs[index][0] == 'fwd':
                    refs[index] = add('Forward')
                    nodes[refs[index]][1].append(make(defs[index][1]))
                else:
                    refs[index] = make(defs[index][1])
            return refs[index]
        raise ValueError(kind)

    start = make(root)
    numbers = {}
    queue = [start]
    while queue:
        item = queue.pop(0)
        if item in numbers:
            continue
        numbers[item] = len(numbers)
        queue.extend(nodes[item][1])
    return [
        (nodes[item][0], [numbers[_] for _ in nodes[item][1]])
        for item in numbers
    ]


def marked(root):
    return root[2] if root[0] == 'seqm' else None


class Read(object):
    """A drawing read as a grammar."""

    def __init__(self, drawing, lists):
        self.drawing = drawing
        self.lists = lists

    def table(self, text):
        drawing = self.drawing
        table = {}
        changed = True
        while changed:
            changed = False
            for name in drawing.dot.order:
                for start in range(len(text) + 1):
                    new = self.derive(name, start, table, text)
                    if new != table.get((name, start)):
                        table[name, start] = new
                        changed = True
        return table

    def derive(self, name, start, table, text):
        label = self.drawing.label(name)
        children = self.drawing.children[name]

        def follow(child, starts):
            return {end for _ in starts for end in table.get((child, _), ())}

        if label in c21.TERMINALS and not children:
            ends = {start + 1} if text[start:start + 1] == c21.TERMINALS[label] else set()
        elif label in self.lists:
            ends = {
                start + len(_) for _ in self.lists[label] if text.startswith(_, start)
            }
        elif label in ('Production', 'EmptyProduction', 'Empty', 'PipelineProduction'):
            ends = {start}
            for child in children:
                ends = follow(child, ends)
        elif label == 'Optional':
            ends = {start} | follow(children[0], {start})
        elif label == 'Repeatable' or 'Bounded' in label:
            low, high = 1, None
            if label.startswith('MinBounded'):
                low = int(label.split('>=')[1])
            elif label.startswith('MaxBounded'):
                high = int(label.split('<=')[1])
            elif label.startswith('MinMax'):
                low, high = map(int, label.split('[')[1].rstrip(']').split(','))
            ends, step = set(), {start}
            count = 0
            while step and (high is None or count < high) and count < low + len(text) + 1:
                step = follow(children[0], step)
                count += 1
                if count >= low:
                    ends |= step
        else:
            ends = set()
            for child in children:
                ends |= follow(child, {start})
        return frozenset(ends)

    def accepts(self, text):
        return len(text) in self.table(text).get((self.drawing.root, 0), ())


def run_rule(texts):
    def run(case, counter):
        root, defs = case
        item = build(root, defs)
        before = c21.source(item)
        drawing = Drawing(item.as_dot)
        counter.step()
        counter.state(root, defs)
        shape = drawing.shape()
        expected = constructs(root, defs)
        if shape != expected:
            raise Mismatch('drawing is %r, the rule is %r' % (shape, expected))
        if drawing.joined:
            raise Mismatch('dashed edges in a rule')
        check_main(root, drawing)
        again = Drawing(item.as_dot).shape()
        if again != shape:
            raise Mismatch('second drawing is %r, the first is %r' % (again, shape))

        lists = {}
        for ast in itertools.chain(*([walk(root)] + [walk(_) for _, _ in defs])):
            if ast[0] == 'lines':
                lists['[%s]' % ast[1]] = [_.replace(' ', '') for _ in ast[2]]
        parser = Parser(item, tokenizer=TOKENIZER)
        normalized = item.normalized
        drawings = [normalized.as_dot]
        if not lists:
            drawings.append(normalized.as_bnf.start.as_dot)
        drawings = [drawing] + [Drawing(_) for _ in drawings]
        for other in drawings[1:]:
            other.shape()
            if other.joined:
                raise Mismatch('dashed edges in a rule')
        exact = not c21.has_p1(root, defs) and not any(
            c21.has_p1(_, defs) for _ in walk(root))
        for letters in texts:
            match = parser.match(russian(text_of(letters)))
            counter.trace()
            for number, other in enumerate(drawings):
                if not number and not exact:
                    continue
                accepted = bool(letters) and Read(other, lists).accepts(letters)
                counter.step()
                if accepted != (match is not None):
                    raise Mismatch('%r is %s by the parser, drawing %d %s it' % (
                        letters, 'accepted' if match else 'not accepted', number,
                        'derives' if accepted else 'does not derive'
                    ), dot=other.dot.source[-700:])
        if c21.source(item) != before:
            raise Mismatch('drawing changes the rule: %r, was %r' % (
                c21.source(item), before
            ))
    return run


def check_main(root, drawing):
    while root[0] in ('named', 'interp', 'rel'):
        root = root[1]
    if root[0] != 'seqm':
        return
    name = drawing.root
    while drawing.label(name) != 'Production':
        name = drawing.children[name][0]
    styles = [tuple(sorted(_.items())) for _ in drawing.styles[name]]
    for index, styling in enumerate(styles):
        special = styling != ()
        if special != (index == root[2] and index > 0):
            raise Mismatch('main is part %d, edges are %r' % (root[2], styles))


# ------------------------------------------------ trees

TOKENIZER = c21.TOKENIZER


def tree_shape(tree):
    """By the public walk over the tree."""
    items = list(tree.walk())
    numbers = {}
    queue = [items[0]]
    order = []
    while queue:
        item = queue.pop(0)
        numbers[id(item)] = len(numbers)
        order.append(item)
        queue.extend(item.children)
    if len(order) != len(items):
        raise Mismatch('parts of the tree are shared')
    return [
        (item.label, [numbers[id(_)] for _ in item.children]) for item in order
    ], order


def related(names):
    """Relations of a node by its label."""
    return names.split('^')[1:]


def check_tree(match, letters, counter, root_label=None):
    before = (describe(match), [(_.label, len(_.children)) for _ in match.tree.walk()])
    drawing = Drawing(match.tree.as_dot)
    counter.step()
    shape = drawing.shape()
    expected, order = tree_shape(match.tree)
    if shape != expected:
        raise Mismatch('drawing of the tree is %r, the tree is %r' % (shape, expected))
    leafs = [label for label, children in shape if not children]
    if sorted(leafs) != sorted(_.value for _ in match.tokens):
        raise Mismatch('leafs are %r, the text is %r' % (leafs, letters))
    numbers = drawing.numbers()
    # parts by the relation
    groups = {}
    for number, (label, children) in enumerate(shape):
        if children:
            for name in related(label):
                groups.setdefault(name, []).append(number)
    expected = sorted(
        (name, pair) for name, items in groups.items()
        for pair in itertools.combinations(items, 2)
        if not nested(shape, *pair)
    )
    actual = sorted(
        (attributes.get('label'), tuple(sorted((numbers[first], numbers[second]))))
        for first, second, attributes in drawing.joined
    )
    extra = [_ for _ in actual if nested(shape, *_[1])]
    actual = [_ for _ in actual if _ not in extra]
    if actual != expected or len(set(extra)) < len(extra):
        raise Mismatch('joined parts are %r, expected %r in %r' % (
            actual, expected, shape
        ))
    for _, _, attributes in drawing.joined:
        if attributes.get('dir') != 'none':
            raise Mismatch('arrow on a relation')
    after = (describe(match), [(_.label, len(_.children)) for _ in match.tree.walk()])
    if before != after:
        raise Mismatch('drawing changes the match: %r, was %r' % (after, before))


def nested(shape, first, second):
    """One is inside the other: whether they are joined is up to the relation."""
    def inside(top):
        result = set()
        queue = [top]
        while queue:
            item = queue.pop()
            if item not in result:
                result.add(item)
                queue.extend(shape[item][1])
        return result
    return second in inside(first) or first in inside(second)


def run_trees(texts):
    def run(case, counter):
        root, defs = case[:2]
        item = build(root, defs)
        parser = Parser(item, tokenizer=TOKENIZER)
        other = Parser(item, tokenizer=TOKENIZER)
        for letters in case[2:] or texts:
            text = russian(text_of(letters))
            for match in (list(parser.extract(text)) if len(case) < 3 else []) + [parser.match(text)]:
                if match is None:
                    continue
                counter.state(case, letters)
                counter.trace()
                check_tree(match, letters, counter)
                str(read_fact(match))
                check_tree(match, letters, counter)
    return run


def read_fact(match):
    try:
        return match.fact
    except (TypeError, ValueError):
        # no fact for this rule
        return None


# ------------------------------------------------ odd characters

ODD = ('"', '\\', 'n', '\n', '\r', '{', ']', ';', '<', '>', '%', '=', 'я', ' ', '\t', 'N')


class Label(Predicate):
    __attributes__ = ['text']

    def __init__(self, text):
        self.text = text

    def __call__(self, token):
        return True

    @property
    def label(self):
        return self.text


def odd_cases(size):
    for count in (16, 32, 64, 100, 128, 256, 1000, 5000):
        for part in ('a', 'слово ', '"', '\\', '\n', 'a"', '<b>', '{|}'):
            yield part * count + 'z'
    for count in range(size + 1):
        for text in itertools.product(ODD, repeat=count):
            yield ''.join(text)


def char_cases(high):
    for start in range(1, high, 16):
        for code in range(start, min(start + 16, high)):
            if not 0xD800 <= code < 0xE000:
                yield 'a' + chr(code) + 'b'


def run_odd(text, counter):
    counter.state(text)
    relation = c21.Always(text)
    item = rule(
        rule(Label(text)).match(relation).named(text),
        rule(eq(text).optional(), true()).match(relation)
    ).named(text + 'x')
    drawing = Drawing(item.as_dot)
    labels = sorted(drawing.label(_) for _ in drawing.dot.order)
    expected = sorted(
        [text, text, text, text, text + 'x', eq(text).label, true().label, 'Optional']
        + ['Rule', 'Production'] * 4
    )
    if labels != expected:
        raise Mismatch('labels are %r, expected %r' % (labels, expected))
    if not text:
        # no name is generated for an empty one only before normalization
        return
    for other in (item.normalized.as_dot, item.normalized.as_bnf.start.as_dot):
        drawing = Drawing(other)
        labels = [drawing.label(_) for _ in drawing.dot.order]
        for label in (text, text + 'x', eq(text).label):
            if label not in labels and label + '^' + text not in labels:
                raise Mismatch('%r is not in %r' % (label, labels))
    counter.step()
    if not text.strip():
        return
    tokenizer = OneToken(text)
    match = Parser(item, tokenizer=tokenizer).match(text)
    if match is None:
        raise Mismatch('no match of %r' % text)
    counter.trace()
    drawing = Drawing(match.tree.as_dot)
    labels = [drawing.label(_) for _ in drawing.dot.order if not drawing.children[_]]
    if labels != [text, 'слово']:
        raise Mismatch('leafs are %r, expected %r' % (labels, [text, 'слово']))
    joined = [attributes.get('label') for _, _, attributes in drawing.joined]
    if joined != [text]:
        raise Mismatch('relations are %r, expected %r' % (joined, [text]))


class OneToken(Tokenizer):
    """Gives words with any characters."""

    def __init__(self, text):
        self.text = text
        self.morph = TOKENIZER.morph

    def check_type(self, type):
        pass

    def split(self, text):
        return [text]

    def __call__(self, text):
        from yargy.token import MorphToken
        from yargy.span import Span
        forms = self.morph('слово')
        yield MorphToken(self.text, Span(0, len(self.text)), 'RU', forms)
        yield MorphToken('слово', Span(50, 55), 'RU', forms)


# ------------------------------------------------ callables of any kind

def nothing(value):
    return value


class Callable(object):
    def __call__(self, value):
        return True


CALLABLES = {
    'function': nothing,
    'lambda': lambda value: value,
    'class': str,
    'bound': 'x'.__eq__,
    'partial': functools.partial(nothing),
    'object': Callable(),
}

F = fact('F', ['a'])


def callable_cases():
    for name in sorted(CALLABLES):
        for place in ('predicate', 'not', 'and', 'attribute', 'twice', 'normal form', 'inflected'):
            yield (name, place)


def run_callable(case, counter):
    name, place = case
    function = CALLABLES[name]
    counter.state(case)
    if place == 'predicate':
        item = rule(custom(function))
    elif place == 'not':
        item = rule(not_(custom(function)), true().optional())
    elif place == 'and':
        item = or_(rule(and_(custom(function), true())), rule(or_(custom(function, types='INT'), eq('x'))))
    else:
        value = {
            'attribute': lambda: F.a.custom(function),
            'twice': lambda: F.a.custom(function).custom(function),
            'normal form': lambda: F.a.normalized().custom(function),
            'inflected': lambda: F.a.inflected({'nomn'}).custom(function),
        }[place]()
        item = rule(true()).interpretation(value).interpretation(F)
    list(item.normalized.as_bnf.source)
    for graph in (item.as_dot, item.normalized.as_dot, item.normalized.as_bnf.start.as_dot):
        Drawing(graph).shape()
        counter.step()
    parser = Parser(item, tokenizer=TOKENIZER)
    # the rule of a parser is printed and drawn as well
    list(parser.rule.as_bnf.source)
    Drawing(parser.rule.as_dot).shape()
    counter.step()
    match = parser.match('слово')
    counter.trace()
    if match:
        Drawing(match.tree.as_dot).shape()


# ------------------------------------------------ compositions of predicates

PARTICLES = {
    'a': lambda: eq('a'),
    'a2': lambda: eq('a'),
    'true': lambda: true(),
    'lower': lambda: is_lower(),
    'gte': lambda: gte(1),
    'upper': lambda: is_upper(),
    'caseless': lambda: caseless('Б'),
    'length': lambda: length_eq(3),
}


def compositions(size):
    """Words of terms and of compositions of two terms, every number of them."""
    names = sorted(PARTICLES)
    inner = [('not', (_,)) for _ in names[:3]] + [
        (kind, pair) for kind in ('and', 'or') for pair in itertools.product(names[:3], repeat=2)
    ]
    for kind in ('and', 'or'):
        for count in range(1, size + 1):
            for items in itertools.product(names, repeat=count):
                yield (kind, items)
        for count in (1, 2):
            for items in itertools.product(inner + names[:3], repeat=count):
                yield (kind, items)
    for item in inner:
        yield ('not', (item,))
        yield ('not', (('not', (item,)),))
    for count in enum.sizes(40):
        yield ('or', tuple(names[_ % 3] for _ in range(count)))
        yield ('and', tuple(names[_ % 2] for _ in range(count)))


def made_composition(item):
    """The predicate and its label as it is written down."""
    if isinstance(item, str):
        predicate = PARTICLES[item]()
        return predicate, predicate.label
    kind, items = item
    parts = [made_composition(_) for _ in items]
    predicates = [predicate for predicate, _ in parts]
    label = '%s_(%s)' % (kind, ', '.join(label for _, label in parts))
    return {'not': not_, 'and': and_, 'or': or_}[kind](*predicates), label


def run_composition(case, counter):
    counter.state(case)
    predicate, label = made_composition(case)
    if predicate.label != label:
        raise Mismatch('label is %r, expected %r' % (predicate.label, label))
    item = rule(predicate).named('N')
    for drawn in (item, item.normalized, item.normalized.as_bnf.start,
                  Parser(item, tokenizer=TOKENIZER).rule):
        drawing = Drawing(drawn.as_dot)
        labels = [drawing.label(_) for _ in drawing.dot.order if not drawing.children[_]]
        if labels != [label]:
            raise Mismatch('drawn leafs are %r, expected %r' % (labels, [label]))
        counter.step()
    lines = list(item.normalized.as_bnf.source)
    if lines != ['N -> ' + label]:
        raise Mismatch('printed as %r, expected %r' % (lines, 'N -> ' + label))
    counter.trace()


# ------------------------------------------------ cases

REL = (
    ('rel', 'rel'), ('rel', 'other'), ('named', 'A'), ('interp', 'F.a'), ('interp', 'F'),
)


def relation_cases(size, full):
    """Relations on any parts of phrases."""
    parts = (A, ('rel', A, 'rel'), ('rel', B, 'rel'), ('rel', B, 'other'),
             ('rel', ('seq', (A, B)), 'rel'), ('rep', ('rel', A, 'rel'), 0, 0, False),
             ('rel', ('rel', A, 'rel'), 'other'), ('opt', ('rel', B, 'other'), False))
    for count in range(1, size + 1):
        for chosen in itertools.product(parts, repeat=count):
            yield (('seq', chosen), ())
            if full or count < 3:
                yield (('rel', ('seq', chosen), 'other'), ())
                yield (('interp', ('rel', ('seq', chosen), 'rel'), 'F'), ())


def big_tree_cases(limit):
    for count in enum.sizes(limit, 10):
        for item in (A, ('rel', A, 'rel'), ('rel', ('seq', (A, B)), 'rel'),
                     ('rel', ('named', ('rel', A, 'rel'), 'N'), 'other')):
            text = ('ab' if item[1][0] == 'seq' else 'a') * count
            yield (('seq', (item,) * count), (), text)
            yield (('named', ('rep', item, 0, 0, False), 'Top'), (), text)
            yield (('seq', (('ref', 0),) * count), (('share', item),), text)
        deep = ('rel', A, 'rel')
        for number in range(min(count, 60)):
            deep = ('seq', (A, deep)) if number % 2 else ('named', ('seq', (deep, A)), 'N%d' % number)
        yield (deep, (), 'a' * (min(count, 60) + 1))


SMALL = ['a', 'b', 'aa', 'ab', 'ac', 'aab', 'abc', 'aba']
SHARED = ['a', 'aa', 'ab', 'aab', 'abab', 'acc', 'ad', 'abad', 'aaca']


class C22(Check):
    def families(self, tier):
        deep = tier == 'thorough'
        texts = list(enum.words('ab', 1, 3 if deep else 2))
        more = list(enum.words('abc', 1, 2)) + (list(enum.words('ab', 3, 3)) if deep else [])
        size = 4 if deep else 3
        return [
            Family('rules', lambda: itertools.chain(
                c21.small_cases(1, size, False), c21.small_cases(1, 3 if deep else 1, True)),
                run_rule(texts), 'rules of <= %d nodes with decorations in any place' % size),
            Family('shared', lambda: itertools.chain(
                c21.shared_cases(False), c21.chain_cases(3 if deep else 1)), run_rule(more),
                'rules used several times'),
            Family('forward', lambda: itertools.chain(
                c21.forward_cases(2, 2, 1, deep), c21.forward_cases(2 if deep else 1, 2, 2, False)),
                run_rule(list(enum.words('ab', 1, 2))), 'recursive rules, 1-2 forwards'),
            Family('marks', lambda: c21.mark_cases(3 if deep else 2, True), run_rule(texts),
                   'main on every part of phrases of <= %d parts' % (3 if deep else 2)),
            Family('lines', c21.lines_cases, run_rule(list(enum.words('abn', 1, 2))),
                   'pipelines, shared, decorated'),
            Family('trees', lambda: itertools.chain(
                c21.small_cases(1, size, False), c21.chain_cases(3 if deep else 1)),
                run_trees(list(enum.words('abc', 1, 3)) if deep else SMALL),
                'trees of all matches'),
            Family('shared trees', lambda: c21.shared_cases(False),
                   run_trees(SHARED + (list(enum.words('abcd', 2, 3)) if deep else [])),
                   'trees of rules used several times'),
            Family('relations', lambda: relation_cases(3 if deep else 2, deep),
                   run_trees(list(enum.words('ab', 1, 5 if deep else 4))),
                   'relations on any parts of phrases of <= %d of 8 parts' % (3 if deep else 2)),
            Family('odd', lambda: odd_cases(4 if deep else 2), run_odd,
                   'texts of <= %d of %d odd characters as every label' % (4 if deep else 2, len(ODD))),
            Family('chars', lambda: char_cases(0x3000 if deep else 0x250), run_odd,
                   'every character'),
            Family('big', lambda: c21.big_cases(140 if deep else 21), run_rule(c21.BIG_TEXTS[:4]),
                   '%d kinds of rules of up to %d parts' % (len(c21.KINDS), 140 if deep else 21)),
            Family('big trees', lambda: big_tree_cases(70 if deep else 21), run_trees(()),
                   'matches of up to %d words, %d parts joined' % ((70 if deep else 21,) * 2)),
            Family('compositions', lambda: compositions(4 if deep else 3), run_composition,
                   'and, or, not of <= %d of %d terms and of one another' % (4 if deep else 3, len(PARTICLES))),
            Family('callables', callable_cases, run_callable, 'functions of any kind'),
        ]


CHECK = C22(
    'C22',
    rule='state = rule, match or label; transition = one drawing parsed; trace '
         '= one text given to the parser and to the drawing, or one tree',
    assumptions=['strings of DOT are read as in its language, html entities '
                 'in labels are not decoded']
)
