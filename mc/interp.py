"""Reference model of interpretation.

AST:
  ('w', n)                    n-th word
  ('seq', (x, ...))           plain rule
  ('attr', fact, name, x)     x.interpretation(F.name)
  ('norm', fact, name, how, x)  x.interpretation(F.name.normalized()) and so on
  ('only', how, x)            x.interpretation(normalized()), without attribute
  ('fact', fact, x)           x.interpretation(F)

how: tuple of ('normalized',) ('inflected', grams) ('const', value)
('custom', function name), functions chain to the right.

Values of the model:
  ('chain', words, line)                 marked words
  ('made', value, input)                 normalised, input is a value or items
  ('attr', fact, name, value)
  ('fact', fact, {name: value or list}, set names)
"""
from .env import load

load()

from yargy import rule  # noqa
from yargy import interpretation as bank  # noqa
from yargy.interpretation import fact, attribute  # noqa


class Wrong(Exception):
    """TypeError is expected."""


# ---------------------------------------------------------------- facts

SCHEMES = {
    # name -> (attribute, kind, default)
    'F': (('a', 'one', None), ('b', 'one', 'B'), ('c', 'many', None)),
    'G': (('a', 'one', None), ('c', 'many', None), ('x', 'one', 0)),
}


def make_classes(schemes=SCHEMES):
    classes = {}
    for name, items in schemes.items():
        attributes = []
        for key, kind, default in items:
            if kind == 'many':
                attributes.append(attribute(key).repeatable())
            elif default is None:
                attributes.append(key)
            else:
                attributes.append(attribute(key, default))
        classes[name] = fact(name, attributes)
    return classes


# ---------------------------------------------------------------- functions

def upper(value):
    return value.upper()


def double(value):
    return value * 2


def wrapped(value):
    return ('wrapped', value)


def none(value):
    return None


FUNCTIONS = {'upper': upper, 'double': double, 'wrapped': wrapped, 'none': none}


# ---------------------------------------------------------------- to yargy

def add_normalizers(item, how):
    for step in how:
        if step[0] == 'custom':
            item = item.custom(FUNCTIONS[step[1]])
        elif step[0] == 'inflected':
            item = item.inflected(set(step[1]) - {None}) if step[1] else item.inflected()
        elif step[0] == 'const':
            item = item.const(step[1])
        else:
            item = item.normalized()
    return item


class Bank(object):
    """normalized, inflected, const, custom as functions"""
    def normalized(self):
        return bank.normalized()

    def inflected(self, *args):
        return bank.inflected(*args)

    def const(self, value):
        return bank.const(value)

    def custom(self, function):
        return bank.custom(function)


def mark_of(ast, classes):
    kind = ast[0]
    if kind == 'attr':
        return getattr(classes[ast[1]], ast[2])
    if kind == 'norm':
        return add_normalizers(getattr(classes[ast[1]], ast[2]), ast[3])
    if kind == 'only':
        return add_normalizers(Bank(), ast[1])
    return classes[ast[1]]


def build(ast, classes, word, direct=False, wrap=None, memo=None):
    """word(n) -> predicate for the n-th word

    direct: marks of single words go to the predicate
    wrap: put around every part
    memo: equal parts are one shared rule
    """
    if memo is not None and ast in memo:
        return memo[ast]
    kind = ast[0]

    def part(item):
        return build(item, classes, word, direct, wrap, memo)

    if kind == 'w':
        result = rule(word(ast[1] if len(ast) > 1 else None))
    elif kind == 'seq':
        result = rule(*(part(_) for _ in ast[1]))
    elif direct and kind != 'fact' and ast[-1][0] == 'w':
        item = ast[-1]
        result = rule(word(item[1] if len(item) > 1 else None).interpretation(
            mark_of(ast, classes)
        ))
    else:
        result = part(ast[-1]).interpretation(mark_of(ast, classes))
    if wrap:
        result = wrap(result)
    if memo is not None:
        memo[ast] = result
    return result


# ---------------------------------------------------------------- meaning

class Text(object):
    """Words with offsets, readings and a line of a dictionary if any.

    words: list of (value, start, readings), readings are (normal form,
    grams, inflections) or None.
    """

    def __init__(self, words, schemes=SCHEMES, parents={}):
        self.words = words
        self.schemes = schemes
        self.parents = parents

    def inherits(self, name, parent):
        while name is not None:
            if name == parent:
                return True
            name = self.parents.get(name)
        return False

    def span(self, index):
        value, start, _ = self.words[index]
        return (start, start + len(value))

    def join(self, indexes, form):
        parts = []
        last = None
        for index in indexes:
            start, stop = self.span(index)
            if last is not None and start > last:
                parts.append(' ')
            parts.append(form(index))
            last = stop
        return ''.join(parts)

    def plain(self, index):
        return self.words[index][0]

    def normal(self, index):
        value, _, readings = self.words[index]
        return readings[0][0] if readings else value.lower()

    def inflected(self, index, grams):
        value, _, readings = self.words[index]
        if not readings:
            return value.lower()
        inflections = readings[0][2] if len(readings[0]) > 2 else {}
        return inflections.get(frozenset(grams) - {None}, readings[0][0])

    # items: words (numbers) and marked values
    def items(self, ast, line=None):
        kind = ast[0]
        if kind == 'w':
            return [ast[1]]
        if kind == 'seq':
            return [_ for item in ast[1] for _ in self.items(item)]
        inner = self.items(ast[-1])
        if kind == 'attr':
            return [('attr', ast[1], ast[2], self.attribute(inner))]
        if kind == 'norm':
            return [('attr', ast[1], ast[2], self.made(inner, ast[3]))]
        if kind == 'only':
            return [self.made(inner, ast[1])]
        if kind == 'fact':
            return [self.fact(ast[1], inner)]
        raise ValueError(kind)

    def attribute(self, items, line=None):
        if all(isinstance(_, int) for _ in items):
            return ('chain', tuple(items), line)
        if len(items) == 1:
            if items[0][0] == 'attr':
                return items[0][3]
            return items[0]
        raise Wrong

    def made(self, items, how, line=None):
        if all(isinstance(_, int) for _ in items):
            input = ('chain', tuple(items), line)
        elif len(items) == 1:
            input = items[0]
        elif how[0][0] == 'const':
            input = ('items', tuple(items))
        else:
            raise Wrong
        value = self.made_value(input, how)
        return ('made', value, input)

    def made_value(self, input, how):
        first = how[0]
        rest = how[1:]
        if first[0] == 'const':
            value = first[1]
        elif first[0] == 'custom':
            rest = how
            value = self.value(input)
        elif input[0] != 'chain':
            raise Wrong
        elif first[0] == 'normalized':
            value = input[2] or self.join(input[1], self.normal)
        else:
            grams = first[1] or ('nomn', 'sing')
            value = self.join(input[1], lambda _: self.inflected(_, grams))
        for step in rest:
            value = FUNCTIONS[step[1]](value)
        return value

    def fact(self, name, items):
        values = {}
        touched = set()
        many = set()
        for key, kind, default in self.schemes[name]:
            if kind == 'many':
                many.add(key)
                values[key] = []
            else:
                values[key] = default
        for item in items:
            if isinstance(item, int):
                continue
            if item[0] == 'attr' and self.inherits(name, item[1]):
                self.put(values, many, item[2], item[3])
                touched.add(item[2])
            elif item[0] == 'fact' and self.inherits(item[1], name):
                for key in item[3]:
                    if key in many:
                        values[key].extend(item[2][key])
                    else:
                        values[key] = item[2][key]
                    touched.add(key)
        return ('fact', name, values, frozenset(touched))

    def put(self, values, many, key, value):
        if key in many:
            values[key].append(value)
        else:
            values[key] = value

    # what is observed
    def value(self, item):
        kind = item[0]
        if kind == 'chain':
            return self.join(item[1], self.plain)
        if kind == 'made':
            return item[1]
        if kind == 'attr':
            return self.value(item[3])
        return Made(item[1], {
            key: self.observed(item, key, self.value) for key in item[2]
        })

    def observed(self, item, key, function):
        value = item[2][key]
        if isinstance(value, list):
            return [function(_) for _ in value]
        if key in item[3]:
            return function(value)
        return value

    def json(self, item):
        kind = item[0]
        if kind == 'fact':
            result = []
            for key, _, _ in self.schemes[item[1]]:
                value = self.observed(item, key, self.json)
                if value is not None:
                    result.append((key, value))
            return ('json', tuple(result))
        if kind == 'attr':
            return self.json(item[3])
        return self.value(item)

    def spans(self, item):
        if isinstance(item, int):
            return [self.span(item)]
        kind = item[0]
        if kind == 'chain':
            return [(self.span(item[1][0])[0], self.span(item[1][-1])[1])]
        if kind == 'made':
            return self.spans(item[2])
        if kind == 'attr':
            return self.spans(item[3])
        if kind == 'items':
            return [_ for part in item[1] for _ in self.spans(part)]
        result = []
        for key, value in item[2].items():
            if isinstance(value, list):
                for part in value:
                    result.extend(self.spans(part))
            elif key in item[3]:
                result.extend(self.spans(value))
        return sorted(result)


class Made(object):
    """A fact of the model."""

    def __init__(self, name, values):
        self.name = name
        self.values = values

    def __eq__(self, other):
        return (
            isinstance(other, Made)
            and self.name == other.name and self.values == other.values
        )

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '%s(%r)' % (self.name, self.values)

    # functions of the enumeration may get a fact
    def upper(self):
        return ('upper', self)

    def __mul__(self, other):
        return ('times', other, self)


def observe(value, classes):
    """A yargy fact as a value of the model."""
    for name, cls in classes.items():
        if type(value) is cls:
            return Made(name, {
                key: observe(getattr(value, key), classes)
                for key in cls.__attributes__
            })
    if isinstance(value, list):
        return [observe(_, classes) for _ in value]
    if isinstance(value, tuple):
        return tuple(observe(_, classes) for _ in value)
    return value


def observe_json(value):
    if isinstance(value, dict):
        return ('json', tuple(
            (key, observe_json(_)) for key, _ in value.items()
        ))
    if isinstance(value, list):
        return [observe_json(_) for _ in value]
    return value


def facts_in(value, model):
    """Pairs of yargy facts and facts of the model, outer first."""
    yield value, model
    for key, item in model[2].items():
        made = getattr(value, key)
        pairs = zip(made, item) if isinstance(item, list) else (
            [(made, item)] if key in model[3] else []
        )
        for one, inner in pairs:
            while isinstance(inner, tuple) and inner[0] == 'attr':
                inner = inner[3]
            if isinstance(inner, tuple) and inner[0] == 'fact':
                for _ in facts_in(one, inner):
                    yield _


# ---------------------------------------------------------------- enumeration

def asts(size, marks, memo=None, width=2):
    """All ASTs of `size` nodes, words are not numbered."""
    if memo is None:
        memo = {}
    if size not in memo:
        result = []
        if size == 1:
            result.append(('w',))
        else:
            for inner in asts(size - 1, marks, memo, width):
                for mark in marks:
                    result.append(mark + (inner,))
            for left in range(1, size - 1):
                for first in asts(left, marks, memo, width):
                    for second in asts(size - 1 - left, marks, memo, width):
                        result.append(('seq', (first, second)))
        memo[size] = result
    return memo[size]


def number(ast, counter):
    kind = ast[0]
    if kind == 'w':
        counter.append(None)
        return ('w', len(counter) - 1)
    if kind == 'seq':
        return ('seq', tuple(number(_, counter) for _ in ast[1]))
    return ast[:-1] + (number(ast[-1], counter),)


def show(ast):
    kind = ast[0]
    if kind == 'w':
        return 'w' if len(ast) == 1 else 'w%d' % ast[1]
    if kind == 'seq':
        return '(%s)' % ' '.join(show(_) for _ in ast[1])
    if kind == 'attr':
        return '%s.%s(%s)' % (ast[1], ast[2], show(ast[3]))
    if kind == 'norm':
        return '%s.%s.%s(%s)' % (ast[1], ast[2], show_how(ast[3]), show(ast[4]))
    if kind == 'only':
        return '%s(%s)' % (show_how(ast[1]), show(ast[2]))
    return '%s(%s)' % (ast[1], show(ast[2]))


def show_how(how):
    return '.'.join(
        '%s[%s]' % (_[0], ','.join(map(str, _[1:]))) if len(_) > 1 else _[0]
        for _ in how
    )


def prune(ast, present):
    """Numbered AST without absent words, None if nothing is left."""
    kind = ast[0]
    if kind == 'w':
        return ast if ast[1] in present else None
    if kind == 'seq':
        parts = [prune(_, present) for _ in ast[1]]
        parts = tuple(_ for _ in parts if _ is not None)
        return ('seq', parts) if parts else None
    inner = prune(ast[-1], present)
    return None if inner is None else ast[:-1] + (inner,)


def root_value(text, ast):
    """('value', x), ('TypeError',) or ('ValueError',) for match.fact"""
    if ast[0] in ('w', 'seq'):
        return ('ValueError',)
    try:
        item, = text.items(ast)
    except Wrong:
        return ('TypeError',)
    return ('value', text.value(item))


def read(function, classes):
    try:
        return ('value', observe(function(), classes))
    except (TypeError, ValueError) as error:
        return (type(error).__name__,)
