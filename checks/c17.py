"""C17: a fact is assembled from the marked parts in text order."""
import itertools

from mc.core import Check, Family, Mismatch
from mc import enum, interp
from mc.yg import PLAIN, Parser

from yargy import rule, or_, forward
from yargy.interpretation import fact, attribute
from yargy.predicates import eq, in_

WORDS = ['w%s' % _ for _ in 'abcdefghij']
CLASSES = interp.make_classes()

FA = ('attr', 'F', 'a')
FB = ('attr', 'F', 'b')
FC = ('attr', 'F', 'c')
GA = ('attr', 'G', 'a')
GC = ('attr', 'G', 'c')
GX = ('attr', 'G', 'x')
NULLS = [('only', (('const', _),)) for _ in (None, False, '', 0)]
CONST = ('norm', 'F', 'a', (('const', 7),))
CUSTOM = ('norm', 'F', 'b', (('custom', 'wrapped'),))
NORM = ('norm', 'F', 'a', (('normalized',),))
ALONE = ('only', (('const', 'K'),))
UPPER = ('only', (('custom', 'wrapped'),))
F = ('fact', 'F')
G = ('fact', 'G')
MARKS = (FA, FB, FC, GA, GC, CONST, CUSTOM, ALONE, F, G)
FEW = (FA, FC, GA, CONST, F, G)


def plain_text(count, gap=' '):
    words = []
    offset = 0
    for value in WORDS[:count]:
        words.append((value, offset, None))
        offset += len(value) + len(gap)
    return gap.join(WORDS[:count]), interp.Text(words)


def numbered(ast):
    words = []
    return interp.number(ast, words), len(words)


def compare(where, match, expected, classes, counter):
    counter.trace()
    if match is None:
        raise Mismatch('%s: no match' % where)
    for attempt in (1, 2):
        counter.step()
        actual = interp.read(lambda: match.fact, classes)
        if actual != expected:
            raise Mismatch('%s: reading %d of the fact gives %r, expected %r' % (
                where, attempt, actual, expected
            ))


# ------------------------------------------------ all small trees of marks

def tree_cases(size, marks, roots):
    memo = {}
    for count in range(1, size + 1):
        for ast in interp.asts(count, marks, memo):
            for root in roots:
                if root is None:
                    yield ast
                else:
                    yield root + (ast,)


def run_tree(case, counter):
    ast, count = numbered(case)
    string, text = plain_text(count)
    expected = interp.root_value(text, ast)
    counter.state(case)
    for direct in (False, True):
        if direct and ast[0] in ('attr', 'norm', 'only') and ast[-1][0] == 'w':
            # the rule around the predicate is the root
            expected = ('ValueError',)
        parser = Parser(interp.build(
            ast, CLASSES, lambda _: eq(WORDS[_]), direct=direct
        ), tokenizer=PLAIN)
        compare(
            '%s, marks on %s' % (interp.show(ast), 'predicates' if direct else 'rules'),
            parser.match(string), expected, CLASSES, counter
        )


# ------------------------------------------------ wrapping does not matter

def wrap_forward(item):
    result = forward()
    result.define(item)
    return result


def wrap_choice(item):
    return or_(item, rule('zzz'))


WRAPS = {
    'rule': lambda _: rule(_),
    'or': or_,
    'choice': wrap_choice,
    'named': lambda _: _.named('N'),
    'forward': wrap_forward,
    'optional': lambda _: _.optional(reverse=True),
    'repeat': lambda _: _.repeatable(),
    'once': lambda _: _.repeatable(min=1, max=1),
    'twice': lambda _: rule(rule(_)),
}


def wrap_cases(size, marks):
    for ast in tree_cases(size, marks, (F,)):
        for name in sorted(WRAPS):
            yield (name, ast)


def run_wrap(case, counter):
    name, ast = case
    ast, count = numbered(ast)
    string, text = plain_text(count)
    expected = interp.root_value(text, ast)
    counter.state(case)
    # the root itself has to carry the fact
    inner = interp.build(
        ast[-1], CLASSES, lambda _: eq(WORDS[_]), wrap=WRAPS[name]
    )
    parser = Parser(inner.interpretation(CLASSES['F']), tokenizer=PLAIN)
    compare(
        '%s, every part in %s' % (interp.show(ast), name),
        parser.match(string), expected, CLASSES, counter
    )


# ------------------------------------------------ shared parts

def run_shared(case, counter):
    ast, count = numbered(case)
    string, text = plain_text(count)
    expected = interp.root_value(text, ast)
    counter.state(case)
    word = in_(WORDS)
    parser = Parser(
        interp.build(case, CLASSES, lambda _: word, memo={}), tokenizer=PLAIN
    )
    compare(
        '%s, equal parts are one rule' % interp.show(case),
        parser.match(string), expected, CLASSES, counter
    )


# ------------------------------------------------ absent parts

def build_optional(ast, memo):
    kind = ast[0]
    if kind == 'w':
        return rule(eq(WORDS[ast[1]])).optional()
    if kind == 'seq':
        return rule(*(build_optional(_, memo) for _ in ast[1]))
    return build_optional(ast[-1], memo).interpretation(
        interp.mark_of(ast, CLASSES)
    )


def run_optional(case, counter):
    ast, count = numbered(case)
    _, text = plain_text(count)
    parser = Parser(build_optional(ast, {}), tokenizer=PLAIN)
    for size in range(1, count + 1):
        for present in itertools.combinations(range(count), size):
            left = interp.prune(ast, present)
            counter.state(case, present)
            string = ' '.join(WORDS[_] for _ in present)
            compare(
                '%s, every word is optional, text %r' % (interp.show(ast), string),
                parser.match(string), interp.root_value(text, left),
                CLASSES, counter
            )


# ------------------------------------------------ repeated choices

PARTS = (
    ('w',),
    FA + (('w',),),
    FC + (('w',),),
    FB + (GA + (('w',),),),
    FC + (G + (GA + (('w',),),),),
    F + (FC + (('w',),),),
    F + (FA + (('w',),),),
    G + (GC + (('w',),),),
    CONST + (('w',),),
    ('norm', 'F', 'b', (('const', None),), ('w',)),
)


def repeat_cases(letters, high, parts):
    for chosen in itertools.product(range(len(parts)), repeat=letters):
        for style in ('repeat', 'forward', 'left'):
            yield (style, high, tuple(parts[_] for _ in chosen))


def repeated(style, item):
    if style == 'repeat':
        return item.repeatable()
    result = forward()
    if style == 'forward':
        result.define(or_(rule(item, result), item))
    else:
        result.define(or_(rule(result, item), item))
    return result


def relabel(ast, index):
    if ast[0] == 'w':
        return ('w', index)
    return ast[:-1] + (relabel(ast[-1], index),)


def run_repeat(case, counter):
    style, high, parts = case
    item = or_(*(
        rule(interp.build(part, CLASSES, lambda _, word=word: eq(word)))
        for word, part in zip(WORDS, parts)
    ))
    parser = Parser(
        repeated(style, item).interpretation(CLASSES['F']), tokenizer=PLAIN
    )
    for size in range(1, high + 1):
        for letters in itertools.product(range(len(parts)), repeat=size):
            words = []
            offset = 0
            for letter in letters:
                words.append((WORDS[letter], offset, None))
                offset += len(WORDS[letter]) + 1
            text = interp.Text(words)
            ast = F + (('seq', tuple(
                relabel(parts[letter], index)
                for index, letter in enumerate(letters)
            )),)
            string = ' '.join(_[0] for _ in words)
            counter.state(case, letters)
            compare(
                '%s of %s, text %r' % (
                    style, ' | '.join(map(interp.show, parts)), string
                ),
                parser.match(string), interp.root_value(text, ast),
                CLASSES, counter
            )


# ------------------------------------------------ alternatives with marks

def run_choice(case, counter):
    first, second = case
    asts = []
    for ast in case:
        ast, count = numbered(F + (ast,))
        asts.append(ast)
    string, text = plain_text(count)
    rules = [
        interp.build(_, CLASSES, lambda _: eq(WORDS[_])) for _ in asts
    ]
    inner = [
        interp.build(_[-1], CLASSES, lambda _: eq(WORDS[_])) for _ in asts
    ]
    expected = [interp.root_value(text, _) for _ in asts]
    counter.state(case)
    for name, root in (
            ('facts', or_(*rules)),
            ('parts', or_(*inner).interpretation(CLASSES['F']))):
        parser = Parser(root, tokenizer=PLAIN)
        where = 'or_ of %s: %s, %s' % ((name,) + tuple(map(interp.show, asts)))
        if name == 'facts':
            # or_ is the root, it has no interpretation of its own
            if interp.read(lambda: parser.match(string).fact, CLASSES) != ('ValueError',):
                raise Mismatch('%s: root without interpretation has a fact' % where)
            parser = Parser(root.interpretation(CLASSES['F']), tokenizer=PLAIN)
        compare(where, parser.match(string), expected[0], CLASSES, counter)
        found = [
            interp.read(lambda: _.fact, CLASSES)
            for _ in parser.extract(string) if len(_.tokens) == count
        ]
        if sorted(map(repr, found)) != sorted(map(repr, expected)):
            raise Mismatch('%s: facts of all derivations %r, expected %r' % (
                where, found, expected
            ))


def choice_cases(size, marks):
    memo = {}
    groups = {}
    for count in range(1, size + 1):
        for ast in interp.asts(count, marks, memo):
            groups.setdefault(numbered(ast)[1], []).append(ast)
    for group in groups.values():
        for pair in itertools.permutations(group, 2):
            # or_ of a fact with something inside it, merging is the same
            if pair[0] != pair[1]:
                yield pair


# ------------------------------------------------ attributes and defaults

KINDS = {
    'none': lambda key: key,
    'scheme': lambda key: attribute(key),
    'one': lambda key: attribute(key, 1),
    'zero': lambda key: attribute(key, 0),
    'text': lambda key: attribute(key, default=''),
    'no': lambda key: attribute(key, default=False),
    'many': lambda key: attribute(key).repeatable(),
}
DEFAULTS = {
    'none': None, 'scheme': None, 'one': 1, 'zero': 0, 'text': '', 'no': False
}


def default_cases(count):
    keys = 'pqr'[:count]
    for kinds in itertools.product(sorted(KINDS), repeat=count):
        for size in range(count + 2):
            for marks in itertools.product(keys + '-', repeat=size):
                if marks and size <= 3:
                    yield (kinds, ''.join(marks))


def run_default(case, counter):
    kinds, marks = case
    keys = 'pqr'[:len(kinds)]
    cls = fact('T', [KINDS[kind](key) for key, kind in zip(keys, kinds)])
    expected = {
        key: [] if kind == 'many' else DEFAULTS[kind]
        for key, kind in zip(keys, kinds)
    }
    parts = []
    for word, mark in zip(WORDS, marks):
        part = rule(word)
        if mark != '-':
            part = part.interpretation(getattr(cls, mark))
            if isinstance(expected[mark], list):
                expected[mark].append(word)
            else:
                expected[mark] = word
        parts.append(part)
    parser = Parser(rule(*parts).interpretation(cls), tokenizer=PLAIN)
    string = ' '.join(WORDS[:len(marks)])
    where = 'fact %r, marks %r' % (kinds, marks)
    counter.state(case)
    for attempt in (1, 2):
        counter.step()
        counter.trace()
        match = parser.match(string)
        made = match.fact
        if type(made) is not cls:
            raise Mismatch('%s: fact is %r' % (where, type(made)))
        for key in keys:
            value = getattr(made, key)
            if value != expected[key] or type(value) is not type(expected[key]):
                raise Mismatch('%s: parse %d, %s is %r, expected %r' % (
                    where, attempt, key, value, expected[key]
                ))
        # lists belong to one fact
        for key in keys:
            if isinstance(expected[key], list):
                getattr(made, key).append('spoiled')
    plain = cls()
    for key, kind in zip(keys, kinds):
        if getattr(plain, key) != ([] if kind == 'many' else DEFAULTS[kind]):
            raise Mismatch('%s: empty fact has %s = %r' % (
                where, key, getattr(plain, key)
            ))


# ------------------------------------------------ classes derived from facts

PARENTS = {'Q': 'P', 'R': 'Q', 'S': 'P'}
SCHEME = (('a', 'one', None), ('b', 'one', 'B'), ('c', 'many', None))
FAMILY_SCHEMES = {_: SCHEME for _ in ('P', 'Q', 'R', 'S', 'Z')}


def family_classes():
    P = fact('P', ['a', attribute('b', 'B'), attribute('c').repeatable()])
    Z = fact('Z', ['a', attribute('b', 'B'), attribute('c').repeatable()])

    class Q(P):
        @property
        def both(self):
            return (self.a, self.b)

    class R(Q):
        pass

    class S(P):
        pass

    return dict(P=P, Q=Q, R=R, S=S, Z=Z)


FAMILY = family_classes()
FAMILY_MARKS = (
    ('attr', 'P', 'a'), ('attr', 'P', 'c'), ('attr', 'Z', 'a'),
    ('fact', 'P'), ('fact', 'Q'), ('fact', 'R'), ('fact', 'S'), ('fact', 'Z'),
)


def inherit_cases(size):
    return tree_cases(size, FAMILY_MARKS, [('fact', _) for _ in 'PQRS'])


def run_inherit(case, counter):
    ast, count = numbered(case)
    string, text = plain_text(count)
    text = interp.Text(text.words, FAMILY_SCHEMES, PARENTS)
    expected = interp.root_value(text, ast)
    counter.state(case)
    parser = Parser(
        interp.build(ast, FAMILY, lambda _: eq(WORDS[_])), tokenizer=PLAIN
    )
    compare(
        '%s, Q(P), R(Q), S(P)' % interp.show(ast),
        parser.match(string), expected, FAMILY, counter
    )
    made = parser.match(string)
    if expected[0] == 'value' and ast[1] == 'Q':
        if made.fact.both != (made.fact.a, made.fact.b):
            raise Mismatch('%s: method of the derived class' % interp.show(ast))


# ------------------------------------------------ inside a text

def run_inside(case, counter):
    """Several matches of one rule in one text do not share anything."""
    ast, count = numbered(F + (case,))
    string, text = plain_text(count)
    expected = interp.root_value(text, ast)
    counter.state(case)
    parser = Parser(
        interp.build(ast, CLASSES, lambda _: eq(WORDS[_])), tokenizer=PLAIN
    )
    long = ', '.join(['zz ' + string] * 3)
    where = '%s three times in a text' % interp.show(ast)
    matches = list(parser.findall(long))
    if len(matches) != 3:
        raise Mismatch('%s: %d matches' % (where, len(matches)))
    for order in ((0, 1, 2), (2, 1, 0)):
        for index in order:
            compare(where, matches[index], expected, CLASSES, counter)


# ------------------------------------------------ lists of merged facts

def group_cases(count, high):
    """Groups of values, each in a fact (of facts) of some class or not."""
    kinds = (None, (F,), (F, F), (G,), (F, G), (FC, F))
    parts = [
        (kind, size) for kind in kinds for size in range(1, high + 1)
    ]
    for number in range(1, count + 1):
        for chosen in itertools.product(parts, repeat=number):
            if sum(_[1] for _ in chosen) <= len(WORDS):
                for mixed in (False, True) + tuple(range(2, 2 + len(NULLS))):
                    yield (mixed, chosen)


def run_group(case, counter):
    mixed, chosen = case
    parts = []
    for kind, size in chosen:
        marks = [
            (GC if kind and kind[-1] == G else FC) if mixed is not True or _ != 1 else (GA if kind and kind[-1] == G else FA)
            for _ in range(size)
        ]
        word = ('w',)
        if mixed > 1:
            # values that are nothing are values
            word = NULLS[mixed - 2] + (word,)
        items = tuple(
            _ + (word if index == size - 1 else ('w',),) for index, _ in enumerate(marks)
        )
        if kind is None:
            parts.extend(items)
            continue
        part = ('seq', items) if size > 1 else items[0]
        for mark in reversed(kind):
            part = mark + (part,)
        parts.append(part)
    ast, count = numbered(F + (('seq', tuple(parts)) if len(parts) > 1 else parts[0],))
    string, text = plain_text(count)
    expected = interp.root_value(text, ast)
    counter.state(case)
    parser = Parser(
        interp.build(ast, CLASSES, lambda _: eq(WORDS[_])), tokenizer=PLAIN
    )
    compare(interp.show(ast), parser.match(string), expected, CLASSES, counter)


# ------------------------------------------------ many parts

def size_cases(limit):
    for size in enum.sizes(limit):
        for shape in ('list', 'last', 'both', 'nested', 'marks', 'attributes', 'merged', 'chain'):
            yield (size, shape)


def run_size(case, counter):
    """Many values, deep nesting, many attributes."""
    size, shape = case
    text = 'ab'
    word = rule(in_({'ab', 'cd'}))
    H = fact('H', ['x', attribute('y', 'default'), attribute('all').repeatable()])
    words = [('ab', 'cd')[_ % 2] for _ in range(size)]
    expected = {'x': None, 'y': 'default', 'all': []}
    root = H
    if shape == 'list':
        item, text = word.interpretation(H.all).repeatable(), ' '.join(words)
        expected['all'] = words
    elif shape == 'last':
        item, text = word.interpretation(H.y).repeatable(), ' '.join(words)
        expected['y'] = words[-1]
    elif shape == 'both':
        item = or_(rule('ab').interpretation(H.x), rule('cd').interpretation(H.all)).repeatable()
        text = ' '.join(words)
        expected['x'] = 'ab'
        expected['all'] = [_ for _ in words if _ == 'cd']
    elif shape == 'nested':
        # rules without marks between the fact and its part
        item = word.interpretation(H.x)
        for index in range(min(size, 50)):
            item = rule(item).named('N%d' % index)
        expected['x'] = 'ab'
    elif shape == 'marks':
        # only the outer one of many marks counts
        item = word
        for index in range(min(size, 50)):
            item = item.interpretation(H.all if index % 2 else H.x)
        item = item.interpretation(H.y)
        expected['y'] = 'ab'
    elif shape == 'attributes':
        keys = ['k%d' % _ for _ in range(size)]
        root = fact('K', [attribute(_, index) for index, _ in enumerate(keys)])
        item = rule(*(
            rule('ab').interpretation(getattr(root, _)) for _ in keys[::7]
        ))
        text = ' '.join(['ab'] * len(keys[::7]))
        expected = {_: index if index % 7 else 'ab' for index, _ in enumerate(keys)}
    elif shape == 'merged':
        # facts inside facts of the same class
        text = ' '.join(words)
        item = or_(rule('ab').interpretation(H.all), rule('cd').interpretation(H.x))
        for index in range(min(size, 40)):
            item = item.interpretation(H)
        item = item.repeatable()
        expected['all'] = [_ for _ in words if _ == 'ab']
        expected['x'] = 'cd' if size > 1 else None
    else:
        # a chain of facts, each is the value of the outer one
        item = word.interpretation(H.x).interpretation(H)
        for index in range(min(size, 40)):
            item = item.interpretation(H.x).interpretation(H)
        match = Parser(item, tokenizer=PLAIN).match('ab')
        counter.state(case)
        counter.step()
        counter.trace()
        made, depth = match.fact, 0
        while isinstance(made, H):
            made, depth = made.x, depth + 1
        if (made, depth) != ('ab', min(size, 40) + 1):
            raise Mismatch('a chain of %d facts has depth %d, ends with %r' % (size, depth, made))
        return
    match = Parser(item.interpretation(root), tokenizer=PLAIN).match(text)
    counter.state(case)
    counter.step()
    counter.trace()
    if match is None:
        raise Mismatch('%s of %d: no match' % (shape, size))
    made = match.fact
    actual = {_: getattr(made, _) for _ in expected}
    if actual != expected:
        raise Mismatch('%s of %d: fact is %s, expected %s' % (
            shape, size, str(actual)[:300], str(expected)[:300]
        ))


def families(tier):
    deep = tier == 'thorough'
    size = 6 if deep else 5
    yield Family(
        'trees', lambda: tree_cases(size, MARKS, (None, F)), run_tree,
        'all trees of %d marks, up to %d nodes, with and without a fact around, marks on rules and on predicates' % (len(MARKS), size)
    )
    small = 7 if deep else 5
    yield Family(
        'deep', lambda: tree_cases(small, FEW, (F,)), run_tree,
        'all trees of %d marks up to %d nodes' % (len(FEW), small)
    )
    yield Family(
        'wrap', lambda: wrap_cases(5 if deep else 4, FEW), run_wrap,
        'trees up to %d nodes, every part in one of %d wrappers' % (5 if deep else 4, len(WRAPS))
    )
    yield Family(
        'shared', lambda: tree_cases(small, FEW, (F,)), run_shared,
        'trees up to %d nodes, equal parts are one object' % small
    )
    yield Family(
        'optional', lambda: tree_cases(small, (FA, FC, GA, F), (F,)), run_optional,
        'trees up to %d nodes of optional words, all subsets of present words' % small
    )
    yield Family(
        'repeat', lambda: itertools.chain(
            repeat_cases(2, 4, PARTS),
            repeat_cases(3, 4 if deep else 3, PARTS if deep else PARTS[1:6])
        ), run_repeat,
        'two or three differently marked letters repeated in three ways, all texts up to 4 (3)'
    )
    yield Family(
        'choice', lambda: choice_cases(4 if deep else 3, FEW), run_choice,
        'all pairs of trees up to %d nodes over the same words' % (4 if deep else 3)
    )
    yield Family(
        'defaults', lambda: default_cases(3 if deep else 2), run_default,
        'facts of %d attributes of 7 kinds, all sequences of up to 3 marks' % (3 if deep else 2)
    )
    yield Family(
        'inherit', lambda: inherit_cases(6 if deep else 4), run_inherit,
        'trees up to %d nodes over a hierarchy of four classes' % (6 if deep else 4)
    )
    yield Family(
        'groups', lambda: group_cases(3, 3 if deep else 2), run_group,
        'up to 3 groups of up to %d values, each alone or in one of 5 facts, merged' % (3 if deep else 2)
    )
    yield Family(
        'size', lambda: size_cases(500 if deep else 130), run_size,
        'up to %d values, attributes and words, up to 50 marks around a word' % (500 if deep else 130)
    )
    yield Family(
        'inside', lambda: tree_cases(5 if deep else 4, MARKS, (None,)), run_inside,
        'trees up to %d nodes three times in one text' % (5 if deep else 4)
    )


class C17(Check):
    def families(self, tier):
        return list(families(tier))


CHECK = C17(
    'C17',
    rule='state = (tree of marks, present words); transition = one reading of '
         'a fact; trace = one fact compared with the model',
    assumptions=['facts are derived without new attributes']
)
