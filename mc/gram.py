"""Reference model of grammars.

AST:
  ('t', letter)
  ('seq', (x, ...))               rule(x, ...)
  ('or', (x, ...))                or_(x, ...)
  ('opt', x, reverse)             x.optional(reverse)
  ('rep', x, min, max, reverse)   x.repeatable(min, max, reverse), 0 = not given
  ('named', x, name)
  ('empty',)
  ('ref', n)                      n-th definition

A grammar is (root, defs), defs is a tuple of (kind, ast); kind is 'share'
(one Rule object used in several places) or 'fwd' (forward()).

The model knows nothing about normalization, BNF and charts: the language is
the least fixpoint of the compositional reading of the AST.
"""
from .env import load

load()

from yargy import rule, or_, empty, forward  # noqa
from yargy.predicates import Predicate  # noqa


# ---------------------------------------------------------------- terms

class Term(Predicate):
    """Terminal that knows its own number."""
    __attributes__ = ['uid', 'letter']

    def __init__(self, uid, letter):
        self.uid = uid
        self.letter = letter

    def __call__(self, token):
        return token.value == self.letter

    @property
    def label(self):
        return "'%s'" % self.letter


def number(ast, counter):
    """Give every terminal occurrence a number: ('t', letter, uid)."""
    kind = ast[0]
    if kind == 't':
        uid = counter[0]
        counter[0] += 1
        return ('t', ast[1], uid)
    if kind in ('seq', 'or'):
        return (kind, tuple(number(_, counter) for _ in ast[1]))
    if kind in ('opt', 'rep', 'named'):
        return (kind, number(ast[1], counter)) + tuple(ast[2:])
    return ast


def number_grammar(grammar):
    root, defs = grammar
    counter = [0]
    defs = tuple((kind, number(_, counter)) for kind, _ in defs)
    return number(root, counter), defs


# ---------------------------------------------------------------- to yargy

def build(grammar):
    """Numbered grammar -> yargy Rule. Fresh objects every time."""
    root, defs = grammar
    built = {}
    forwards = {
        index: forward()
        for index, (kind, _) in enumerate(defs)
        if kind == 'fwd'
    }

    def ref(index):
        if index in forwards:
            return forwards[index]
        if index not in built:
            built[index] = make(defs[index][1])
        return built[index]

    def make(ast):
        kind = ast[0]
        if kind == 't':
            return rule(Term(ast[2], ast[1]))
        if kind == 'seq':
            return rule(*(
                Term(_[2], _[1]) if _[0] == 't' else make(_)
                for _ in ast[1]
            ))
        if kind == 'or':
            return or_(*(make(_) for _ in ast[1]))
        if kind == 'opt':
            return make(ast[1]).optional(reverse=ast[2])
        if kind == 'rep':
            return make(ast[1]).repeatable(
                min=ast[2] or None, max=ast[3] or None, reverse=ast[4]
            )
        if kind == 'named':
            return make(ast[1]).named(ast[2])
        if kind == 'empty':
            return empty()
        if kind == 'ref':
            return ref(ast[1])
        raise ValueError(kind)

    for index, item in forwards.items():
        item.define(make(defs[index][1]))
    return make(root)


# ---------------------------------------------------------------- language

class Language(object):
    """Ends of derivations by the compositional reading of the AST."""

    def __init__(self, grammar, text):
        self.root, self.defs = grammar
        self.text = text
        self.table = {}
        self.changed = True
        while self.changed:
            self.changed = False
            self.seen = set()
            for index in range(len(self.defs)):
                for start in range(len(text) + 1):
                    self.ref(index, start)

    def ref(self, index, start):
        key = (index, start)
        if key not in self.seen:
            self.seen.add(key)
            ends = self.ends(self.defs[index][1], start)
            old = self.table.get(key, frozenset())
            new = old | ends
            if new != old:
                self.table[key] = new
                self.changed = True
        return self.table.get(key, frozenset())

    def ends(self, ast, start):
        kind = ast[0]
        if kind == 't':
            if start < len(self.text) and self.text[start] == ast[1]:
                return frozenset([start + 1])
            return frozenset()
        if kind == 'seq':
            ends = frozenset([start])
            for item in ast[1]:
                ends = self.step(item, ends)
            return ends
        if kind == 'or':
            return frozenset().union(*(
                self.ends(_, start) for _ in ast[1]
            ))
        if kind == 'opt':
            return self.ends(ast[1], start) | {start}
        if kind == 'rep':
            item, low, high = ast[1], ast[2] or 1, ast[3]
            ends = frozenset([start])
            for _ in range(low):
                ends = self.step(item, ends)
            result = ends
            count = low
            while ends and (not high or count < high):
                ends = self.step(item, ends)
                if not high and ends <= result:
                    break
                result |= ends
                count += 1
            return result
        if kind == 'named':
            return self.ends(ast[1], start)
        if kind == 'empty':
            return frozenset([start])
        if kind == 'ref':
            return self.ref(ast[1], start)
        raise ValueError(kind)

    def step(self, item, starts):
        return frozenset().union(*(self.ends(item, _) for _ in starts))

    def accepts(self):
        return len(self.text) in self.ends(self.root, 0)

    def spans(self):
        """All non empty ranges the rule derives."""
        return {
            (start, stop)
            for start in range(len(self.text))
            for stop in self.ends(self.root, start)
            if stop > start
        }


def accepts(grammar, text):
    return Language(grammar, text).accepts()


def spans(grammar, text):
    return Language(grammar, text).spans()


# ------------------------------------------------- documented squashing

EXTENDED = ('opt', 'rep', 'ro')


def squash(ast, refs=None):
    """How nested optional and repeatable parts are read (tests/test_rule.py):

    any mix of optional and repeatable is one optional repetition
    ('ro', x, reverse_repeatable, reverse_optional): e | x R | x
    """
    kind = ast[0]

    def see(item):
        # shared parts are transparent, forwards are not
        while item[0] == 'ref' and refs and refs[item[1]][0] == 'share':
            item = refs[item[1]][1]
        return item

    if kind in ('seq', 'or'):
        return (kind, tuple(squash(_, refs) for _ in ast[1]))
    if kind == 'named':
        return (kind, squash(ast[1], refs), ast[2])
    if kind == 'opt':
        child, reverse = see(ast[1]), ast[2]
        if is_plain_rep(child):
            return squash(('ro', child[1], child[4], reverse), refs)
        if child[0] == 'ro':
            return squash(('ro', child[1], child[2], reverse), refs)
        if child[0] == 'opt':
            return squash(('opt', child[1], reverse), refs)
        return ('opt', squash(ast[1], refs), reverse)
    if kind == 'ro':
        child = see(ast[1])
        if child[0] == 'rep' and (child[2] or 1) > 1:
            return ('opt', squash(('rep', child, 0, 0, ast[2]), refs), ast[3])
        if child[0] in EXTENDED:
            return squash(('ro', child[1], ast[2], ast[3]), refs)
        return ('ro', squash(ast[1], refs), ast[2], ast[3])
    if is_plain_rep(ast):
        child, reverse = see(ast[1]), ast[4]
        if child[0] == 'opt':
            return squash(('ro', child[1], reverse, child[2]), refs)
        if child[0] == 'ro':
            return squash(('ro', child[1], reverse, child[3]), refs)
        if child[0] == 'rep':
            low = child[2] or 1
            if low > 1 and child[3]:
                return ('rep', squash(ast[1], refs), 0, 0, reverse)
            if low > 1:
                return squash(('rep', child[1], low, 0, reverse), refs)
            return squash(('rep', child[1], 0, 0, reverse), refs)
        return ('rep', squash(ast[1], refs), 0, 0, reverse)
    if kind == 'rep':
        child = see(ast[1])
        if is_plain_rep(child):
            return squash(('rep', child[1], 0, 0, child[4]), refs)
        if child[0] == 'ro':
            return squash(child, refs)
        if child[0] == 'opt':
            low = 1 if ast[2] else 0
            return squash((
                'opt', ('rep', child[1], low, ast[3], ast[4]), child[2]
            ), refs)
        return ('rep', squash(ast[1], refs)) + ast[2:]
    return ast


def is_plain_rep(ast):
    return ast[0] == 'rep' and not ast[2] and not ast[3]


def squash_grammar(grammar):
    root, defs = grammar
    return (
        squash(root, defs),
        tuple((kind, squash(_, defs)) for kind, _ in defs)
    )


def language_of(ast):
    """Rewrite 'ro' so that Language understands it."""
    kind = ast[0]
    if kind in ('seq', 'or'):
        return (kind, tuple(language_of(_) for _ in ast[1]))
    if kind == 'ro':
        return ('opt', ('rep', language_of(ast[1]), 0, 0, False), False)
    if kind in ('opt', 'rep', 'named'):
        return (kind, language_of(ast[1])) + tuple(ast[2:])
    return ast


# ---------------------------------------------------------------- trees

class CFG(object):
    """Plain productions of a grammar, in order of preference.

    symbol -> list of productions, production -> list of terms,
    term -> ('t', letter, uid) or symbol number
    """

    def __init__(self, grammar):
        self.root_ast, self.defs = squash_grammar(grammar)
        self.productions = []
        self.refs = {}
        self.root = self.symbol(self.root_ast)

    def new(self):
        self.productions.append([])
        return len(self.productions) - 1

    def symbol(self, ast):
        kind = ast[0]
        if kind == 'ref':
            index = ast[1]
            if index not in self.refs:
                symbol = self.refs[index] = self.new()
                self.productions[symbol] = [[self.symbol(self.defs[index][1])]]
            return self.refs[index]
        if kind == 'named':
            return self.symbol(ast[1])
        symbol = self.new()
        self.productions[symbol] = self.expand(ast, symbol)
        return symbol

    def term(self, ast):
        return ast if ast[0] == 't' else self.symbol(ast)

    def expand(self, ast, symbol):
        kind = ast[0]
        if kind == 't':
            return [[ast]]
        if kind == 'seq':
            return [[self.term(_) for _ in ast[1]]]
        if kind == 'or':
            return [[self.term(_)] for _ in ast[1]]
        if kind == 'empty':
            return [[]]
        item = self.term(ast[1])
        if kind == 'opt':
            return flip([[], [item]], ast[2])
        if kind == 'ro':
            more = flip([[item, symbol], [item]], ast[2])
            return more + [[]] if ast[3] else [[]] + more
        if kind == 'rep':
            low, high, reverse = ast[2] or 1, ast[3], ast[4]
            if high:
                tail = self.bound(item, high - low + 1, reverse)
            else:
                tail = self.new()
                self.productions[tail] = flip([[item, tail], [item]], reverse)
            return [[item] * (low - 1) + [tail]]
        raise ValueError(kind)

    def cyclic(self):
        """Can some symbol derive itself over the same tokens?"""
        nullable = set()
        changed = True
        while changed:
            changed = False
            for symbol, productions in enumerate(self.productions):
                if symbol not in nullable and any(
                        all(_ in nullable for _ in terms)
                        for terms in productions):
                    nullable.add(symbol)
                    changed = True
        edges = {}
        for symbol, productions in enumerate(self.productions):
            edges[symbol] = {
                term
                for terms in productions
                for index, term in enumerate(terms)
                if not isinstance(term, tuple) and all(
                    _ in nullable
                    for other, _ in enumerate(terms) if other != index
                )
            }
        for symbol in edges:
            seen = set()
            queue = list(edges[symbol])
            while queue:
                item = queue.pop()
                if item == symbol:
                    return True
                if item not in seen:
                    seen.add(item)
                    queue.extend(edges[item])
        return False

    def bound(self, item, count, reverse):
        if count == 1:
            return item
        rest = self.bound(item, count - 1, reverse)
        symbol = self.new()
        self.productions[symbol] = flip([[item, rest], [item]], reverse)
        return symbol


def flip(items, reverse):
    return items[::-1] if reverse else items


class TooMany(Exception):
    pass


class Trees(object):
    """All trees without a symbol nested in itself over the same range.

    A tree is (ranks in preorder, numbers of the terminals in text order).
    Trees over the same range compare by ranks.
    """

    def __init__(self, cfg, text, limit=4000):
        self.cfg = cfg
        self.text = text
        self.limit = limit
        self.memo = {}
        self.possible = self.reach()

    def reach(self):
        # which ranges a symbol derives at all, prunes the search
        table = {}
        size = len(self.text)
        changed = True
        while changed:
            changed = False
            for symbol, productions in enumerate(self.cfg.productions):
                for start in range(size + 1):
                    for terms in productions:
                        ends = {start}
                        for term in terms:
                            if isinstance(term, tuple):
                                ends = {
                                    _ + 1 for _ in ends
                                    if _ < size and self.text[_] == term[1]
                                }
                            else:
                                ends = set().union(*(
                                    table.get((term, _), ()) for _ in ends
                                ))
                        old = table.setdefault((symbol, start), set())
                        if not ends <= old:
                            old |= ends
                            changed = True
        return table

    def of(self, symbol, start, stop, above=frozenset()):
        if symbol in above:
            return ()
        if stop not in self.possible.get((symbol, start), ()):
            return ()
        key = (symbol, start, stop, above)
        if key not in self.memo:
            result = []
            for rank, terms in enumerate(self.cfg.productions[symbol]):
                for ranks, leafs in self.sequence(
                        terms, 0, start, stop, (start, stop),
                        above | {symbol}):
                    result.append(((rank,) + ranks, leafs))
                    if len(result) > self.limit:
                        raise TooMany
            self.memo[key] = tuple(result)
        return self.memo[key]

    def sequence(self, terms, position, start, stop, whole, above):
        if position == len(terms):
            return [((), ())] if start == stop else []
        term = terms[position]
        result = []
        if isinstance(term, tuple):
            if start < stop and self.text[start] == term[1]:
                for ranks, leafs in self.sequence(
                        terms, position + 1, start + 1, stop, whole, above):
                    result.append((ranks, (term[2],) + leafs))
            return result
        for middle in sorted(self.possible.get((term, start), ())):
            if middle > stop:
                continue
            rest = self.sequence(
                terms, position + 1, middle, stop, whole, above
            )
            if not rest:
                continue
            inner = above if (start, middle) == whole else frozenset()
            for ranks, leafs in self.of(term, start, middle, inner):
                for other_ranks, other_leafs in rest:
                    result.append((ranks + other_ranks, leafs + other_leafs))
                    if len(result) > self.limit:
                        raise TooMany
        return result

    def all(self):
        """(start, stop) -> trees in order of preference"""
        size = len(self.text)
        result = {}
        for start in range(size):
            for stop in range(start + 1, size + 1):
                trees = self.of(self.cfg.root, start, stop)
                if trees:
                    result[start, stop] = sorted(trees)
        return result


# ---------------------------------------------------------------- walking

def walk(ast):
    yield ast
    if ast[0] in ('seq', 'or'):
        for item in ast[1]:
            for _ in walk(item):
                yield _
    elif ast[0] in ('opt', 'rep', 'named', 'ro'):
        for _ in walk(ast[1]):
            yield _


def show(ast):
    kind = ast[0]
    if kind == 't':
        return ast[1]
    if kind == 'seq':
        return '(%s)' % ' '.join(show(_) for _ in ast[1])
    if kind == 'or':
        return '[%s]' % '|'.join(show(_) for _ in ast[1])
    if kind == 'opt':
        return show(ast[1]) + ('?r' if ast[2] else '?')
    if kind == 'rep':
        return '%s{%s,%s}%s' % (
            show(ast[1]), ast[2] or '', ast[3] or '', 'r' if ast[4] else ''
        )
    if kind == 'named':
        return '%s:%s' % (ast[2], show(ast[1]))
    if kind == 'empty':
        return 'e'
    return '$%d' % ast[1]


def show_grammar(grammar):
    root, defs = grammar
    return show(root) + ''.join(
        '; $%d(%s)=%s' % (index, kind, show(ast))
        for index, (kind, ast) in enumerate(defs)
    )
