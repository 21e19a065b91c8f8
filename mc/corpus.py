"""Results of a fixed set of rules and texts, as text.

Run as a program it prints one line for each part: name and digest, to be
compared between processes.
"""
import hashlib
import os
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc.env import load  # noqa

load()

from mc import enum, gram  # noqa
from mc.yg import PLAIN, Parser, describe, text_of  # noqa


def show(node):
    leafs = [
        (_.token.value, tuple(_.token.span)) if hasattr(_, 'token') else _.label
        for _ in node.walk()
    ]
    return leafs


def small_grammars(size, high):
    texts = [text_of(_) for _ in enum.words('ab', 1, high)]
    for ast in enum.canonical_asts(1, size):
        item = gram.number_grammar((ast, ()))
        parser = Parser(gram.build(item), tokenizer=PLAIN)
        for text in texts:
            match = parser.match(text)
            found = list(parser.extract(text))
            if match is None and not found:
                continue
            yield (
                gram.show(ast), text, describe(match),
                [(describe(_), show(_.tree)) for _ in found],
                [describe(_) for _ in parser.findall(text)]
            )


def recipes():
    from checks import c05
    for name in sorted(c05.RECIPES):
        for index in range(3):
            for context in sorted(c05.CONTEXTS):
                yield (name, index, context, c05.read(lambda: c05.behaviour(
                    c05.build(c05.RECIPES[name]()[index], context)
                )))


REAL_TEXTS = (
    'саша рябова и мария ивановна пошли в новые красивые дома',
    'Александра Пушкина видели, как стали большой стеклянной стекла',
    'новая школа, новым школам, новое окно; три белых коня',
    'его замок белый замок белой стены мой большой дом дома',
    'сто двадцать пять рублей 12 р. Петров-Водкин',
)


def real():
    """The real dictionary, cached and not."""
    from yargy import rule, or_
    from yargy.interpretation import fact, attribute
    from yargy.morph import MorphAnalyzer
    from yargy.pipelines import morph_pipeline
    from yargy.predicates import gram as g, normalized, dictionary
    from yargy.relations import gnc_relation, gender_relation
    from yargy.tokenizer import MorphTokenizer

    F = fact('F', ['adj', 'noun', attribute('all').repeatable()])
    gnc = gnc_relation()
    gender = gender_relation()
    rules = {
        'phrase': rule(
            g('ADJF').interpretation(F.adj.inflected({'nomn', 'sing'})).repeatable().match(gnc),
            g('NOUN').interpretation(F.noun.normalized()).match(gnc)
        ).interpretation(F),
        'name': rule(
            g('Name').interpretation(F.adj.normalized()).match(gender),
            or_(g('Surn'), g('Patr')).interpretation(F.noun.inflected()).match(gender)
        ).interpretation(F),
        'lines': morph_pipeline([
            'новая школа', 'дом', 'белый замок', 'стекло', 'стекла', 'стать', 'сталь', 'большой'
        ]).interpretation(F.noun.normalized()).interpretation(F),
        'words': or_(
            rule(dictionary({'дом', 'конь', 'стекло', 'стечь', 'замок'})),
            rule(normalized('стать')), rule(normalized('сталь'))
        ).interpretation(F.noun.normalized()).interpretation(F),
    }
    for cached in (False, True):
        tokenizer = MorphTokenizer() if cached else MorphTokenizer(morph=MorphAnalyzer())
        for name in sorted(rules):
            parser = Parser(rules[name], tokenizer=tokenizer)
            for text in REAL_TEXTS:
                yield (name, text, [
                    (describe(_), repr(_.fact), repr(_.fact.as_json))
                    for _ in parser.extract(text)
                ])


def wide():
    """Large sets: normal forms, dictionaries, grammemes, kinds of tokens."""
    from mc import stub
    from yargy import rule, or_, not_
    from yargy.interpretation import fact, attribute
    from yargy.pipelines import morph_pipeline, caseless_pipeline
    from yargy.predicates import (
        gram as g, normalized, dictionary, in_, in_caseless, true
    )
    from yargy.relations import gender_relation

    letters = 'абвгдежзиклмнопрстуф'
    many = [('н' + _, ('G' + _, 'masc') if index % 2 else ('G' + _, 'femn')) for index, _ in enumerate(letters)]
    readings = {'много': many}
    for letter, reading in zip(letters, many):
        readings[letter] = [reading]
        readings['н' + letter] = [reading]
    F = fact('F', ['a', attribute('b').repeatable()])
    gender = gender_relation()
    rules = {
        'lines': lambda: morph_pipeline(['много', 'много а', 'а много', 'б']).interpretation(F.a.normalized()).interpretation(F),
        'lines of words': lambda: morph_pipeline(letters).interpretation(F.a.normalized()).interpretation(F),
        'normalized': lambda: rule(normalized('много')).interpretation(F.a.normalized()).interpretation(F),
        'dictionary': lambda: rule(dictionary(set(letters))).interpretation(F.a).interpretation(F),
        'in': lambda: rule(in_(set(letters))).interpretation(F.a).interpretation(F),
        'caseless': lambda: rule(in_caseless(set(letters.upper()))).interpretation(F.a).interpretation(F),
        'not in': lambda: rule(not_(in_(set(letters)))).interpretation(F.a).interpretation(F),
        'caseless lines': lambda: caseless_pipeline(letters.upper()).interpretation(F.a.normalized()).interpretation(F),
        'agreed': lambda: rule(
            true().match(gender).interpretation(F.a.normalized()),
            true().match(gender).interpretation(F.b)
        ).interpretation(F),
        'grams': lambda: or_(*(
            rule(g(_)).interpretation(F.a.normalized()) for _ in ('masc', 'femn', 'masc')
        )).interpretation(F),
        'inflected': lambda: rule(
            true().interpretation(F.a.inflected({'femn', 'nomn', 'gent', 'datv', 'sing'}))
        ).interpretation(F),
    }
    texts = ['много', 'много а', 'а много', 'много б'] + list(letters) + ['н' + _ for _ in letters]
    for cached in (False, True):
        tokenizer = stub.tokenizer(readings, cached=cached)
        for name in sorted(rules):
            parser = Parser(rules[name](), tokenizer=tokenizer)
            for text in texts:
                found = list(parser.extract(text))
                yield (name, text, [
                    (describe(_), repr(_.fact), [str(form) for token in _.tokens for form in getattr(token, 'forms', ())])
                    for _ in found
                ])


def parts(size=4, high=3):
    return {
        'grammars': lambda: small_grammars(size, high),
        'recipes': recipes,
        'real': real,
        'wide': wide,
    }


def main():
    import gc
    import json
    options = json.loads(sys.argv[1]) if len(sys.argv) > 1 else {}
    if 'gc' in options:
        if options['gc']:
            gc.set_threshold(options['gc'])
        else:
            gc.disable()
    junk = []
    for size in range(options.get('junk', 0)):
        junk.append([bytes(16 * (number % 30)) for number in range(size % 97)])
        if size % 3 == 0 and junk:
            junk.pop(size % len(junk))
    out = {}
    for name, items in parts(options.get('size', 4), options.get('high', 3)).items():
        out[name] = [
            hashlib.blake2b(repr(_).encode('utf8'), digest_size=6).hexdigest()
            for _ in items()
        ]
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
