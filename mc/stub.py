"""A morphological dictionary small enough to enumerate.

Stands in for pymorphy2: parse(word), TagClass.grammeme_is_known(gram) and
records with word, normal_form, tag.grammemes and inflect(grams).
"""
from .env import load

load()

from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer  # noqa
from yargy.tokenizer import MorphTokenizer, RULES  # noqa

GRAMS = {
    'NOUN', 'VERB', 'ADJF', 'PREP',
    'masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr',
    'sing', 'plur', 'Sgtm', 'Pltm',
    'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Fixd',
    'r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'g0', 'g1', 'g2',
}


class Tag(object):
    def __init__(self, grammemes):
        self.grammemes = frozenset(grammemes)


class Record(object):
    """One reading. inflections: frozenset of grams -> word"""

    def __init__(self, word, normal_form, grammemes, inflections=None):
        self.word = word
        self.normal_form = normal_form
        self.tag = Tag(grammemes)
        self.inflections = inflections or {}

    def inflect(self, grams):
        word = self.inflections.get(frozenset(grams))
        if word is None:
            return None
        return Record(word, self.normal_form, grams)


class TagClass(object):
    @staticmethod
    def grammeme_is_known(gram):
        return gram in GRAMS


class Dictionary(object):
    """readings: word -> list of (normal form, grams[, inflections])"""
    TagClass = TagClass

    def __init__(self, readings):
        self.readings = readings
        self.calls = 0

    def parse(self, word):
        self.calls += 1
        items = self.readings.get(word.lower())
        if items is None:
            items = [(word.lower(), ())]
        return [Record(word, *_) for _ in items]


class ExactDictionary(Dictionary):
    """Tells words that differ only in case, as a dictionary may."""

    def parse(self, word):
        self.calls += 1
        items = self.readings.get(word)
        if items is None:
            items = [(word, ())]
        return [Record(word, *_) for _ in items]


def analyzer(readings, cached=False, dictionary=Dictionary):
    raw = dictionary(readings)
    if cached:
        result = CachedMorphAnalyzer.__new__(CachedMorphAnalyzer)
        MorphAnalyzer.__init__(result, raw)
        return result
    return MorphAnalyzer(raw)


def tokenizer(readings, rules=RULES, cached=False, dictionary=Dictionary):
    return MorphTokenizer(rules, morph=analyzer(readings, cached, dictionary))


def forms_of(token):
    """Readings of a token as plain data."""
    return tuple(
        (_.normalized, tuple(sorted(_.grams.values)))
        for _ in token.forms
    )


def expected_forms(items):
    return tuple(
        (_[0], tuple(sorted(_[1])))
        for _ in items
    )
