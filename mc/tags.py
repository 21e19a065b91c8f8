"""Every set of grammemes a word of the real dictionary has."""
from .env import load

load()

from yargy.morph import MorphAnalyzer  # noqa
from . import stub  # noqa

LOADED = []


def known():
    """Sets of grammemes of the dictionary and all grammemes, sorted."""
    if not LOADED:
        raw = MorphAnalyzer().raw
        grams = sorted(str(_) for _ in raw.TagClass.KNOWN_GRAMMEMES)
        sets = {tuple(sorted(str(_) for _ in tag.grammemes)) for tag in raw.dictionary.gramtab}
        sets |= {(_,) for _ in grams} | {()}
        LOADED.append((sorted(sets), grams))
    return LOADED[0]


def tag_sets():
    return known()[0]


def grammemes():
    return known()[1]


class TagClass(object):
    @staticmethod
    def grammeme_is_known(gram):
        return gram in grammemes()


class Dictionary(stub.Dictionary):
    TagClass = TagClass


def tokenizer(readings):
    return stub.tokenizer(readings, dictionary=Dictionary)


BLOCK = 20


def blocks():
    for start in range(0, len(tag_sets()), BLOCK):
        yield (start,)


def block(case):
    start, = case
    return tag_sets()[start:start + BLOCK]
