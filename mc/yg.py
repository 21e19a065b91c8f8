"""Small helpers over the public interface of yargy."""
from .env import load

load()

from yargy import Parser  # noqa
from yargy.tokenizer import Tokenizer  # noqa

PLAIN = Tokenizer()


def text_of(letters):
    return ' '.join(letters)


def positions(letters):
    """Token number by offset for text_of(letters)."""
    result = {}
    offset = 0
    for index, letter in enumerate(letters):
        result[offset] = index
        offset += len(letter) + 1
    return result


def leafs(match):
    """Terminals of the tree in text order."""
    return [
        _ for _ in match.tree.walk()
        if getattr(_, 'predicate', None) is not None
    ]


def uids(match):
    return tuple(_.predicate.uid for _ in leafs(match))


def token_range(match, offsets):
    """(first token, after last token)"""
    first = offsets[match.tokens[0].span.start]
    last = offsets[match.tokens[-1].span.start]
    return first, last + 1


def describe(match):
    """Everything a match reports, as plain data."""
    if match is None:
        return None
    return (
        tuple(match.span),
        tuple(describe_token(_) for _ in match.tokens),
    )


def describe_token(token):
    return (
        type(token).__name__, token.value, tuple(token.span), token.type,
        getattr(token, 'tag', None),
        tuple(
            (_.normalized, tuple(sorted(_.grams.values)))
            for _ in token.forms
        ) if hasattr(token, 'forms') else None
    )


class ReadyTokenizer(Tokenizer):
    """Passes ready tokens through, as in the cookbook."""

    def __init__(self, tokenizer):
        self.tokenizer = tokenizer

    @property
    def morph(self):
        return self.tokenizer.morph

    def split(self, text):
        return self.tokenizer.split(text)

    def check_type(self, type):
        return self.tokenizer.check_type(type)

    def __call__(self, tokens):
        return tokens
