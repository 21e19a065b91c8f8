"""Values of all sorts, as constants, defaults and results of functions."""
from .env import load

load()

from yargy import rule  # noqa
from yargy.interpretation import fact  # noqa


class Plain(object):
    """Has everything the values of the library have."""
    normalized = 'wrong'
    as_json = 'wrong'
    spans = []
    value = 'wrong'

    def __call__(self, *_):
        return 'wrong'


class Method(object):
    def __init__(self, value):
        self.kept = value

    def give(self, _):
        return self.kept

    def __call__(self, _):
        return self.kept


def anything():
    made = fact('M', ['x'])
    one = made(x=1)
    return {
        'None': None, 'False': False, 'True': True, '0': 0, '1': 1, 'zero': 0.0, 'empty': '', 'x': 'x',
        'list': [], 'items': [1, 'x'], 'tuple': (), 'pair': (1, 2), 'dict': {}, 'keys': {'x': 1},
        'set': {1}, 'bytes': b'x', 'type': str, 'function': len, 'lambda': lambda *_: 'wrong',
        'object': object(), 'plain': Plain(), 'class': Plain, 'iterator': iter([1]), 'fact': one,
        'fact class': made, 'error': ValueError('x'), 'error class': KeyError,
        'attribute': made.x, 'rule': rule('а'), 'nan': float('nan'), 'ellipsis': Ellipsis,
        'not implemented': NotImplemented,
    }
