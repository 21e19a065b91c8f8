"""Import yargy from the working tree of /repo, never from stale bytecode."""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

warnings.simplefilter('ignore')


def load():
    if 'yargy' in sys.modules:
        return sys.modules['yargy']
    import pymorphy2  # noqa: keep its own bytecode cache usable
    sys.dont_write_bytecode = True
    saved = sys.pycache_prefix
    # a directory that does not exist: no cached bytecode of /repo is read
    sys.pycache_prefix = '/nonexistent/verif-no-bytecode'
    sys.path.insert(0, REPO)
    try:
        import yargy
        import yargy.api
        import yargy.dot
        import yargy.interpretation
        import yargy.morph
        import yargy.parser
        import yargy.pipelines
        import yargy.predicates
        import yargy.relations
        import yargy.relations.graph
        import yargy.rule
        import yargy.rule.bnf
        import yargy.rule.transformators
        import yargy.span
        import yargy.tagger
        import yargy.token
        import yargy.tokenizer
        import yargy.tree
        import yargy.tree.transformators
    finally:
        sys.pycache_prefix = saved
    path = os.path.realpath(yargy.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise ImportError('yargy imported from %s, not from %s' % (path, REPO))
    return yargy
