"""Writes /verif/properties.jsonl (one place to edit the texts; run by hand)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


prop('C01', 'match() accepts exactly the language of the rule',
     'For every grammar built from rule/or_/empty/forward/optional/repeatable(min, max, reverse)/named, including rules shared '
     'between several places and recursive rules, match(text) returns a match if and only if the whole, not empty, token sequence of the text '
     'can be derived from the grammar read compositionally (sequence, choice, at most one, m to n copies). '
     'How the pieces are nested, shared, flattened or whether some of them can be empty must not change what is accepted, and match() always terminates.',
     ['programs', 'inputs'],
     'all grammars (expression trees with shared sub-rules, and recursive grammars) x all token strings, both up to a size bound',
     'tests/test_rule.py compares the printed BNF of two dozen one-letter rules and parses almost none of them; nothing relates the '
     'accepted language to the grammar for combinations of constructs, for empty parts or for shared and recursive rules',
     ['yargy/parser.py', 'yargy/rule/constructors.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/api.py'],
     [('Earley chart: predict / scan / complete', 'yargy/parser.py Parser.chart'),
      ('normalisation of optional/repeatable/or/empty into plain productions', 'yargy/rule/transformators.py'),
      ('lifting into BNF rules, removal of forwards', 'yargy/rule/bnf.py')],
     [('chart columns', 'parser states per token position', 'yargy/parser.py Column'),
      ('visited map', 'memo of transformed rules', 'yargy/rule/transformators.py RuleTransformator')],
     ['Parser.match(text) is None or not'])

prop('C02', 'findall() returns a maximum-coverage set of disjoint valid spans',
     'findall(text) yields matches in text order whose token spans are pairwise disjoint, each derivable from the rule, and which together '
     'cover the largest possible number of tokens among all choices of disjoint derivable spans; find(text) is the first of them or None. '
     'The set of spans from which the choice is made is exactly the set of non-empty token ranges of the text the rule derives, wherever they start.',
     ['inputs', 'programs'],
     'all grammars and token strings up to a bound, and all sets of candidate spans over a text of n tokens (realised by a dictionary of phrases)',
     'the tests call findall on four texts with one or two matches each; overlapping candidates, ties and chains of overlaps are never exercised',
     ['yargy/parser.py', 'yargy/span.py'],
     [('weighted interval scheduling over sorted spans', 'yargy/span.py resolve_spans'),
      ('one candidate match per span', 'yargy/parser.py prepare_resolved_matches'),
      ('start symbol predicted in every column', 'yargy/parser.py Parser.chart')],
     observe=['Parser.findall(text)', 'Parser.find(text)', 'Parser.extract(text)'])

prop('C03', 'An ambiguous text is resolved to the leftmost preferred derivation',
     'When several derivations cover the same tokens, match() and findall() return the first one in preference order: earlier or_ alternatives before later ones, '
     'optional parts absent before present, repetition continuing before stopping, each of these two flipped by reverse=True, with choices decided outermost and leftmost first. '
     'The choice never depends on the order in which the derivations happen to be found.',
     ['programs', 'inputs'],
     'all ambiguous grammars and token strings up to a bound, each terminal position individually identified',
     'the documentation shows two examples ("order of or_ arguments matters"); the tests only look at the order of printed productions, never at which derivation is returned',
     ['yargy/parser.py', 'yargy/tree/constructors.py', 'yargy/rule/transformators.py'],
     [('lexicographic comparison of production ranks', 'yargy/tree/constructors.py Node.__lt__'),
      ('rank assigned at prediction', 'yargy/parser.py Parser.predict'),
      ('order of productions for optional/repeatable', 'yargy/rule/transformators.py ReplaceExtendedTransformator')],
     observe=['match.tree leaves: which terminal of the grammar consumed which token', 'match.fact'])

prop('C04', 'Every derivation is enumerated once, none is lost, none invented',
     'extract(text) yields one match for each distinct derivation of each non-empty token range by the rule, with no derivation missing, none repeated and no tree that the grammar does not generate (directly nested optional and repeatable marks count as one optional repetition). '
     'For a rule that can derive itself over the same tokens the enumeration stops after the derivations that contain no such cycle.',
     ['programs', 'inputs'],
     'all grammars (including shared sub-rules, empty productions and recursion) and token strings up to a bound',
     'the number of derivations is only mentioned in the cookbook; no test counts them, and missed completions of empty rules only show in grammars where a nullable rule is shared at different depths',
     ['yargy/parser.py', 'yargy/tree/constructors.py'],
     [('state identity = rule, production, dot, columns, children', 'yargy/parser.py State.__hash__'),
      ('index of waiting states', 'yargy/parser.py Column.states_index'),
      ('empty completions', 'yargy/parser.py Parser.complete')],
     observe=['Parser.extract(text): trees'])

prop('C05', 'Building or inspecting a parser never changes the rules it is built from',
     'A rule means the same thing however often and in whatever order it (or any rule sharing parts with it) has already been passed to Parser, activated, normalised, printed as BNF or drawn, '
     'and whatever tokenizers and taggers those parsers used. '
     'A parser built from a rule that was used before behaves exactly like a parser built from a freshly written copy of that rule, and parsers built earlier keep behaving as they did.',
     ['histories', 'configurations'],
     'all sequences, up to a bound, of build/print/draw/parse operations over a pool of rules that share sub-rules, forwards, predicates needing activation and dictionaries, with several tokenizers and taggers',
     'every test builds each rule once and one parser from it; two parsers over one rule, or over a shared part, never occur',
     ['yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/rule/constructors.py', 'yargy/pipelines.py'],
     [('activation of predicates and pipelines', 'yargy/rule/transformators.py ActivateTransformator'),
      ('definition of forwards during transformation', 'yargy/rule/transformators.py RuleTransformator.__call__'),
      ('naming of BNF rules', 'yargy/rule/bnf.py generate_names')],
     observe=['matches and facts of every parser built', 'printed BNF'])

prop('C06', 'Concurrent and interleaved calls on one parser equal isolated calls',
     'Any number of match/find/findall/extract calls on the same parser, or on parsers sharing rules, tokenizer and morphology, give each caller exactly the result it would get alone, '
     'when the calls run in different threads preempted anywhere, and when lazily consumed results are advanced alternately.',
     ['schedules', 'histories'],
     'all interleavings of two calls at source-line granularity up to a preemption bound, and all interleavings of the consumption of two or three open result iterators',
     'all tests are single-threaded and consume one result completely before starting the next',
     ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/morph.py', 'yargy/pipelines.py', 'yargy/tree/transformators.py', 'yargy/relations/graph.py'],
     [('all parse state is local to a call (chart, trees, relation graph)', 'yargy/parser.py'),
      ('shared word cache', 'yargy/morph.py CachedMorphAnalyzer')],
     observe=['result of each call compared with the same call run alone'])

prop('C07', 'Matches are independent, immutable results',
     'What a match reports (tokens with their readings, span, tree, fact) is fixed when it is returned: consuming further matches of the same text, parsing other texts, reading the fact any number of times in any order, or changing a fact that was read does not change it. '
     'Whether a candidate is accepted, and with which readings, depends only on its own words and never on other candidate derivations of the same text that share words or sub-phrases with it.',
     ['histories', 'inputs'],
     'all orders of consuming matches and reading their facts, for grammars whose candidates share sub-derivations under different agreement relations, up to a bound',
     'tests look at one match, once, right after producing it',
     ['yargy/parser.py', 'yargy/tree/transformators.py', 'yargy/relations/graph.py', 'yargy/token.py'],
     [('agreement narrows the tokens of a tree in place', 'yargy/tree/transformators.py ApplyRelationsTransformator'),
      ('tree copied before narrowing', 'yargy/tree/transformators.py PropogateEmptyTransformator')],
     observe=['Match.tokens, Match.span, Match.fact, Match.tree at every later moment'])

prop('C08', 'An exception raised during parsing leaves no trace',
     'If a predicate, tagger, tokenizer, morphology, normaliser, agreement relation or an overridden parsing step raises, at whatever point, the exception reaches the caller unchanged '
     'and the parser, its rules, tokenizer and caches then give, on any text, the same results as if the failed call had never been made.',
     ['fault_sequences', 'histories'],
     'an exception injected at every single callback invocation of a call (every fault point), followed by every kind of call on every text of a small set; also two successive faults',
     'no test injects a failure; the cookbook recommends aborting a parse from inside a step (CappedParser) and reusing the parser',
     ['yargy/parser.py', 'yargy/morph.py', 'yargy/tokenizer.py', 'yargy/interpretation/interpretator.py', 'yargy/relations/graph.py'],
     [('no per-call state on shared objects', 'yargy/parser.py'), ('word cache stores only successful results', 'yargy/morph.py')],
     observe=['exception identity', 'results of later calls'])

prop('C09', 'Tokens partition the text and carry exact offsets and types',
     'Tokens are in text order, never overlap, and every token value is exactly the text between its span offsets; with the default rules every non-blank character and every line break belongs to exactly one token: words of Russian or of Latin letters, numbers of digits, runs of line breaks, and anything else character by character. '
     'Each token has the type of the first rule that matches at its start and extends as far as that rule matches there.',
     ['inputs'],
     'all strings up to a length bound over an alphabet with representatives of every character class the rules distinguish, for the default rules and for rule lists with e-mail, phone and custom rules',
     'tests tokenize seven fixed strings',
     ['yargy/tokenizer.py', 'yargy/span.py', 'yargy/token.py'],
     [('one alternation of named groups', 'yargy/tokenizer.py Tokenizer.compile'), ('spans from match offsets', 'yargy/tokenizer.py Tokenizer.__call__')],
     observe=['list(tokenizer(text))', 'tokenizer.split(text)'])

prop('C10', 'A reconfigured tokenizer equals a freshly built one',
     'After any sequence of add_rules and remove_types a tokenizer behaves exactly like a new tokenizer created from the resulting rule list: added rules take precedence, removed types are gone from its output and are rejected by type(...), '
     'unknown types and rules that cannot be compiled are refused and then change nothing. Other tokenizers, the default rule list, tokenizers created later and the tokens of a text that is already being read are unaffected.',
     ['histories', 'configurations'],
     'all operation sequences up to a depth over several tokenizers (breadth-first search over configurations), each state probed with texts that distinguish the rules',
     'tests make one add and one remove on fresh tokenizers',
     ['yargy/tokenizer.py'],
     [('rule list rebuilt and recompiled on each change', 'yargy/tokenizer.py Tokenizer.reset')],
     [('rules / regexp / mapping / types', 'current configuration', 'yargy/tokenizer.py Tokenizer')],
     ['tokens produced', 'check_type', 'Parser(rule(type(X)), tokenizer)'])

prop('C11', 'Predicates decide exactly their documented condition',
     'Each built-in predicate holds for a token exactly when its documented condition does (equality, caseless equality, membership, number bounds, length, letter case, token type, tag, grammeme or normal form of some reading, custom function limited to types), for tokens with and without morphology; '
     'and_, or_ and not_ over predicates are the boolean operations, however nested, before and after the parser has resolved them against its tokenizer.',
     ['inputs', 'programs'],
     'all predicates of the bank with a set of parameters, and all boolean combinations up to a depth, x all tokens of a set covering every token kind and reading combination',
     'doctests evaluate each predicate on one to three tokens; combinations are tested once',
     ['yargy/predicates/bank.py', 'yargy/predicates/constructors.py', 'yargy/api.py'],
     [('predicate bank', 'yargy/predicates/bank.py'), ('boolean combinators and their activation', 'yargy/predicates/constructors.py')],
     observe=['predicate(token)', 'Parser(rule(predicate)).match(word)'])

prop('C12', 'Matched words carry exactly the readings compatible with the rule',
     'A word matched by gram(g) or is_single() carries exactly those of its readings that satisfy it, in their original order and at least one; any other predicate leaves the readings as they were. '
     'Value, span, type and tag of the word are untouched, and the same word elsewhere in the text, in other matches or parsed later again has all its readings.',
     ['inputs', 'programs'],
     'all words with up to three readings over a small set of grammemes x all predicates of a set x all small rules using the same word in several places',
     'tests only check that a gram predicate is true or false, never which readings remain',
     ['yargy/predicates/bank.py', 'yargy/parser.py', 'yargy/token.py', 'yargy/morph.py'],
     [('narrowing at scan', 'yargy/parser.py Parser.scan'), ('constrained copies of tokens', 'yargy/token.py')],
     observe=['match.tokens[i].forms', 'inflected()/normalized() of the word'])

prop('C13', 'Agreement relations have the documented truth table',
     'gender, number and case relations between two readings hold exactly per their table (shared gender, common-gender words agreeing with masculine and feminine ones, general-gender words agreeing with any, plural ignoring gender, singular/plural-only words, equal case or indeclinable), are symmetric, and gnc is the conjunction of the three; '
     'and_, or_ and not_ over relations are the boolean operations.',
     ['inputs', 'programs'],
     'all pairs of readings over the grammemes each relation looks at (complete), and all boolean combinations up to a depth',
     'three sentences are tested with gnc and one with number+gender',
     ['yargy/relations/bank.py', 'yargy/relations/constructors.py', 'yargy/morph.py', 'yargy/api.py'],
     [('relation bank', 'yargy/relations/bank.py'), ('grammeme views', 'yargy/morph.py Gender/Number/Case')],
     observe=['relation(form, other)', 'Parser match of two words joined by the relation'])

prop('C14', 'Agreement filters matches and readings consistently',
     'Words joined by one relation with match() make a candidate fail if some word is left without a reading that agrees (a word without readings has none), and never make it fail while the words have readings that all agree with each other. '
     'In a returned match every remaining reading of a joined word agrees with at least one remaining reading of every other word joined by the same relation, no reading belonging to a fully agreeing choice has been dropped, the order of readings stays, and words that are not joined keep their readings.',
     ['inputs', 'programs'],
     'all assignments of reading sets to two to four joined words over a small set of readings x all (symmetric) relations over them, several relations at once, and nested phrases',
     'tests use five real phrases, all with two joined words',
     ['yargy/relations/graph.py', 'yargy/parser.py', 'yargy/tree/transformators.py'],
     [('pairwise filtering of readings', 'yargy/relations/graph.py TokenRelationsGraph.validate'), ('invalid trees dropped', 'yargy/parser.py prepare_match')],
     [('token_forms', 'remaining readings per word', 'yargy/relations/graph.py')],
     ['Parser.match / findall', 'Match.tokens[i].forms'])

prop('C15', 'A phrase agrees through its main word',
     'When a phrase is joined by a relation, the word that is compared is the one marked by main(...), followed down through nested phrases, and the leftmost word of a phrase without a mark. '
     'This holds regardless of which optional parts of the phrase are present, of naming, interpretation or nesting around it, and of where the phrase is used.',
     ['programs', 'inputs'],
     'all small phrases with at most one marked part per level, optional parts and nesting up to a depth x all word strings up to a length',
     'one test marks the second of two obligatory words',
     ['yargy/rule/constructors.py', 'yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/rule/transformators.py'],
     [('main index of a production', 'yargy/rule/constructors.py prepare_terms'), ('main word of a node', 'yargy/tree/constructors.py Node.main'),
      ('removal of empty children', 'yargy/tree/transformators.py PropogateEmptyTransformator')],
     observe=['which pair of words the relation is asked about', 'match or no match'])

prop('C16', 'A dictionary of phrases matches exactly its phrases',
     'pipeline, caseless_pipeline and morph_pipeline accept a token sequence exactly when some line, split by the tokenizer of the parser, has the same number of tokens and each equals (exactly, ignoring case, or by a common normal form) the corresponding token; '
     'this holds wherever the dictionary stands in a rule and however many of its lines share prefixes or words, and blank lines match nothing. When several lines fit, the same tokens or different ones, the earliest line the whole rule fits with is the one reported.',
     ['inputs', 'programs', 'configurations'],
     'all dictionaries of up to three lines of up to three words over a small vocabulary x all texts up to a length x all contexts of a set',
     'one test with seven lines checks a handful of texts; overlapping lines, shared first words and ambiguous normal forms are not covered',
     ['yargy/pipelines.py', 'yargy/parser.py', 'yargy/rule/bnf.py'],
     [('index by first word', 'yargy/pipelines.py PipelineBNFRule.build_index/predict'), ('splitting of lines by the tokenizer', 'yargy/pipelines.py PipelineScheme.get_key')],
     observe=['match / findall tokens', 'normalized() value = the line'])

prop('C17', 'A fact is assembled from the marked parts in text order',
     'The fact of a match has, for each attribute, the value of the rightmost part marked with it directly under that fact, or the default; a repeatable attribute has the values of all of them in text order; an inner attribute mark under an outer one disappears; '
     'a fact marked inside a fact of the same class is merged into it, inside an attribute it becomes its value, and a mixture of words and marked parts under one attribute is a TypeError.',
     ['programs', 'inputs'],
     'all small marked trees (facts, attributes, repeatable attributes, subclasses, nesting, recursion, absent optional parts) up to a bound',
     'tests have one example per feature and none combining merging, repeatable attributes, defaults and recursion',
     ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py', 'yargy/interpretation/attribute.py', 'yargy/tree/transformators.py'],
     [('collapse of unmarked nodes', 'yargy/tree/transformators.py KeepInterpretationNodesTransformator'),
      ('assignment and merging', 'yargy/interpretation/fact.py InterpretatorFact')],
     observe=['match.fact'])

prop('C18', 'Attribute values are normalised as declared',
     'The value of a marked part is the words joined as in the text with runs of blanks reduced to one space, or, as declared: their first-reading normal forms (for a dictionary: the matching line), their inflection to the given grammemes (falling back to the normal form), the constant, or the function applied to that value, functions chaining left to right. '
     'The readings used are those left after the rule and its agreement relations have narrowed them, and the result is the same whether the normaliser is given on the attribute or separately, and wherever the rule is used.',
     ['programs', 'inputs'],
     'all normaliser chains x all kinds of parts (word, phrase, dictionary, shared dictionary, nested attribute/fact) x all texts of a set with all blank patterns between words',
     'tests have one example per normaliser, each with one word',
     ['yargy/interpretation/normalizer.py', 'yargy/interpretation/attribute.py', 'yargy/interpretation/interpretator.py', 'yargy/token.py', 'yargy/tree/transformators.py', 'yargy/rule/bnf.py'],
     [('normalisers', 'yargy/interpretation/normalizer.py'), ('joining of tokens', 'yargy/token.py format_tokens'), ('dictionary key', 'yargy/tree/transformators.py InterpretationTransformator')],
     observe=['match.fact'])

prop('C19', 'Matches and facts report exactly the text they came from',
     'The tokens of a match are the consecutive tokens of the text in its span, and the span runs from the start of the first to the end of the last of them. '
     'fact.spans lists, in text order, the text ranges of exactly the parts that gave the fact its values, including constants and nested or repeated values, and as_json contains the same values in declaration order, with attributes whose value is None left out.',
     ['programs', 'inputs'],
     'all small marked grammars with every attribute and normaliser kind x all texts up to a length with all blank patterns',
     'spans and as_json are compared on a dozen single-match examples, never with constants, defaults, nesting and repetition together',
     ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py', 'yargy/token.py', 'yargy/parser.py'],
     [('spans carried by interpretation results', 'yargy/interpretation/interpretator.py'), ('span of a match', 'yargy/token.py get_tokens_span')],
     observe=['match.tokens', 'match.span', 'fact.spans', 'fact.as_json'])

prop('C20', 'Results do not depend on hash order, memory layout or process',
     'The same rules, tokenizer and text give the same matches, derivations, readings and facts in every process: whatever the iteration order of sets and dictionaries of strings, whatever memory addresses objects get or have been reused, and whether or not the analysis was cached or other parsers exist.',
     ['configurations', 'histories'],
     'all orders in which a set of the involved strings can be iterated (realised by choosing hash values), all allocation patterns of a set that forces address reuse while rules are transformed, over a set of grammars using every feature; plus fresh processes with different hash seeds',
     'each test runs once in one process with one hash seed, and a dependence usually still gives the expected value in that run',
     ['yargy/pipelines.py', 'yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/relations/graph.py'],
     [('id()-keyed memo tables and indexes', 'yargy/rule/transformators.py, yargy/parser.py'), ('prediction from a set of normal forms', 'yargy/pipelines.py MorphPipelineBNFRule.predict')],
     observe=['match.fact, tokens, tree; BNF text'])

prop('C21', 'The printed grammar is the grammar that is parsed',
     'When the names given in a rule are distinct, the BNF text of the rule (normalized.as_bnf.source) has one line per distinct rule, starting with the root, every name used is defined by exactly one line, and reading the text as a context-free grammar gives exactly the language the parser accepts; names given by named() and facts, attributes, main marks and relations given in the rule label it. '
     'Producing the text repeatedly gives the same text.',
     ['programs'],
     'all grammars up to a size bound, with names, interpretation marks and relations, the printed text re-parsed and its language enumerated up to a length',
     'about thirty printed grammars are compared literally; none is related to what is parsed',
     ['yargy/rule/bnf.py', 'yargy/rule/constructors.py', 'yargy/rule/transformators.py'],
     [('generation of names', 'yargy/rule/bnf.py generate_names'), ('labels', 'yargy/rule/bnf.py BNFRule.label')],
     observe=['list(rule.normalized.as_bnf.source)'])

prop('C22', 'Drawings of rules and trees are complete and well-formed',
     'as_dot of any rule (before or after normalisation) and of any match tree is a syntactically valid DOT graph with exactly one node per construct, labelled so that the label reads back as the text it stands for whatever characters it contains, one edge per parent-child link, and one dashed edge per pair of parts joined by a relation. '
     'Drawing changes neither the rule nor the match.',
     ['programs', 'inputs'],
     'all rules and trees of the enumerated grammars up to a bound, and all labels up to a length over an alphabet with quotes, backslashes, newlines and letters',
     'no test draws anything',
     ['yargy/dot.py', 'yargy/rule/transformators.py', 'yargy/tree/transformators.py'],
     [('graph construction', 'yargy/dot.py DotTransformator'), ('quoting', 'yargy/dot.py style.quote')],
     observe=['as_dot.source', 'as_dot.nodes / edges'])

prop('C23', 'Ill-formed rules are refused when they are built',
     'These mistakes are refused with TypeError or ValueError (KeyError for an unknown attribute of a fact) when the rule, or at the latest its parser, is built and before any text is parsed, in whatever place of a rule they are: unknown grammeme, token type or tag in a predicate, undefined forward, forward of a forward, negative or reversed repeat bounds, order that is not a bool, two main marks in one phrase, mixed or foreign arguments of and_/or_/not_/main, names, interpretation targets and relations of the wrong kind, default on a repeatable attribute, non-string dictionary lines. '
     'Every well-formed combination of the same constructs is accepted.',
     ['programs', 'inputs'],
     'all calls of every constructor with every combination of argument kinds from a complete set of kinds, and all positions of an invalid part inside a larger rule',
     'six error cases are tested',
     ['yargy/check.py', 'yargy/api.py', 'yargy/rule/constructors.py', 'yargy/predicates/bank.py', 'yargy/relations/constructors.py', 'yargy/interpretation/interpretator.py', 'yargy/interpretation/attribute.py', 'yargy/pipelines.py', 'yargy/tagger.py'],
     [('assert_type and friends', 'yargy/check.py'), ('activation against tokenizer and tagger', 'yargy/predicates/bank.py')],
     observe=['exception type or success'])

prop('C24', 'Taggers see and label the token stream, and labels survive parsing',
     'The tagger of a parser receives the tokens of the text in order and the rule is matched against exactly the tokens it returns; a composition applies its taggers left to right and knows the tags of all of them. '
     'A label given to a word is kept, together with its readings, through narrowing and agreement up to the tokens of the match, tag(x) holds exactly for tokens labelled x, and a later label replaces an earlier one.',
     ['inputs', 'programs', 'configurations'],
     'all labelings of token strings up to a length with a small tag set, all compositions of up to three taggers, with and without morphology and agreement',
     'one test with one tagger on untagged Latin letters',
     ['yargy/tagger.py', 'yargy/token.py', 'yargy/parser.py', 'yargy/predicates/bank.py'],
     [('composition', 'yargy/tagger.py'), ('tagged token classes', 'yargy/token.py')],
     observe=['match.tokens', 'findall spans'])

prop('C25', 'Tokens, spans, readings and facts are values',
     'Two tokens, spans, readings, matches or facts are equal exactly when they are of the same kind and all their parts are equal (a span also equals the pair of its offsets), inequality is the negation, equality is symmetric, '
     'spans order like their offset pairs, and equal spans, readings and hashable facts have equal hashes so they can be used in sets and as keys. A fact gives each attribute the passed value or its default and refuses unknown attributes.',
     ['inputs'],
     'all pairs of values of every kind with parts from small sets',
     'tests rely on equality of expected and actual values but never on inequality, ordering, hashing or defaults',
     ['yargy/record.py', 'yargy/span.py', 'yargy/token.py', 'yargy/morph.py', 'yargy/interpretation/fact.py', 'yargy/parser.py'],
     [('record equality', 'yargy/record.py'), ('span comparison', 'yargy/span.py')],
     observe=['==, !=, <, hash, repr, iteration'])

prop('C26', 'Parsing ready-made tokens equals parsing their text',
     'A parser whose tokenizer passes ready tokens through gives, for the tokens of a text (as a list or as an iterator), the same matches and facts as a parser given the text, and treats any sequence of such tokens, some of them left out, moved or repeated, as the sequence it is. '
     'It never modifies the tokens or the list it was given, so the same tokens can be given to any number of parsers in any order.',
     ['inputs', 'histories'],
     'all token strings and all subsequences up to a length x all orders of applying several parsers to the same token list',
     'only described in the cookbook; no test passes tokens',
     ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/token.py', 'yargy/tree/transformators.py', 'yargy/tagger.py'],
     [('tokens copied into the chart', 'yargy/parser.py Chart'), ('narrowing makes new tokens', 'yargy/token.py constrained')],
     observe=['matches, facts; the token objects before and after'])

prop('C27', 'Word analysis is a faithful, pure view of the morphological dictionary',
     'The readings of a word are those of the underlying analyser, same number and order, with its normal form and exactly its grammemes; inflecting a reading gives the analyser\'s inflected word or else the normal form. '
     'With caching, any sequence of look-ups gives each time what an uncached analyser gives, for words differing only in case or spelling too, and only words made of Russian letters are analysed.',
     ['inputs', 'histories'],
     'all look-up sequences up to a length over a set of words including case variants, through tokenizer, predicates and dictionaries sharing one analyser, against the raw analyser; all inflection requests of a set',
     'tests look up three words once',
     ['yargy/morph.py', 'yargy/tokenizer.py'],
     [('conversion of readings', 'yargy/morph.py prepare_form'), ('cache', 'yargy/morph.py CachedMorphAnalyzer'), ('only RU tokens analysed', 'yargy/tokenizer.py MorphTokenizer')],
     observe=['morph(word)', 'form.inflect', 'token.forms'])

prop('C28', 'Results depend on the tokens, not on the blanks between them',
     'Inserting, widening or removing blanks where token boundaries stay the same, or adding text that no rule can use around a phrase, changes neither which tokens are matched nor the values of facts except for the presence of single spaces between words; offsets shift by exactly the inserted amount. '
     'A phrase is found inside any surrounding text whenever it is matched alone and nothing overlapping covers more.',
     ['inputs'],
     'all texts up to a number of tokens x all blank patterns from a small set x all grammars of a set, and all paddings by unusable tokens on both sides',
     'each test text has one blank pattern',
     ['yargy/tokenizer.py', 'yargy/token.py', 'yargy/parser.py'],
     [('offsets only in spans', 'yargy/tokenizer.py'), ('column indices used for ranges', 'yargy/parser.py')],
     observe=['findall tokens, spans and facts of padded and unpadded texts'])

prop('C29', 'Everything prints as what it is',
     'Printing (repr, str, interactive display) of facts, tokens, spans, readings, matches, predicates, relations, attributes, rules, grammars, trees, charts and drawings never fails, also for recursive and for normalised rules, gives the same text each time and changes nothing. '
     'The text shows the kind and then every part with its name in declaration order, at any depth, so that the text of a fact with plain values reads back as an equal fact, and different facts, predicates, relations and not recursive rules print differently. '
     'The interactive display says the same as repr; that of a grammar or chart is its lines.',
     ['inputs', 'histories'],
     'all facts of a set of values, orders of attributes and nestings; all token kinds x parts; all rules up to a number of nodes before and after parsing; all pairs of predicates, relations, attributes and constructs and of their compositions',
     'tests never print anything but one grammar',
     ['yargy/record.py', 'yargy/span.py', 'yargy/morph.py', 'yargy/rule/bnf.py', 'yargy/rule/constructors.py', 'yargy/parser.py', 'yargy/dot.py'],
     [('repr of records', 'yargy/record.py'), ('forwards are not followed', 'yargy/rule/constructors.py ForwardRule'), ('display by lines', 'yargy/rule/bnf.py, yargy/parser.py')],
     observe=['repr, str, _repr_pretty_, the printed thing before and after'])

prop('C30', 'The chart of a text lists its partial derivations',
     'parser.chart(text) has one column for the start and one for each token, and every item of it is a line of the printed grammar with a mark inside, whose part before the mark derives the given range of tokens and which is expected where it starts (there is an item before that waits for it, or it is of the first rule, anywhere or only at the start of the text). '
     'For every range that is not empty it finishes the first rule of the grammar exactly as many times as that rule derives the range, which is what match, find, findall and extract report before agreement is checked. '
     'A parser whose chart, predict, scan or complete steps are wrapped by a subclass, as in the cookbook, passes through them, reports the same, and stops exactly when the wrapper does.',
     ['inputs'],
     'all grammars up to a number of nodes and recursive grammars of few productions x all texts up to a length; all caps around the number of items',
     'the chart is not looked at by any test, the capped parser is only in the cookbook',
     ['yargy/parser.py', 'yargy/rule/bnf.py'],
     [('columns and items', 'yargy/parser.py Chart, Column, State'), ('steps as methods', 'yargy/parser.py Parser.predict, scan, complete')],
     observe=['chart(text).source, matches of subclassed parsers'])

prop('C31', 'Parts are what they do, not what they are called or equal to',
     'A predicate, relation, tokenizer, tagger, analyser, function or normaliser written by the user that answers as a built-in one can be put in its place anywhere: the phrases, readings, facts, labels and drawings are the same, also when its answers are merely true or false values, its sequences are lists, tuples or iterators, or it has its own notion of equality, hash or truth. '
     'Parts of a rule that have the same name, label, parameters or an equal value but behave differently are never taken for each other. '
     'A user predicate or relation without a label is shown as its printed form.',
     ['inputs'],
     'all sets of replaced kinds of parts in a set of rules, all styles and manners of the replaced part, all short texts; all choices of hidden behaviours of parts that look the same in a set of rule skeletons',
     'tests use one user tagger and one user relation, and no two parts that look the same',
     ['yargy/predicates/constructors.py', 'yargy/relations/constructors.py', 'yargy/relations/graph.py', 'yargy/tagger.py', 'yargy/tokenizer.py', 'yargy/morph.py', 'yargy/parser.py', 'yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/interpretation/interpretator.py', 'yargy/interpretation/normalizer.py'],
     [('base classes', 'yargy/predicates/constructors.py Predicate, PredicateScheme; yargy/relations/constructors.py Relation; yargy/tagger.py Tagger'), ('identity of parts', 'yargy/relations/graph.py, yargy/parser.py Column, yargy/rule/transformators.py RuleTransformator')],
     observe=['matches, trees, facts, BNF and DOT text of the same rule made of other parts'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
