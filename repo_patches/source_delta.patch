From 69565e87389875e9fca650e9c6782841521e0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 01/38] fix: keep visited rules alive while transforming

RuleTransformator remembers results by id(item). SquashExtended visits
temporary rules, they were freed and their ids reused, so a different rule
got the result of the freed one: rule(A.optional().repeatable(),
B.optional().repeatable()) was transformed to R0 -> R1 R1.
---
 yargy/rule/transformators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..8158dff 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,12 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item alive, otherwise its id may be reused
+            self.visited[item_id] = item, result
+        return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From 23c7ff5a8b06546740f478c810f21c8dd780452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 02/38] fix: use empty items completed before the state was
 added

An optional rule used at several depths is predicted once per column. A state
added after its empty derivation was completed never got it, so
or_(rule(E, 'a'), rule(K, 'c')) with K starting with E three rules deeper
did not match 'b q c'.
---
 yargy/parser.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..eb9de35 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -97,6 +98,11 @@ class Column(object):
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
+        elif state.start_column is self:
+            self.empty_index[id(state.rule)].append(state)
+
+    def empty(self, rule):
+        return self.empty_index[id(rule)]
 
     def __repr__(self):
         return 'Column({index!r}, {token!r}, ...)'.format(
@@ -268,6 +274,9 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        # may be completed before state was added
+                        for completed in column.empty(next_term):
+                            self.attach(column, state, completed)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -338,11 +347,14 @@ class Parser(object):
 
     def complete(self, column, completed):
         for state in completed.parents:
-            state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
-                stop_column=column,
-                node=state.node.attached(completed.node)
-            )
-            column.append(state)
+            self.attach(column, state, completed)
+
+    def attach(self, column, state, completed):
+        state = State(
+            state.rule, state.production,
+            dot_index=state.dot_index + 1,
+            start_column=state.start_column,
+            stop_column=column,
+            node=state.node.attached(completed.node)
+        )
+        column.append(state)
-- 
2.43.0


From ea5fd3aca68ce6e95ca42169fecab937d4e4a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 03/38] fix: do not fail on empty derivation of the whole rule

Parser(rule('a').optional()).findall('b a') raised ValueError: no method for
NoneType, tree without tokens has no root after normalization.
---
 yargy/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index eb9de35..9c2ac32 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -207,6 +207,9 @@ def prepare_trees(states):
 
 def prepare_match(tree):
     tree = tree.normalized
+    if not tree.root:
+        # no tokens
+        return
     relations = tree.relations
     if relations.validate():
         tree = tree.constrain(relations)
-- 
2.43.0


From 97b43eb34d1fa97eb0fec97908e76ceda9f06d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 04/38] fix: stop on rules that derive themselves over the same
 tokens

Parser(rule(rule('a').optional()).repeatable()).match('a') never returned,
trees of an infinitely ambiguous rule were enumerated until memory ran out.
Derivations with such a cycle are skipped now, every derivation without a
cycle is kept.
---
 yargy/parser.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 9c2ac32..71e8bfe 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -133,13 +133,15 @@ class Column(object):
 class State(object):
     def __init__(self, rule, production, dot_index,
                  start_column, stop_column,
-                 node):
+                 node, inner=frozenset()):
         self.rule = rule
         self.production = production
         self.dot_index = dot_index
         self.start_column = start_column
         self.stop_column = stop_column
         self.node = node
+        # rules inside the node that cover exactly the same tokens
+        self.inner = inner
 
     def __hash__(self):
         return hash((
@@ -160,6 +162,11 @@ class State(object):
     def parents(self):
         return self.start_column.states_index[id(self.rule)]
 
+    @property
+    def looped(self):
+        # A -> ... -> A over the same tokens, infinitely ambiguous
+        return self.completed and id(self.rule) in self.inner
+
     @property
     def range(self):
         return self.start_column.index, self.stop_column.index
@@ -353,11 +360,18 @@ class Parser(object):
             self.attach(column, state, completed)
 
     def attach(self, column, state, completed):
+        inner = frozenset()
+        if state.stop_column is column:
+            inner |= state.inner
+        if completed.start_column is state.start_column:
+            inner |= completed.inner | {id(completed.rule)}
         state = State(
             state.rule, state.production,
             dot_index=state.dot_index + 1,
             start_column=state.start_column,
             stop_column=column,
-            node=state.node.attached(completed.node)
+            node=state.node.attached(completed.node),
+            inner=inner
         )
-        column.append(state)
+        if not state.looped:
+            column.append(state)
-- 
2.43.0


From b399adb6840a59b4911e4d3b404002944e89a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 05/38] fix: do not redefine forwards of the source rule

Transformators called define() on the forwards of the rule they were given, so
the rule was normalized in place: a second parser built from it failed with
RecursionError or lost interpretation. Also forward().define(X.repeatable())
failed with ValueError. Forwards are copied now like all other rules.
---
 yargy/rule/bnf.py            |  2 +-
 yargy/rule/transformators.py | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..af30250 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 8158dff..51d6f14 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,8 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    is_forward_rule,
+    PipelineRule,
 )
 
 
@@ -60,9 +62,6 @@ class RuleTransformator(Visitor):
         self.visited = {}
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
-            if item.rule:
-                item.define(self.visit(item.rule))
         return self.visit(root)
 
     def visit(self, item):
@@ -134,7 +133,15 @@ class RuleTransformator(Visitor):
         return RelationRule(self.visit(item.rule), item.relation)
 
     def visit_ForwardRule(self, item):
-        return item
+        forward = ForwardRule()
+        # item.rule may refer to item
+        self.visited[id(item)] = item, forward
+        if item.rule:
+            child = self.visit(item.rule)
+            if is_forward_rule(child):
+                child = Rule([Production([child])])
+            forward.define(child)
+        return forward
 
     def visit_EmptyRule(self, item):
         return item
-- 
2.43.0


From 2a2172ed8f290707da69aef5d3c4786a461719d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 06/38] fix: do not activate predicates and pipelines in place

The rule kept predicates and pipelines activated by its first parser, the next
parser with other tokenizer or tagger used them.
---
 yargy/rule/transformators.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 51d6f14..8830474 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -99,17 +99,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -150,7 +150,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -159,11 +159,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From db80cb7e7c3b94bb24fb511e15a2176e3c5f21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 07/38] fix: give spans to constant values

fact.spans raised AttributeError when the fact had an attribute with const(),
the input of const had no spans.
---
 yargy/interpretation/interpretator.py | 34 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..4873976 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -30,6 +30,15 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        for item in self.items:
+            if is_token(item):
+                yield item.span
+            else:
+                for span in item.spans:
+                    yield span
+
 
 class InterpretatorResult(Record):
     normalized = None
@@ -189,20 +198,17 @@ class NormalizerInterpretator(Interpretator):
         self.normalizer = normalizer
 
     def __call__(self, input):
-        if isinstance(self.normalizer, ConstNormalizer):
-            value = self.normalizer.value
-        else:
-            items = input.items
-            if all(is_token(_) for _ in items):
-                input = Chain(items, input.key)
-            elif len(items) == 1:
-                input = items[0]
-            else:
-                raise TypeError('{normalizer!r} -> {types!r}'.format(
-                    normalizer=self,
-                    types=[type(_) for _ in items]
-                ))
-            value = self.normalizer(input)
+        items = input.items
+        if all(is_token(_) for _ in items):
+            input = Chain(items, input.key)
+        elif len(items) == 1:
+            input = items[0]
+        elif not isinstance(self.normalizer, ConstNormalizer):
+            raise TypeError('{normalizer!r} -> {types!r}'.format(
+                normalizer=self,
+                types=[type(_) for _ in items]
+            ))
+        value = self.normalizer(input)
         return NormalizerResult(value, input)
 
     @property
-- 
2.43.0


From 9f53b249b5f1be204774c5e109ef108217525ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 08/38] fix: keep values of repeatable attributes when facts
 are merged

Merging overwrote the values collected so far and shared the list with the
merged fact: a fact built by a recursive rule kept only the last value.
---
 yargy/interpretation/fact.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..361955b 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,7 +94,10 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
-            self.attributes[key] = value
+            if key in self.repeatable:
+                self.attributes[key].extend(value)
+            else:
+                self.attributes[key] = value
             self.modified.add(key)
 
     @property
-- 
2.43.0


From 19215619924e520e7cafba6f5ea0edff8e01fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 09/38] fix: keep key of pipeline that is used more than once

normalized() gives the line of the pipeline, but a pipeline used in several
places is wrapped in one more rule and normal forms of separate words were
returned.
---
 yargy/tree/transformators.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..ab9f6cc 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -76,12 +76,25 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 for item in self.flatten(child):
                     yield item
 
+    def production(self, item):
+        # shared pipeline is wrapped, F.a -> R0, R0 -> pipeline
+        while (
+                len(item.rule.productions) == 1
+                and len(item.production.terms) == 1
+                and not isinstance(item.production, PipelineProduction)
+        ):
+            child = item.children[0]
+            if isinstance(child, Leaf) or child.interpretator:
+                break
+            item = child
+        return item.production
+
     def visit_Node(self, item):
         if item.interpretator:
             children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
-                item.production,
+                self.production(item),
                 item.rank,
                 children
             )
-- 
2.43.0


From 020d88c3202bb042eab23accb644b31e12c6e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 10/38] fix: find main word when optional parts are absent

Empty children are removed from the tree but the index of main stayed the same:
wrong word was compared or IndexError was raised.
---
 yargy/tree/transformators.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index ab9f6cc..d7cb4f5 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -7,6 +7,7 @@ from yargy.dot import (
     GREEN
 )
 
+from yargy.rule.constructors import Production
 from yargy.pipelines import PipelineProduction
 from yargy.interpretation.interpretator import InterpretatorInput
 
@@ -45,18 +46,24 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
-
     def visit_Node(self, item):
-        children = self.visit_children(item)
+        production = item.production
+        main = 0
+        terms = []
+        children = []
+        for index, child in enumerate(item.children):
+            child = self.visit(child)
+            if child:
+                if index == production.main:
+                    main = len(children)
+                terms.append(production.terms[index])
+                children.append(child)
         if children:
+            if len(children) < len(item.children):
+                production = Production(terms, main)
             return Node(
                 item.rule,
-                item.production,
+                production,
                 item.rank,
                 children
             )
-- 
2.43.0


From b03813ee163699347fbf75302948e12b774a5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 11/38] fix: refuse unknown tags

Result of check_tag was ignored, tag('FOO') is documented to raise an error.
---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From 06f851ef57502f3438654fcb809b341238d97acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 12/38] fix: keep min bound inside repeatable

A.repeatable(min=2).repeatable() was squashed to A.repeatable() and matched
single A.
---
 yargy/rule/transformators.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 8830474..200ce92 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -181,6 +181,14 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse_optional
             ))
 
+        elif isinstance(child, MinMaxBoundedRule) and child.min > 1:
+            return RepeatableRule(self.visit(child), item.reverse)
+        elif isinstance(child, MinBoundedRule) and child.min > 1:
+            return self.visit(MinBoundedRule(
+                child.rule,
+                child.min,
+                item.reverse
+            ))
         elif isinstance(child, (RepeatableRule, BoundedRule)):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
@@ -207,8 +215,13 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if isinstance(child, MinBoundedRule) and child.min > 1:
+            return OptionalRule(
+                self.visit(RepeatableRule(child, item.reverse_repeatable)),
+                item.reverse_optional
+            )
+        elif isinstance(child, (RepeatableRule, BoundedRule,
+                                OptionalRule, RepeatableOptionalRule)):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
-- 
2.43.0


From 732fb8b98fd12e5303336161d54a410a794fb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 13/38] fix: allow any number of optional parts under min bound

A.optional().repeatable(min=2, max=3) was squashed to at least two A or
nothing and did not match single A.
---
 yargy/rule/transformators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 200ce92..a8a8a4a 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -251,9 +251,10 @@ class SquashExtendedTransformator(RuleTransformator):
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
+            # any item may be absent, so there is no min
             return self.visit(OptionalRule(
                 MinBoundedRule(
-                    child.rule, item.min, item.reverse
+                    child.rule, 1, item.reverse
                 ),
                 child.reverse
             ))
@@ -279,9 +280,10 @@ class SquashExtendedTransformator(RuleTransformator):
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
+            # any item may be absent, so there is no min
             return self.visit(OptionalRule(
                 MinMaxBoundedRule(
-                    child.rule, item.min, item.max, item.reverse
+                    child.rule, 1, item.max, item.reverse
                 ),
                 child.reverse
             ))
-- 
2.43.0


From 46be2bbc2217f04a3ab87a328962a0c9f7b0160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 14/38] fix: do not share leafs between trees

Relations replace tokens of the leafs. Leafs are shared by all the trees of the
chart, so readings left in one match changed other matches of the same text.
---
 yargy/tree/transformators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index d7cb4f5..61e1006 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -68,6 +68,13 @@ class PropogateEmptyTransformator(TreeTransformator):
                 children
             )
 
+    def visit_Leaf(self, item):
+        # leafs are shared between trees, constrain changes them
+        return Leaf(
+            item.predicate,
+            item.token
+        )
+
 
 class KeepInterpretationNodesTransformator(TreeTransformator):
     def __call__(self, tree):
-- 
2.43.0


From 7bfe3f844fac5b1bcaa262a9cb423c55707c4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 15/38] fix: predict lines of morph_pipeline in the order of
 the pipeline

Normal forms of a word are a set, the line that wins depended on the hash seed.
---
 yargy/pipelines.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..25a04f8 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -55,24 +55,22 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def build_index(self, productions):
         index = defaultdict(list)
-        for production in productions:
+        for position, production in enumerate(productions):
             term = production.terms[0]
             for value in term.value:
-                index[value].append(production)
+                index[value].append(position)
         return dict(index)
 
     def predict(self, token):
         if is_morph_token(token):
             normalized = {_.normalized for _ in token.forms}
-            for value in normalized:
-                if value in self.index:
-                    for production in self.index[value]:
-                        yield production
         else:
-            value = token.normalized
-            if value in self.index:
-                for production in self.index[value]:
-                    yield production
+            normalized = {token.normalized}
+        positions = set()
+        for value in normalized:
+            positions.update(self.index.get(value, []))
+        for position in sorted(positions):
+            yield self.productions[position]
 
 
 class Key(Record):
-- 
2.43.0


From 69f0cc489677f370fc764633ac24d8e83bec04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 16/38] fix: escape backslash in dot

Label of eq('\\') was not a valid dot string.
---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From ee9093ebac42099bf08ffd85026292a0c58ac07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 17/38] fix: make Span hashable

Span defines __eq__ only, hash(span), hash(token) and hash(match) raised
TypeError.
---
 yargy/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..2edea13 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,8 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From 68215424461d7cb20867ec75c0d219d395340104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 18/38] fix: filter readings until all of them agree

Relations were checked in one pass, with three words a reading could be left
that agreed only with the readings removed later.
---
 yargy/relations/graph.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 7be590c..10b7434 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -47,6 +47,16 @@ class TokenRelationsGraph(RelationsGraph):
                 self.token_forms[token_id].append(form)
 
     def validate(self):
+        # removed form may be the only support for a form of other token
+        while self.filter():
+            pass
+        for token_id in self.tokens:
+            if not self.token_forms[token_id]:
+                return False
+        return True
+
+    def filter(self):
+        filtered = False
         for relation, first, second in self.edges:
             first_id = id(first)
             second_id = id(second)
@@ -61,13 +71,12 @@ class TokenRelationsGraph(RelationsGraph):
                             checked_first_forms.append(first_form)
                         if second_form not in checked_second_forms:
                             checked_second_forms.append(second_form)
+            if (len(checked_first_forms) < len(first_forms)
+                    or len(checked_second_forms) < len(second_forms)):
+                filtered = True
             self.token_forms[first_id] = checked_first_forms
             self.token_forms[second_id] = checked_second_forms
-
-        for token_id in self.tokens:
-            if not self.token_forms[token_id]:
-                return False
-        return True
+        return filtered
 
     def constrain(self, token):
         token_id = id(token)
-- 
2.43.0


From fa9687e7bb5c0bcdbe54521e55c93bead48287ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 19/38] fix: default grammemes and stable label of inflected()

inflected() without arguments raised TypeError, label depended on the hash
seed.
---
 yargy/interpretation/normalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..72772f6 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
@@ -50,7 +50,7 @@ class InflectedNormalizer(MorphNormalizer):
     @property
     def label(self):
         return 'inflected({grams})'.format(
-            grams=', '.join(self.grams)
+            grams=', '.join(sorted(self.grams))
         )
 
 
-- 
2.43.0


From a1b28ad846789f8e64849a8518319d2f78983866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 20/38] fix: do not fail on agreement of tokens without
 morphology

A number or a latin word under match(relation) raised AttributeError and
stopped findall on the whole text. Such word has no readings that agree, the
candidate is rejected.
---
 yargy/relations/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 10b7434..dd4dae7 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import combinations
 
 from yargy.record import Record
+from yargy.token import is_morph_token
 
 
 class Edge(Record):
@@ -43,8 +44,9 @@ class TokenRelationsGraph(RelationsGraph):
         token_id = id(token)
         self.tokens[token_id] = token
         if token_id not in self.token_forms:
-            for form in token.forms:
-                self.token_forms[token_id].append(form)
+            # no forms, nothing to agree
+            forms = token.forms if is_morph_token(token) else []
+            self.token_forms[token_id] = list(forms)
 
     def validate(self):
         # removed form may be the only support for a form of other token
-- 
2.43.0


From 9642dd1c265e4427e55bf16d83824128fc59602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 21/38] fix: allow empty and repeated tokenizer rules

Same rule added twice raised re.error (redefinition of group name), tokenizer
without rules raised KeyError on any text.
---
 yargy/tokenizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8c47152..774ea23 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -81,9 +81,9 @@ class Tokenizer(object):
         types = set()
         mapping = {}
         patterns = []
-        for rule in rules:
+        for index, rule in enumerate(rules):
             type, pattern = rule
-            name = 'rule_{id}'.format(id=id(rule))
+            name = 'rule_{index}'.format(index=index)
             pattern = r'(?P<{name}>{pattern})'.format(
                 name=name,
                 pattern=pattern
@@ -91,7 +91,8 @@ class Tokenizer(object):
             mapping[name] = type
             types.add(type)
             patterns.append(pattern)
-        pattern = '|'.join(patterns)
+        # never matches if there are no rules
+        pattern = '|'.join(patterns) or r'(?!)'
         regexp = re.compile(pattern, re.UNICODE | re.IGNORECASE)
         return regexp, mapping, types
 
-- 
2.43.0


From 70000ce3dc3fd4930d594d319f9b9f4beea74e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 22/38] fix: do not recurse over deep trees

Tree of a repeatable rule is as deep as the match is long, several hundred
tokens raised RecursionError in match and findall.
---
 yargy/tree/constructors.py   | 32 +++++++++++++++-----------------
 yargy/tree/transformators.py | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..bcfd66f 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -97,7 +97,10 @@ class Node(Record):
 
     @property
     def main(self):
-        return self.children[self.production.main].main
+        item = self
+        while not is_leaf(item):
+            item = item.children[item.production.main]
+        return item.token
 
     @property
     def interpretator(self):
@@ -115,23 +118,18 @@ class Node(Record):
         if id(self.rule) != id(other.rule):
             raise TypeError('Node() < Node() with different rules')
 
-        if id(self) == id(other):
-            return False
-
-        if self.rank == other.rank:
+        # do not recurse, trees of repeatable rules are deep
+        while id(self) != id(other):
+            if self.rank != other.rank:
+                return self.rank < other.rank
             for a, b in zip(self.children, other.children):
-                if is_leaf(a):  # b is also leaf
-                    continue
-                if id(a) == id(b):
-                    continue
-                if a.rank < b.rank:
-                    return True
-                elif a.rank > b.rank:
-                    return False
-                elif a.rank == b.rank:
-                    return a < b
-            return False
-        return self.rank < other.rank
+                # b is also leaf
+                if not is_leaf(a) and id(a) != id(b):
+                    self, other = a, b
+                    break
+            else:
+                break
+        return False
 
 
 class Leaf(Node):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 61e1006..6142796 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -46,13 +46,20 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_Node(self, item):
+    def __call__(self, tree):
+        # do not recurse, trees of repeatable rules are deep
+        visited = {}
+        for item in reversed(list(tree.walk())):
+            children = [visited[id(_)] for _ in item.children]
+            visited[id(item)] = self.resolve_method(item)(item, children)
+        return Tree(visited[id(tree.root)], tree.range)
+
+    def visit_Node(self, item, visited):
         production = item.production
         main = 0
         terms = []
         children = []
-        for index, child in enumerate(item.children):
-            child = self.visit(child)
+        for index, child in enumerate(visited):
             if child:
                 if index == production.main:
                     main = len(children)
@@ -68,7 +75,7 @@ class PropogateEmptyTransformator(TreeTransformator):
                 children
             )
 
-    def visit_Leaf(self, item):
+    def visit_Leaf(self, item, _):
         # leafs are shared between trees, constrain changes them
         return Leaf(
             item.predicate,
@@ -83,12 +90,13 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
         return super(KeepInterpretationNodesTransformator, self).__call__(tree)
 
     def flatten(self, item):
-        for child in item.children:
+        queue = list(reversed(item.children))
+        while queue:
+            child = queue.pop()
             if isinstance(child, Leaf) or child.interpretator:
                 yield child
             else:
-                for item in self.flatten(child):
-                    yield item
+                queue.extend(reversed(child.children))
 
     def production(self, item):
         # shared pipeline is wrapped, F.a -> R0, R0 -> pipeline
-- 
2.43.0


From c18275830dafd93cc7b533397d832e17dc44e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 23/38] fix: match the whole text with recursive rules

The root of a recursive rule is predicted inside of the text too: match('( a')
returned match for 'a' when A is 'a' or '(' A ')'.
---
 yargy/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 71e8bfe..9b743f3 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -293,11 +293,13 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
+        # recursive rule is also predicted in other columns
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0


From c6a72df022f26fc084cfe510a3cd0db18ffe51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 24/38] fix: keep types of tokens when tokenizer is changed
 while they are read

---
 yargy/tokenizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 774ea23..ad40160 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -97,11 +97,13 @@ class Tokenizer(object):
         return regexp, mapping, types
 
     def __call__(self, text):
+        # rules may be changed before all the tokens are read
+        mapping = self.mapping
         for match in re.finditer(self.regexp, text):
             name = match.lastgroup
             value = match.group(0)
             start, stop = match.span()
-            type = self.mapping[name]
+            type = mapping[name]
             token = Token(value, Span(start, stop), type)
             yield token
 
-- 
2.43.0


From 771bb432c814fbd9b2ea945f445a54672c0af020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 25/38] fix: keep order of readings in agreement

---
 yargy/relations/graph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index dd4dae7..3db6656 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -64,15 +64,15 @@ class TokenRelationsGraph(RelationsGraph):
             second_id = id(second)
             first_forms = self.token_forms[first_id]
             second_forms = self.token_forms[second_id]
-            checked_first_forms = []
-            checked_second_forms = []
-            for first_form in first_forms:
-                for second_form in second_forms:
-                    if relation(first_form, second_form):
-                        if first_form not in checked_first_forms:
-                            checked_first_forms.append(first_form)
-                        if second_form not in checked_second_forms:
-                            checked_second_forms.append(second_form)
+            # keep the order, the first form is used for normalization
+            checked_first_forms = [
+                first_form for first_form in first_forms
+                if any(relation(first_form, _) for _ in second_forms)
+            ]
+            checked_second_forms = [
+                second_form for second_form in second_forms
+                if any(relation(_, second_form) for _ in first_forms)
+            ]
             if (len(checked_first_forms) < len(first_forms)
                     or len(checked_second_forms) < len(second_forms)):
                 filtered = True
-- 
2.43.0


From 2527abfd3348651072fa11dc3778d8960ac4038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 26/38] fix: word does not have to agree with itself

---
 yargy/relations/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 3db6656..b84a554 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -62,6 +62,9 @@ class TokenRelationsGraph(RelationsGraph):
         for relation, first, second in self.edges:
             first_id = id(first)
             second_id = id(second)
+            if first_id == second_id:
+                # word of a phrase and the phrase itself
+                continue
             first_forms = self.token_forms[first_id]
             second_forms = self.token_forms[second_id]
             # keep the order, the first form is used for normalization
-- 
2.43.0


From 46dc4381ed0ab8d075b5e11a139d459e05bbddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:04 +0000
Subject: [PATCH 27/38] fix: generated names do not repeat given names

---
 yargy/rule/bnf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index af30250..50f0064 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -13,9 +13,15 @@ from .constructors import (
 
 
 def generate_names(rules):
+    rules = list(rules)
+    # name given by user may look like generated one
+    names = {_.name for _ in rules}
+    names.update(_.interpretator.label for _ in rules if _.interpretator)
     count = 0
     for rule in rules:
         if not rule.name:
+            while 'R%d' % count in names:
+                count += 1
             rule.name = 'R%d' % count
             count += 1
         yield rule
-- 
2.43.0


From 75a0e838bdc947a978275764c1df78974434a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:08 +0000
Subject: [PATCH 28/38] fix: print rules with pipelines before they are
 activated

---
 yargy/pipelines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 25a04f8..dbd6cb9 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -140,6 +140,11 @@ class PipelineScheme(Pipeline):
             assert_type(line, str)
         self.lines = lines
 
+    @property
+    def as_bnf(self):
+        # lines are not split before activate
+        return self.pipeline.bnf([])
+
     def get_key(self, line, tokenizer):
         return Key(
             line,
-- 
2.43.0


From 3f99b014db4a37ad58f788c77ff394d74e0833b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:44 +0000
Subject: [PATCH 29/38] fix: print rules with functions that have no name

---
 yargy/interpretation/normalizer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 72772f6..9129c5a 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -7,6 +7,11 @@ from yargy.token import (
 )
 
 
+def function_name(function):
+    # partial and callable objects have no name
+    return getattr(function, '__name__', None) or repr(function)
+
+
 class Normalizer(Record):
     def __call__(self, _):
         raise NotImplementedError
@@ -93,7 +98,7 @@ class FunctionNormalizer(CustomNormalizer):
     @property
     def label(self):
         return 'custom({name})'.format(
-            name=self.function.__name__
+            name=function_name(self.function)
         )
 
 
@@ -111,8 +116,8 @@ class FunctionFunctionNormalizer(CustomNormalizer):
     @property
     def label(self):
         return 'custom({first}).custom({second})'.format(
-            first=self.first.__name__,
-            second=self.second.__name__
+            first=function_name(self.first),
+            second=function_name(self.second)
         )
 
 
@@ -131,5 +136,5 @@ class MorphFunctionNormalizer(MorphNormalizer, CustomNormalizer):
     def label(self):
         return '{morph}.{function}'.format(
             morph=self.morph.label,
-            function=self.function.__name__
+            function=function_name(self.function)
         )
-- 
2.43.0


From 036d32907fe94f62419c77d07c5d8f1028b5f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 30/38] fix: rules that can not be compiled leave the tokenizer
 unchanged

add_rules replaced the rules before compiling them, after an error in
a pattern the tokenizer kept the broken list and refused any further
change.
---
 yargy/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index ad40160..393830f 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -57,8 +57,9 @@ class Tokenizer(object):
     def reset(self, rules):
         for rule in rules:
             assert_type(rule, TokenRule)
-        self.rules = rules
+        # rules that can not be compiled change nothing
         self.regexp, self.mapping, self.types = self.compile(rules)
+        self.rules = rules
 
     def add_rules(self, *rules):
         self.reset(list(rules) + self.rules)
-- 
2.43.0


From 658c1e61fd7d57a25fe7980434b5a060845632a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 31/38] fix: blank lines of a pipeline match nothing

---
 yargy/pipelines.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index dbd6cb9..b4a3d94 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -152,10 +152,15 @@ class PipelineScheme(Pipeline):
         )
 
     def activate(self, context):
-        return self.pipeline(
+        keys = (
             self.get_key(_, context.tokenizer)
             for _ in self.lines
         )
+        # blank lines match nothing
+        return self.pipeline(
+            _ for _ in keys
+            if _.terms
+        )
 
 
 class CaselessPipelineScheme(PipelineScheme):
-- 
2.43.0


From 1a145b2b902ec55b16a95ebbec5606d4d88a96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 32/38] fix: gte and lte of a number of more than 4300 digits

---
 yargy/predicates/bank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index c264ddf..66b1966 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -1,4 +1,5 @@
 
+from decimal import Decimal
 from functools import wraps
 
 from yargy.tokenizer import INT
@@ -42,7 +43,8 @@ def int_required(method):
     @wraps(method)
     def wrapper(self, token):
         if token.type == INT:
-            value = int(token.value)
+            # int(str) refuses long strings
+            value = int(Decimal(token.value))
             return method(self, value)
         else:
             return False
-- 
2.43.0


From f8629a2dc4364c5a8a82330d43c47442e4256012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:58 +0000
Subject: [PATCH 33/38] fix: tokenizer keeps its own list of rules

---
 yargy/tokenizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 393830f..8ed7b95 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -55,6 +55,7 @@ class Tokenizer(object):
         self.reset(rules)
 
     def reset(self, rules):
+        rules = list(rules)
         for rule in rules:
             assert_type(rule, TokenRule)
         # rules that can not be compiled change nothing
-- 
2.43.0


From 727b2147020c75bce773270056bf5a10fcaabc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 34/38] fix: composition of taggers keeps its own list

---
 yargy/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/tagger.py b/yargy/tagger.py
index 5ef4a67..ad25a9a 100644
--- a/yargy/tagger.py
+++ b/yargy/tagger.py
@@ -18,7 +18,7 @@ class PassTagger(Tagger):
 
 class TaggersComposition(Tagger):
     def __init__(self, taggers):
-        self.taggers = taggers
+        self.taggers = list(taggers)
 
     def __call__(self, tokens):
         for tagger in self.taggers:
-- 
2.43.0


From c9cf9d13a080281bedef7827748b8bacb17ccae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:08 +0000
Subject: [PATCH 35/38] fix: dictionary keeps its own set of words

---
 yargy/predicates/bank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 66b1966..9563da4 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -322,6 +322,9 @@ class dictionary(ParameterPredicateScheme):
 
     """
 
+    def __init__(self, value):
+        super(dictionary, self).__init__(set(value))
+
     def activate(self, context):
         normalized = set()
         for item in self.value:
-- 
2.43.0


From 838d9923aa875453b7cfacc313a5820a6fd82b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:23 +0000
Subject: [PATCH 36/38] fix: label of a custom predicate of a function without
 name

---
 yargy/predicates/bank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 9563da4..88996aa 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -508,6 +508,8 @@ class CustomPredicate(Predicate):
 
     @property
     def label(self):
+        # partial and callable objects have no name
+        name = getattr(self.function, '__name__', None)
         return 'custom({name})'.format(
-            name=self.function.__name__
+            name=name or repr(self.function)
         )
-- 
2.43.0


From 4e371d84ae20b84ba25a1d4c08577ebb18bb410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:42 +0000
Subject: [PATCH 37/38] fix: relations, tokenizers, taggers and analysers that
 are false as values were ignored

---
 yargy/morph.py               | 2 +-
 yargy/parser.py              | 4 ++--
 yargy/rule/bnf.py            | 4 ++--
 yargy/tokenizer.py           | 2 +-
 yargy/tree/transformators.py | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/yargy/morph.py b/yargy/morph.py
index 9193955..9a16b00 100644
--- a/yargy/morph.py
+++ b/yargy/morph.py
@@ -117,7 +117,7 @@ def prepare_form(raw):
 
 class MorphAnalyzer(object):
     def __init__(self, raw=None):
-        if not raw:
+        if raw is None:
             raw = PymorphyAnalyzer()
         self.raw = raw
 
diff --git a/yargy/parser.py b/yargy/parser.py
index 9b743f3..f8a0774 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -255,12 +255,12 @@ class Context(Record):
 
 class Parser(object):
     def __init__(self, rule, tokenizer=None, tagger=None):
-        if not tokenizer:
+        if tokenizer is None:
             tokenizer = MorphTokenizer()
         assert_type(tokenizer, Tokenizer)
         self.tokenizer = tokenizer
 
-        if not tagger:
+        if tagger is None:
             tagger = PassTagger()
         assert_type(tagger, Tagger)
         self.tagger = tagger
diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index 50f0064..bb2fb14 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -69,7 +69,7 @@ class BNFRule(Rule):
         name = self.name
         if self.interpretator:
             name = self.interpretator.label
-        if self.relation:
+        if self.relation is not None:
             name = '{name}^{relation}'.format(
                 name=name,
                 relation=self.relation.label
@@ -147,7 +147,7 @@ class BNFTransformator(RuleTransformator):
     def visit_RelationRule(self, item):
         relation = item.relation
         item = self.visit_WrapperRule(item)
-        if item.relation:
+        if item.relation is not None:
             item = lift(item)
         item.relation = relation
         return item
diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8ed7b95..94441e0 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -116,7 +116,7 @@ class Tokenizer(object):
 class MorphTokenizer(Tokenizer):
     def __init__(self, rules=RULES, morph=None):
         super(MorphTokenizer, self).__init__(rules)
-        if not morph:
+        if morph is None:
             from .morph import CachedMorphAnalyzer
             morph = CachedMorphAnalyzer()
         self.morph = morph
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 6142796..221342b 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -149,7 +149,7 @@ class RelationsTransformator(InplaceTreeTransformator):
         return self.relations
 
     def visit_Node(self, item):
-        if item.relation:
+        if item.relation is not None:
             self.relations.add(item.relation, item.main)
 
 
@@ -193,7 +193,7 @@ class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
             item,
             style(label=item.label, fillcolor=color)
         )
-        if item.relation:
+        if item.relation is not None:
             self.relations.add(item.relation, item)
 
     def visit_Leaf(self, item):
-- 
2.43.0


From 304da523246e78fe1440443085c9f77f07a7d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:54 +0000
Subject: [PATCH 38/38] fix: one token at several places of a phrase was
 compared once

---
 yargy/relations/graph.py     | 13 ++++++++-----
 yargy/tree/constructors.py   |  8 ++++++--
 yargy/tree/transformators.py |  4 ++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index b84a554..a6eb6bf 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -39,9 +39,11 @@ class TokenRelationsGraph(RelationsGraph):
         self.tokens = {}
         self.token_forms = defaultdict(list)
 
-    def add(self, relation, token):
-        super(TokenRelationsGraph, self).add(relation, token)
-        token_id = id(token)
+    def add(self, relation, leaf):
+        # one token may stand at several places
+        super(TokenRelationsGraph, self).add(relation, leaf)
+        token = leaf.token
+        token_id = id(leaf)
         self.tokens[token_id] = token
         if token_id not in self.token_forms:
             # no forms, nothing to agree
@@ -83,8 +85,9 @@ class TokenRelationsGraph(RelationsGraph):
             self.token_forms[second_id] = checked_second_forms
         return filtered
 
-    def constrain(self, token):
-        token_id = id(token)
+    def constrain(self, leaf):
+        token = leaf.token
+        token_id = id(leaf)
         if token_id in self.tokens:
             token = self.tokens[token_id]
             forms = self.token_forms[token_id]
diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index bcfd66f..f64a5e8 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -96,11 +96,15 @@ class Node(Record):
         )
 
     @property
-    def main(self):
+    def main_leaf(self):
         item = self
         while not is_leaf(item):
             item = item.children[item.production.main]
-        return item.token
+        return item
+
+    @property
+    def main(self):
+        return self.main_leaf.token
 
     @property
     def interpretator(self):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 221342b..67e64a4 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -150,7 +150,7 @@ class RelationsTransformator(InplaceTreeTransformator):
 
     def visit_Node(self, item):
         if item.relation is not None:
-            self.relations.add(item.relation, item.main)
+            self.relations.add(item.relation, item.main_leaf)
 
 
 class ApplyRelationsTransformator(InplaceTreeTransformator):
@@ -158,7 +158,7 @@ class ApplyRelationsTransformator(InplaceTreeTransformator):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        item.token = self.relations.constrain(item)
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0

