From 9f3b6d45b616d2c22854387e1f951ca76daf80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 01/19] fix: implication evaluated to true whatever its
 operands

The visitor yielded both 'not phi' and 'phi' for every antecedent, so
any() was always true; only the last operand counts positively.
---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 5c8a820a9fd4777ad4e64dc06171793b02192b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 02/19] fix: 'a -> false' was rewritten to 'a -> true'

'ex falso quodlibet' applies to a false antecedent only, not to the
last operand (the consequent).
---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..996d6c3 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,7 +536,7 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
+        for operand in operands[:-1]:
             if operand == false:
                 # ex falso sequitur quodlibet
                 new_operands.append(~false)
-- 
2.43.0


From 73195fa207d962e6d5ce644f454b7d1df7cee6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 03/19] fix: to_string printed a regex test in a form the LDL
 grammar rejects

The grammar takes the question mark on the right of the tested formula.
---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..cd94353 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -237,7 +237,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From 50a9b8530ea11a3e5aac4cad05132d6000f4d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 04/19] fix: to_string did not support the PLTL 'Z' and 'T'
 operators

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index cd94353..f4ac7a0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,6 +186,18 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
-- 
2.43.0


From f75511715fece811dbe7f1861256c4ccdd6d226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 05/19] fix: formulas could be neither pickled nor copied

The state getter is wrapped once per class of the hierarchy, so the
cached hash was popped twice (KeyError), and it was popped from the
live object. 'Not.__new__' takes an argument, so it needs
__getnewargs__.
---
 pylogics_modalities/helpers/cache_hash.py | 4 ++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..f8bdf1f 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,8 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        d = dict(fn(self) or {})
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 996d6c3..36598ff 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of '__new__', for copy and pickle."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 86ef2b8f93cbadc931c289f74cfa12377db3fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 06/19] fix: LTL 'last' was G(ff), which never holds on a
 non-empty trace

'last' holds at the last instant only, i.e. when there is no next
instant: it is X(ff), with X the weak next.
---
 pylogics_modalities/syntax/ltl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/ltl.py b/pylogics_modalities/syntax/ltl.py
index 4c4172e..ae1b2e8 100644
--- a/pylogics_modalities/syntax/ltl.py
+++ b/pylogics_modalities/syntax/ltl.py
@@ -157,4 +157,4 @@ class StrongRelease(_LTLBinaryOp):
     SYMBOL = "strong_release"
 
 
-Last = partial(Always, FalseFormula(logic=Logic.LTL))
+Last = partial(WeakNext, FalseFormula(logic=Logic.LTL))
-- 
2.43.0


From 90eedbe4b391a6a75dc024d6f395428ed96242c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 07/19] fix: LDL regexes rejected '!(a)' and '!!a'

With NOT* the LALR parser had to decide right after the '!' whether it
belonged to a propositional formula or to an LDL formula, and always
took the latter.
---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From dc86252c79f2c78ed1b596c054981246afa3a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 08/19] fix: symbols starting with a reserved word could not be
 parsed

E.g. 'trueish', 'ttl' or 'last_one' were split into the keyword and the
rest. A keyword must not be followed by characters that continue a
symbol.
---
 docs/grammars.md                      | 16 ++++++++--------
 pylogics_modalities/parsers/ltl.lark  |  8 ++++----
 pylogics_modalities/parsers/pl.lark   |  4 ++--
 pylogics_modalities/parsers/pltl.lark |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index cfcc35f..7773f74 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -35,8 +35,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -118,11 +118,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -190,8 +190,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..68bb6dd 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index b7e6d73..8c6d771 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -24,8 +24,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..8da840f 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -43,8 +43,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 3cda563b66d3e36ee84a542ae204f0a02b230a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 09/19] fix: building a formula while another thread resets the
 cache raised KeyError

The context was looked up twice, so a reset_cache() in between left the
second lookup without the entry of the logic.
---
 pylogics_modalities/syntax/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 36598ff..038473b 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -68,12 +68,11 @@ class _HashConsing(Hashable):
             PylogicsError,
         )
         instance = cast(Formula, super().__call__(*args, **kwargs))
-        cached_instance = cls._context.setdefault(instance.logic, {}).get(
-            instance, None
-        )
+        context = cls._context.setdefault(instance.logic, {})
+        cached_instance = context.get(instance, None)
         if cached_instance is None:
             # cache the instance.
-            cls._context[instance.logic][instance] = None
+            context[instance] = None
             cached_instance = instance
         return cached_instance
 
-- 
2.43.0


From fb48411744f27fbe27bdf9f2ce79e556b9269481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 10/19] fix: And/Or accepted operands of different logics

The check was called without the operands, compared a logic with a
formula, and did not raise the documented PylogicsError.
---
 pylogics_modalities/syntax/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 038473b..e37abec 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -373,7 +373,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic()
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -433,10 +433,11 @@ class _MonotoneBinaryOp(_MetaOp):
         )
         if len(filtered_operands) == 0:
             return
-        logic = filtered_operands[0]
+        logic = filtered_operands[0].logic
         enforce(
             all(sub_formula.logic == logic for sub_formula in filtered_operands),
             message="operands do not belong to the same logic",
+            exception_cls=PylogicsError,
         )
 
 
-- 
2.43.0


From 2133218611480229a1c5a4fb8719d62a91813d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 11/19] fix: operators accepted operands of formalisms they
 exclude

The check of ALLOWED_LOGICS/FORBIDDEN_LOGICS was inverted and ran for the
boolean connectives only, on their first operand. 'Test' takes an LDL
formula and 'Star' a regular expression.
---
 pylogics_modalities/syntax/base.py | 88 +++++++++++++++++-------------
 pylogics_modalities/syntax/ldl.py  |  3 +-
 2 files changed, 51 insertions(+), 40 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index e37abec..12bb725 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -117,25 +117,56 @@ class _MetaOp(_HashConsing):
 
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
-        cls._check_not_forbidden_formalism(*operands)
+        enforce(len(operands) >= 1, "expected at least one operand.")
+        cls._check_operands_same_logic(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
-    def _check_not_forbidden_formalism(cls, *operands):
-        """Check operands belong to same formalism."""
-        enforce(len(operands) >= 1, "expected at least one operand.")
-        logic = operands[0].logic
-        allowed = getattr(cls, "ALLOWED_LOGICS", None)
-        forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
-        if allowed is not None:
-            forbidden = []
+    @classmethod
+    def _check_operands_same_logic(mcs, *operands: Formula):
+        """
+        Check that the operands belong to the same logic.
+
+        TrueFormula and FalseFormula are not considered.
+
+        :param operands: the sequence of operands.
+        :return: None
+        :raises: PylogicsError: if the check fails.
+        """
+        filtered_operands = [
+            operand
+            for operand in operands
+            if isinstance(operand, Formula)
+            and not isinstance(operand, (TrueFormula, FalseFormula))
+        ]
+        if len(filtered_operands) == 0:
+            return
+        logic = filtered_operands[0].logic
+        enforce(
+            all(sub_formula.logic == logic for sub_formula in filtered_operands),
+            message="operands do not belong to the same logic",
+            exception_cls=PylogicsError,
+        )
+
+
+def _check_formalisms(cls, *operands: Formula):
+    """
+    Check that an operator accepts the formalisms of its operands.
 
-        is_logic_allowed = allowed is not None and logic in allowed
-        is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
-            raise ValueError(
-                f"error during instantiation of class {cls.__name__}: "
-                f"found operand belonging to logic {logic}, which is forbidden"
-            )
+    :param cls: the class of the operator.
+    :param operands: the operands.
+    :raises: ValueError: if the formalism of some operand is not accepted.
+    """
+    for operand in operands:
+        if cls.ALLOWED_LOGICS is not None:
+            accepted = operand.logic in cls.ALLOWED_LOGICS
+        else:
+            accepted = operand.logic not in (cls.FORBIDDEN_LOGICS or ())
+        enforce(
+            accepted,
+            f"error during instantiation of class {cls.__name__}: "
+            f"found operand belonging to logic {operand.logic}, which is forbidden",
+            exception_cls=ValueError,
+        )
 
 
 class _BinaryOp(Formula):
@@ -172,6 +203,7 @@ class _BinaryOp(Formula):
             "some argument is not an instance of 'Formula'",
             exception_cls=ValueError,
         )
+        _check_formalisms(type(self), *operands)
         self._operands = list(operands)
 
     @property
@@ -237,6 +269,7 @@ class _UnaryOp(Formula, ABC):
             "argument is not an instance of 'Formula'",
             exception_cls=ValueError,
         )
+        _check_formalisms(type(self), arg)
         super().__init__()
         self._arg = arg
 
@@ -417,29 +450,6 @@ class _MonotoneBinaryOp(_MetaOp):
 
         return new_operands
 
-    @classmethod
-    def _check_operands_same_logic(mcs, *operands: Formula):
-        """
-        Check that the operands belong to the same logic.
-
-        TrueFormula and FalseFormula are not considered.
-
-        :param operands: the sequence of operands.
-        :return: None
-        :raises: PylogicsError: if the check fails.
-        """
-        filtered_operands = list(
-            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
-        )
-        if len(filtered_operands) == 0:
-            return
-        logic = filtered_operands[0].logic
-        enforce(
-            all(sub_formula.logic == logic for sub_formula in filtered_operands),
-            message="operands do not belong to the same logic",
-            exception_cls=PylogicsError,
-        )
-
 
 class _CommutativeBinaryOp(_BinaryOp):
     """Commutative binary operator."""
diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index fef870b..8138ea7 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -92,13 +92,14 @@ class Test(_UnaryOp, _RegularExpression):
     """Test of an LDL formula."""
 
     SYMBOL = "test"
-    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
+    ALLOWED_LOGICS: Set[Logic] = {Logic.LDL}
 
 
 class Star(_UnaryOp, _RegularExpression):
     """Kleene star of regular expressions."""
 
     SYMBOL = "star"
+    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
 
 class Prop(_UnaryOp, _RegularExpression):
-- 
2.43.0


From 8ef19fc266e048a6aae98c1ee0e541d8a28ca888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 12/19] fix: natural deduction rules did not check the
 connective

E.g. and-elimination derived a from 'a | b', and or-introduction derived
'a & b' from a.
---
 pylogics_modalities/deduction/fol/nd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..f1c7824 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,11 +139,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
@@ -181,6 +181,8 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
+        if not isinstance(formula, Not) or not isinstance(args[1], Not):
+            return False
         return str(formula.argument >> args[1].argument) == str(args[0])
 
     def _check_justification_neg_e(self, formula, *args):
@@ -202,11 +204,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From 89901ea4b9cae73931a1198742511c5e1e7b5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 13/19] fix: natural deduction ignored or crashed on bad line
 references

References to missing or out-of-scope lines were dropped, so the
remaining ones took their place or an IndexError was raised; lines of
the wrong kind raised as well. Such a proof is not correct.
---
 pylogics_modalities/deduction/fol/nd.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index f1c7824..e294d15 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -120,10 +120,23 @@ class NaturalDeduction(AbstractDeductionSystem):
         for row, content, justiﬁcation in proof:
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
-                args = [sound[i] for i in justiﬁcation[1:] if i in sound]
                 if rule not in self.check_justification:
                     return False
-                if self.check_justification[rule](content, *args) == False:
+                if any(i not in sound for i in justiﬁcation[1:]):
+                    return False  # cited line does not exist or is out of scope
+                args = [sound[i] for i in justiﬁcation[1:]]
+                try:
+                    valid = self.check_justification[rule](content, *args)
+                except (
+                    AssertionError,
+                    AttributeError,
+                    IndexError,
+                    PylogicsError,
+                    TypeError,
+                    ValueError,
+                ):
+                    valid = False  # cited lines are too few or of the wrong kind
+                if not valid:
                     return False
             elif isinstance(content, list):
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
-- 
2.43.0


From c67c72d5c140617a646b75b587dff2b6a6989ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 14/19] fix: natural deduction let assumptions go undischarged

An assumption was accepted anywhere, although only the first line of a
box is discharged, and forall-introduction accepted a box that assumes
something about its term.
---
 pylogics_modalities/deduction/fol/nd.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e294d15..384085b 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -115,11 +115,21 @@ class NaturalDeduction(AbstractDeductionSystem):
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
         # )
 
+        in_box = sound is not None
         sound = sound if sound else {}
 
-        for row, content, justiﬁcation in proof:
+        for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
+                # an assumption can only open a box (possibly after a term),
+                # and premises cannot depend on the assumption of a box.
+                opens_box = in_box and (
+                    index == 0 or (index == 1 and isinstance(proof[0][1], Term))
+                )
+                if rule == self.rule.assumption and not opens_box:
+                    return False
+                if rule == self.rule.premise and in_box:
+                    return False
                 if rule not in self.check_justification:
                     return False
                 if any(i not in sound for i in justiﬁcation[1:]):
@@ -273,6 +283,11 @@ class NaturalDeduction(AbstractDeductionSystem):
         a, phi_x_a = args[0][0][1], args[0][-1][1]
         if not isinstance(a, Term):
             return False
+        if any(
+            isinstance(content, Formula) and justification[0] == self.rule.assumption
+            for _, content, justification in args[0]
+        ):
+            return False  # the term must be arbitrary
         x, phi = formula.variable, formula.formula
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
-- 
2.43.0


From 8ca576e5a8c9f0c078b2292e293ac50596170a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 15/19] fix: natural deduction missed occurrences of the term
 of a box

Formulas are compared by their names, but the freshness of the term of a
box was checked by identity, so a second object with the same name went
unnoticed. The term could also be compound, or stay in the formula
obtained by forall-introduction.
---
 pylogics_modalities/deduction/fol/nd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 384085b..5fd8f2a 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -149,6 +149,8 @@ class NaturalDeduction(AbstractDeductionSystem):
                 if not valid:
                     return False
             elif isinstance(content, list):
+                if isinstance(content[0][1], Function):
+                    return False  # a compound term is not arbitrary
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
                     return False  # Term occurs outside its assumption
                 if self.check_proof(content, {i: sound[i] for i in sound}) == False:
@@ -239,7 +241,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_term(self, t: Term, *args):
         for x in args:
-            if t == x:
+            if isinstance(x, Term) and str(t) == str(x):
                 return True
             if 'argument' in dir(x) and self._find_term(t, x.argument):
                 return True
@@ -289,6 +291,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         ):
             return False  # the term must be arbitrary
         x, phi = formula.variable, formula.formula
+        if str(a) != str(x) and self._find_term(a, formula):
+            return False  # Term occurs outside its box
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
     def _check_justification_forall_e(self, formula, *args):
@@ -321,6 +325,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, Term):
+            return False
         if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From 6fecf92cfd0f57dc68ff0a45379e5e231162f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 16/19] fix: natural deduction could not instantiate nested
 quantifiers

Substitution under a quantifier raised AttributeError, and could not
instantiate with a variable. It compares terms by name, like the rest of
the checker, reaches equivalences, and refuses to capture a variable.
---
 pylogics_modalities/deduction/fol/nd.py | 28 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 5fd8f2a..1c9cfb7 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -253,6 +253,9 @@ class NaturalDeduction(AbstractDeductionSystem):
         diffset = set()
         if type(x) != type(y):
             diffset = diffset | {(x, y)}
+        elif isinstance(x, (Variable, Constant)):
+            if str(x) != str(y):
+                diffset = diffset | {(x, y)}
         elif 'argument' in dir(x):
             diffset = diffset | self._find_diff(x.argument, y.argument)
         elif 'operands' in dir(x):
@@ -263,17 +266,24 @@ class NaturalDeduction(AbstractDeductionSystem):
                     diffset = diffset | self._find_diff(a, b)
         return diffset
 
+    def _find_instances(self, x: Variable, phi: Formula, phi_x_a: Formula):
+        """Find the distinct terms that take the place of x."""
+        diffs = self._find_diff(phi, phi_x_a)
+        return list({str(n): n for m, n in diffs if str(m) == str(x)}.values())
+
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if isinstance(formula, Term) and str(formula) == str(x):
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
-            if formula.variable == x:
+            if str(formula.variable) == str(x) or not self._find_term(x, formula.formula):
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            if self._find_term(formula.variable, a):
+                raise PylogicsError(f"{a} is not free for {x} in {formula}")
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
@@ -300,10 +310,10 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(args[0], ForAll):
             return False
         x, phi = args[0].variable, args[0].formula
-        a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        a = self._find_instances(x, phi, formula)
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
@@ -312,7 +322,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, Exists):
             return False
         x, phi = formula.variable, formula.formula
-        a = [n for m, n in self._find_diff(phi, args[0]) if m == x]
+        a = self._find_instances(x, phi, args[0])
         if len(a) > 1:
             return False
         a = a[0] if a else x
-- 
2.43.0


From 9e9dd3f3ff64ee1f12ae0aaf8d72e77a601ca565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 17/19] fix: connectives checked their operands only after
 simplifying

Implies(a, ff, b_of_another_logic), And(a, ff, 'x') and And over regular
expressions with a constant yielded a formula instead of an error, since the
offending operand was simplified away before the operands were checked.
---
 pylogics_modalities/syntax/base.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 12bb725..72fd64a 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -118,9 +118,26 @@ class _MetaOp(_HashConsing):
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
         enforce(len(operands) >= 1, "expected at least one operand.")
-        cls._check_operands_same_logic(*operands)
+        cls._check_operands(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
+    def _check_operands(cls, *operands: Formula):
+        """
+        Check the operands, before any of them is simplified away.
+
+        :param operands: the sequence of operands.
+        :raises: ValueError: if some operand is not a formula, or it is a formula
+            of a formalism that the operator does not accept.
+        :raises: PylogicsError: if the operands do not belong to the same logic.
+        """
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+        cls._check_operands_same_logic(*operands)
+        _check_formalisms(cls, *operands)
+
     @classmethod
     def _check_operands_same_logic(mcs, *operands: Formula):
         """
@@ -406,7 +423,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic(*args)
+        cls._check_operands(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -531,6 +548,7 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands(*args)
         operands = cls._simplify_operands(*args)
         if len(operands) == 0:
             raise ValueError("cannot accept zero arguments")
@@ -579,6 +597,7 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands(*args)
         operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
         if len(operands) == 1:
-- 
2.43.0


From 65da40d3462828ca89102a6c5f9db6eb220eec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 18/19] fix: operands of a predicate could be changed from
 outside

The list given to the constructor was stored as it is, and the property
'operands' returned it: changing either changed the formula, and all
predicates built without operands shared one list.
---
 pylogics_modalities/syntax/fol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..1451b6f 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -127,7 +127,7 @@ class Predicate(_FOL):
 
     def __init__(self, name: str, operands: list = []):
         self._name = name
-        self._operands = operands
+        self._operands = list(operands)
 
     @property
     def name(self) -> str:
@@ -137,7 +137,7 @@ class Predicate(_FOL):
     @property
     def operands(self) -> list:
         """Get the operands of the predicate."""
-        return self._operands
+        return list(self._operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self._operands),
-- 
2.43.0


From 2c746f66f5b8b4a3c86854e63bd4027803942d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 19/19] fix: formulas built before the first reset were never
 released

Every formula class kept its own reference to the first table of formulas, so
resetting the tables never released what was built before the first reset.
---
 pylogics_modalities/syntax/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 72fd64a..7835d9c 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -54,12 +54,6 @@ class _HashConsing(Hashable):
 
     _context: Dict[Logic, Dict["Formula", None]] = {}
 
-    def __new__(mcs, *args, **kwargs):
-        """Instantiate a new class."""
-        instance = super().__new__(mcs, *args, **kwargs)
-        instance.__context = mcs._context
-        return instance
-
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
         enforce(
-- 
2.43.0

