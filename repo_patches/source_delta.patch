From 5b32ceca3a98dd36bcada595cd5ef8f351296ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:18 +0000
Subject: [PATCH 01/51] fix: make the Decision and Effect constants read-only

The convenience instances Decision.PERMIT, Effect.DENY, ... override
_setValue() to be read-only, but the inherited 'value' property stayed bound
to the base class setter, so assigning response.results[0].decision.value
silently changed the constant, and every later decision, process wide.
---
 ndg/xacml/core/context/result.py | 16 ++++++++++++++--
 ndg/xacml/core/rule.py           |  8 +++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..7f2099a 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,7 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -421,12 +421,15 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue,
+                     doc="Decision value (read-only)")
+
 
 class DenyDecision(Decision):
     """Deny authorisation Decision"""
@@ -442,6 +445,9 @@ class DenyDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue,
+                     doc="Decision value (read-only)")
+
 
 class IndeterminateDecision(Decision):
     """Indeterminate authorisation Decision"""
@@ -457,6 +463,9 @@ class IndeterminateDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue,
+                     doc="Decision value (read-only)")
+
 
 class NotApplicableDecision(Decision):
     """NotApplicable authorisation Decision"""
@@ -471,6 +480,9 @@ class NotApplicableDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+
+    value = property(fget=Decision._getValue, fset=_setValue,
+                     doc="Decision value (read-only)")
     
     
 # Add instances of each for convenience
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..76ea1f7 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,7 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -160,6 +160,9 @@ class PermitEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue,
+                     doc="Effect value (read-only)")
+
 
 class DenyEffect(Effect):
     """Deny authorisation Effect"""
@@ -175,6 +178,9 @@ class DenyEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue,
+                     doc="Effect value (read-only)")
+
 # Add instances of each for convenience
 Effect.PERMIT = PermitEffect()
 Effect.DENY = DenyEffect()
-- 
2.43.0


From aff3a4cf7d0f1298b7994d8fe62cfc74f23fd8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:18 +0000
Subject: [PATCH 02/51] fix: raise the documented TypeError comparing a
 Decision or Effect with another type

__eq__ referred to an unassigned local in the error path, giving
UnboundLocalError instead.
---
 ndg/xacml/core/context/result.py | 3 ++-
 ndg/xacml/core/rule.py           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 7f2099a..a8a6e7f 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -404,7 +404,8 @@ class Decision(object):
             
         else:
             raise TypeError('Expecting string or Decision instance for '
-                            'input decision value; got %r instead' % type(value))
+                            'input decision value; got %r instead' %
+                            type(decision))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable decision types are %r; got '
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 76ea1f7..147981d 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -129,7 +129,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' %
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From 83cdcd5b80b3c855b9da5d5e5a8b7a54d666039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 03/51] fix: a condition that doesn't yield a boolean must not
 count as true

The result of the condition's expression was tested for truth, so a false
xs:boolean attribute value (e.g. from boolean-one-and-only), any string and
any non-empty bag all made the rule apply. Unwrap boolean attribute values and
raise an error (Indeterminate) for any other type.
---
 ndg/xacml/core/condition.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ndg/xacml/core/condition.py b/ndg/xacml/core/condition.py
index fde03c8..3a7e341 100644
--- a/ndg/xacml/core/condition.py
+++ b/ndg/xacml/core/condition.py
@@ -10,6 +10,8 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core import XacmlCoreBase
+from ndg.xacml.core.attributevalue import AttributeValue
+from ndg.xacml.core.context.exceptions import XacmlContextTypeError
 from ndg.xacml.core.expression import Expression
 
 
@@ -66,7 +68,19 @@ class Condition(XacmlCoreBase):
         @return: True/False status for whether the rule condition matched or
         not
         @rtype: bool
+        @raise XacmlContextTypeError: the expression didn't yield a boolean
         """
         result = self.expression.evaluate(context)
         
+        # Functions such as boolean-one-and-only return a boolean attribute
+        # value object rather than a native bool
+        if (isinstance(result, AttributeValue) and
+            result.dataType == AttributeValue.BOOLEAN_TYPE_URI):
+            result = result.value
+
+        if not isinstance(result, bool):
+            raise XacmlContextTypeError('Expecting boolean result for '
+                                        'condition expression; got %r' %
+                                        type(result))
+
         return result
\ No newline at end of file
-- 
2.43.0


From 1fb3d0efab56ba5bb48ee7313ab06cbc80b6fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 04/51] fix: a match function that doesn't yield a boolean must
 not count as a match

A Match element naming e.g. string-concatenate or string-bag matched every
attribute value, because the function's result was only tested for truth.
---
 ndg/xacml/core/match.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index de267f2..fd67614 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -19,7 +19,8 @@ from ndg.xacml.core.attributeselector import AttributeSelector
 from ndg.xacml.core.functions import (FunctionMap, functionMap,
                                       UnsupportedStdFunctionError,
                                       UnsupportedFunctionError)
-from ndg.xacml.core.context.exceptions import XacmlContextError
+from ndg.xacml.core.context.exceptions import (XacmlContextError,
+                                               XacmlContextTypeError)
 
 
 class MatchBase(XacmlCoreBase):
@@ -324,6 +325,12 @@ class MatchBase(XacmlCoreBase):
             attrMatchStatusValues[i] = matchFunction.evaluate(
                                                          matchAttributeValue,
                                                          requestAttributeValue)
+            if not isinstance(attrMatchStatusValues[i], bool):
+                raise XacmlContextTypeError('Expecting boolean result for '
+                                            'match function %r; got %r' %
+                                            (self.matchId,
+                                             type(attrMatchStatusValues[i])))
+
             if log.getEffectiveLevel() <= logging.DEBUG:
                 if attrMatchStatusValues[i] == True:
                     log.debug('Target attribute value %r matches request '
-- 
2.43.0


From 3cfd03918d8f216b8d77968ea393d7ee77ae54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 05/51] fix: TypedList.extend() and += lost the items of a
 one-shot iterator

Checking the types consumed the iterator, so nothing was added: e.g. the
attributes of a policy information point which returns a generator were
dropped.
---
 ndg/xacml/utils/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..d12b721 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -85,12 +85,13 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
-        for i in iter:
+        items = list(iter)
+        for i in items:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
                                 (self.__elementType,))
                 
-        return super(TypedList, self).extend(iter)
+        return super(TypedList, self).extend(items)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
@@ -98,12 +99,13 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
-        for i in iter:
+        items = list(iter)
+        for i in items:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
                                 (self.__elementType,))
                     
-        return super(TypedList, self).__iadd__(iter)
+        return super(TypedList, self).__iadd__(items)
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From e8452be0f7ebca66740673ed28ca9d8ba81340f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 06/51] fix: VettedDict.get() ignored its default argument

---
 ndg/xacml/core/functions/__init__.py | 2 +-
 ndg/xacml/utils/__init__.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 0a62e6e..f151eba 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -749,7 +749,7 @@ class FunctionMap(VettedDict):
         @return: function class
         @rtype: ndg.xacml.core.functions.AbstractFunction / NotImplemented
         """
-        functionClass = VettedDict.get(self, key, *arg)
+        functionClass = VettedDict.get(self, key)
         if functionClass is None:
             self.loadFunction(key)
             return VettedDict.get(self, key, *arg)    
diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index d12b721..3bc4ae6 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -242,9 +242,9 @@ class VettedDict(MutableMapping):
         if key in self.__map:
             return self.__map[key]
         
-        elif len(arg) > 1:
+        elif len(arg) > 0:
             # Default value set
-            return arg[1]
+            return arg[0]
         else:
             return None
           
-- 
2.43.0


From 97e08c114e4066b7cf87c5159082bd663c17cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 07/51] fix: RestrictedKeyNamesDict.update() failed to format
 its KeyError message

An unknown key gave TypeError: not enough arguments for format string.
---
 ndg/xacml/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 3bc4ae6..dee1cd7 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -154,7 +154,7 @@ class RestrictedKeyNamesDict(dict):
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
         
-- 
2.43.0


From e8214992121bb2ed4ec08b727a4098ed9f3884ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 08/51] fix: UniqList.extend() and += let in duplicates within
 the input

---
 ndg/xacml/utils/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index dee1cd7..199395d 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -25,15 +25,16 @@ class UniqList(list):
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        for i in iter:
+            self.append(i)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        self.extend(iter)
+        return self
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From 3d6898542006bc2013e3e8bf9484dc3ca988bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 09/51] fix: check the item type for TypedList insert, item
 assignment and construction

Only append(), extend() and += were checked, so e.g. request.subjects could be
given items of any type by the other list operations.
---
 ndg/xacml/utils/__init__.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 199395d..19d6359 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -61,7 +61,8 @@ class TypedList(list):
         contain.  If more than one type, pass as a tuple
         """
         self.__elementType = elementType
-        super(TypedList, self).__init__(*arg, **kw)
+        super(TypedList, self).__init__()
+        self.extend(list(*arg, **kw))
 
     def __repr__(self):
         """@return: represent instance giving type information about the 
@@ -120,6 +121,40 @@ class TypedList(list):
     
         return super(TypedList, self).append(item)
 
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: position to insert before
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if not isinstance(item, self.__elementType):
+                raise TypeError("List items must be of type %s" % 
+                                (self.__elementType,))
+    
+        return super(TypedList, self).insert(index, item)
+
+    def __setitem__(self, index, item):
+        """Replace an item, or the items of a slice
+        @param index: position or slice to replace
+        @type index: int/slice
+        @param item: replacement item, or iterable of items for a slice
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if isinstance(index, slice):
+            item = items = list(item)
+        else:
+            items = [item]
+
+        for i in items:
+            if not isinstance(i, self.__elementType):
+                raise TypeError("List items must be of type %s" % 
+                                (self.__elementType,))
+
+        return super(TypedList, self).__setitem__(index, item)
+
 
 class RestrictedKeyNamesDict(dict):
     """Utility class for holding a constrained list of key names
-- 
2.43.0


From 2ff9d61333478482e1b247680eb256ed7d491e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 10/51] fix: Request parsing used Element.getchildren(),
 removed from the standard library's ElementTree

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..cde71f0 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if len(list(getElementChildren(elem))) == 0:
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From ada50603790eb5e47ea49955d5b74fc82209a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 11/51] fix: serialising a Result with a ResourceId raised
 AttributeError

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cde71f0..a4d4562 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -512,7 +512,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From 8bbd6fb9698fdb98e58bf8f51ea512c6b87f82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 12/51] fix: lxml context elements were given the namespace
 prefix as an XML attribute

---
 ndg/xacml/parsers/etree/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..a0644b7 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -26,7 +26,7 @@ if Config.use_lxml:
         """Makes an ElementTree element handling namespaces in the way
         appropriate for the ElementTree implementation in use.
         """
-        elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, attrib, **extra)
+        elem = ElementTree.Element(tag, attrib, {ns_prefix: ns_uri}, **extra)
         return elem
 
     def serialiseIfElementTree(obj):
-- 
2.43.0


From 8044e85aeb48cc9233d82d9eca317b3970c5c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 13/51] fix: AttributeValue elements were created with their
 tag for namespace URI

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index a4d4562..d53b2ae 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -384,7 +384,7 @@ class AttributeElementTree(Attribute):
                                  Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME))
             valueElem = etree.makeEtreeElement(valueTag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-                               Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME)
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
             valueElem.text = attributeValue.value
             elem.append(valueElem)
             ### TODO AttributeValue is a sequence of xs:any with xs:anyAttribute
-- 
2.43.0


From 3f5ce75f900ce10a93be92722cf577e365901594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 14/51] fix: serialising a Subject lost its SubjectCategory

---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index d53b2ae..75df709 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -141,6 +141,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From e7b6a9503380f762492a281cf27913895d48e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 15/51] fix: serialising a request moved its ResourceContent
 out of the parsed request

---
 ndg/xacml/parsers/etree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 75df709..e987682 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -209,7 +210,9 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # Copy so that the content isn't moved out of the tree it's in
+            # (lxml elements have a single parent)
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0


From 2514c1910c9c1679ec50992d1365ada5b3d308b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 16/51] fix: the result of a request context error was dropped
 from the response

---
 ndg/xacml/core/policybase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/policybase.py b/ndg/xacml/core/policybase.py
index 5dd5bee..8c1eea1 100644
--- a/ndg/xacml/core/policybase.py
+++ b/ndg/xacml/core/policybase.py
@@ -117,7 +117,7 @@ class PolicyBase(XacmlCoreBase, metaclass=ABCMeta):
                       e.response.results[0].decision,
                       traceback.format_exc())
 
-            result = e.response.results[0]
+            response.results[0] = e.response.results[0]
 
         return response
 
-- 
2.43.0


From a193c0347fd0b161b3ccea2a33ecf42cc53d4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 17/51] fix: reading the description of a rule without one
 raised AttributeError

---
 ndg/xacml/core/rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 147981d..dc07415 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -227,6 +227,7 @@ class Rule(XacmlCoreBase):
     def __init__(self):
         """Initialise attributes"""
         super(Rule, self).__init__()
+        self.__description = None
         
         self.__id = None
         self.__effect = None
-- 
2.43.0


From d686ff76d14d88f6eefc5b09986e53a98abee920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 18/51] fix: parsing a policy replaced ElementTree's namespace
 map, undoing registrations made meanwhile

---
 ndg/xacml/parsers/etree/reader.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ndg/xacml/parsers/etree/reader.py b/ndg/xacml/parsers/etree/reader.py
index c2e7c80..37fcf95 100644
--- a/ndg/xacml/parsers/etree/reader.py
+++ b/ndg/xacml/parsers/etree/reader.py
@@ -12,10 +12,9 @@ __revision__ = "$Id$"
 import logging
 log = logging.getLogger(__name__)
 
-from ndg.xacml import Config, importElementTree
+from ndg.xacml import importElementTree
 ElementTree = importElementTree()
 
-from ndg.xacml.core import XacmlPolicyBase
 from ndg.xacml.parsers import AbstractReader
 
 
@@ -27,7 +26,7 @@ class ETreeAbstractReader(AbstractReader):
     TYPE = None
     
     def __init__(self):
-        """Initialise ElementTree namespace map for XACML 2.0 namespaces
+        """Check the XACML type to instantiate is set
         
         @raise NotImplementedError: TYPE class variable must be set in a 
         derived class
@@ -35,16 +34,7 @@ class ETreeAbstractReader(AbstractReader):
         if self.__class__.TYPE is None:
             raise NotImplementedError('No "TYPE" class variable set to specify '
                                       'the XACML type to instantiate')
-            
-        if not Config.use_lxml:
-            self.__namespace_map_backup = ElementTree._namespace_map.copy()
-            ElementTree._namespace_map[''] = XacmlPolicyBase.XACML_2_0_POLICY_NS
-        
-    def __del__(self):
-        """Restore original global namespace map"""
-        if not Config.use_lxml:
-            ElementTree._namespace_map = self.__namespace_map_backup
-    
+
     @staticmethod
     def _parse(obj):
         """Parse helper method
-- 
2.43.0


From 3434c0fa77d6633e33162530f9ad814884af292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 19/51] fix: policies with environment matches or designators
 couldn't be parsed

---
 .../environmentattributedesignatorreader.py   | 17 ++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 22 +++++++++++++++++++
 2 files changed, 39 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..5f4a02f
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,17 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__license__ = "BSD - see LICENSE file in top-level directory"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase):
+    '''ElementTree based XACML Environment Attribute Designator type parser
+
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..bd40fd3
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,22 @@
+"""NDG XACML ElementTree based reader for EnvironmentMatch type
+
+NERC DataGrid
+"""
+__license__ = "BSD - see LICENSE file in top-level directory"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: type
+
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type of attribute designator that this
+    match type holds
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
-- 
2.43.0


From 4637a09b9584f91ae7a179254868f6754e490eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 20/51] fix: with lxml a comment or processing instruction cut
 short the text read from a policy or request

---
 ndg/xacml/parsers/etree/__init__.py             | 14 ++++++++++++++
 ndg/xacml/parsers/etree/attributevaluereader.py |  6 +++---
 ndg/xacml/parsers/etree/context.py              |  7 ++++---
 ndg/xacml/parsers/etree/policydefaultsreader.py | 10 ++++++----
 ndg/xacml/parsers/etree/policyreader.py         |  8 +++++---
 ndg/xacml/parsers/etree/policysetreader.py      | 12 +++++++-----
 ndg/xacml/parsers/etree/rulereader.py           |  8 +++++---
 7 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index a0644b7..b453f13 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -66,7 +66,21 @@ def getElementChildren(element):
             continue
         yield childElem
 
+def getElementText(element):
+    """Text content of an element up to any first child element.  With lxml,
+    comments and processing instructions are nodes which end the text attribute
+    of their parent, the text that follows them being their tail.
 
+    @return: text or None if there isn't any
+    @rtype: string / None
+    """
+    text = element.text
+    for childElem in element:
+        if isinstance(childElem.tag, str):
+            break
+        if childElem.tail is not None:
+            text = (text or '') + childElem.tail
+    return text
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
     """Extend ElementTree implementation for improved attribute access support
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 08903c1..2c3f3f8 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,11 +90,11 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
-        if elem.text is None:
+        if getElementText(elem) is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
                                 AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME) 
             
-        attributeValue.value = elem.text
+        attributeValue.value = getElementText(elem)
 
         
 class ETreeDataTypeReaderClassMap(VettedDict):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index e987682..fae880b 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -29,7 +29,8 @@ from ndg.xacml.core.context.result import Decision, Result
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 
 
 class RequestElementTree(Request):
@@ -430,7 +431,7 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                attributeValue = AttributeValueClass(getElementText(childElem))
                 attribute.attributeValues.append(attributeValue)
 
             else:
@@ -611,6 +612,6 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
-        decision.value = elem.text
+        decision.value = getElementText(elem)
 
         return decision
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index b4b4ba0..72f7e73 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -11,7 +11,8 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -44,17 +45,18 @@ class PolicyDefaultsReader(ETreeAbstractReader):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
-        if len(elem) != 1:
+        childElems = list(getElementChildren(elem))
+        if len(childElems) != 1:
             raise XMLParseError('Expecting a single child element for '
                                 'PolicyDefaults element')
             
-        if (QName.getLocalPart(elem[0].tag) != 
+        if (QName.getLocalPart(childElems[0].tag) !=
             xacmlType.XPATH_VERSION_ELEMENT_NAME):
             raise XMLParseError('Expecting a %r child element for '
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = elem[0].text 
+        xpathVersion = getElementText(childElems[0])
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 1031de4..5615726 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.rule import Rule
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
     
@@ -104,8 +105,9 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policy.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policy.description = description.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..a2a423c 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -88,8 +89,9 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policySet.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policySet.description = description.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
@@ -122,7 +124,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
-                policyIdReference = childElem.text
+                policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
 
@@ -132,7 +134,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
-                policySetIdReference = childElem.text
+                policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 5fdcce6..3822e64 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -13,7 +13,8 @@ from ndg.xacml.core.rule import Rule, Effect
 from ndg.xacml.core.condition import Condition
 from ndg.xacml.core.target import Target
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                      getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -66,8 +67,9 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    rule.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
                 ConditionReader = ReaderFactory.getReader(Condition)
-- 
2.43.0


From b758ec092f8774b8cff1fad514b28c15b46c82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 21/51] fix: policy sets with a PolicySetDefaults element
 couldn't be parsed

---
 ndg/xacml/core/policydefaults.py                | 1 +
 ndg/xacml/parsers/etree/policydefaultsreader.py | 3 ++-
 ndg/xacml/parsers/etree/policysetreader.py      | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/policydefaults.py b/ndg/xacml/core/policydefaults.py
index 19f33a2..e664d49 100644
--- a/ndg/xacml/core/policydefaults.py
+++ b/ndg/xacml/core/policydefaults.py
@@ -24,6 +24,7 @@ class PolicyDefaults(XacmlCoreBase):
     @type __xpathVersion: basestring / NoneType
     """
     ELEMENT_LOCAL_NAME = 'PolicyDefaults'
+    POLICY_SET_ELEMENT_LOCAL_NAME = 'PolicySetDefaults'
     XPATH_VERSION_ELEMENT_NAME = 'XPathVersion'
     
     __slots__ = ('__xpathVersion', )
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index 72f7e73..bdcd620 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -41,7 +41,8 @@ class PolicyDefaultsReader(ETreeAbstractReader):
         policyDefaults = xacmlType()
         
         localName = QName.getLocalPart(elem.tag)
-        if localName != xacmlType.ELEMENT_LOCAL_NAME:
+        if localName not in (xacmlType.ELEMENT_LOCAL_NAME,
+                             xacmlType.POLICY_SET_ELEMENT_LOCAL_NAME):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index a2a423c..bf1f5f9 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -95,7 +95,7 @@ class PolicySetReader(ETreeAbstractReader):
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
-                policySet.policyDefaults = PolicyDefaultsReader.parse(childElem,
+                policySet.policySetDefaults = PolicyDefaultsReader.parse(childElem,
                                                                       common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
-- 
2.43.0


From c7a28bd421b61b21225f74e79ab484c1bc75cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 22/51] fix: loading a policy from a stream or element, or
 references relative to a relative policy path, failed

---
 ndg/xacml/finder/defaultfinder.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..87cbe03 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -27,11 +27,14 @@ def getDefaultPolicyFinder(source):
     # The base path defaults to the location of the source policy if this can be
     # deduced.
     basePath = None
-    if isinstance(source, str):
-        if os.path.exists(source):
-            basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+    if isinstance(source, (str, os.PathLike)):
+        path = os.fspath(source)
+    else:
+        # The name of an open file is its path; other sources have no name or
+        # one that isn't a string (a file opened from a descriptor)
+        path = getattr(source, 'name', None)
+    if isinstance(path, str) and os.path.exists(path):
+        # Absolute so that it's valid in a file URL
+        basePath = os.path.dirname(os.path.abspath(path))
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From f7915e8cd0b94edbdf1b92fbeaeed519c9bd2bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 23/51] fix: unrecognised Condition and Match child elements
 raised AttributeError instead of XMLParseError

---
 ndg/xacml/parsers/etree/conditionreader.py | 5 ++---
 ndg/xacml/parsers/etree/matchreader.py     | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/parsers/etree/conditionreader.py b/ndg/xacml/parsers/etree/conditionreader.py
index 1692223..8745db4 100644
--- a/ndg/xacml/parsers/etree/conditionreader.py
+++ b/ndg/xacml/parsers/etree/conditionreader.py
@@ -61,9 +61,8 @@ class ConditionReader(ETreeAbstractReader):
         if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:
             condition.expression = ApplyReader.parse(subElem, common)
         else:
-            raise XMLParseError('Expecting %r Condition sub-element not '
-                                'recognised' %
-                                xacmlType.EXPRESSION_ELEMENT_LOCAL_NAME)
+            raise XMLParseError('Condition sub-element %r not recognised' %
+                                subElemlocalName)
             
         
    
diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 9470afc..f1ee494 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -116,7 +116,7 @@ class MatchReaderBase(ETreeAbstractReader):
             else:
                 raise XMLParseError("XACML %r child element name %r not "
                                     "recognised" % 
-                                    (xacmlType.MATCH_TYPE.ELEMENT_LOCAL_NAME,
+                                    (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
                     
         return match
-- 
2.43.0


From 389dcc18ecda4ee4594ed61f07428618c44a3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 24/51] fix: a rejected algorithm, match or function Id was
 kept with the function of the previous one

---
 ndg/xacml/core/apply.py     |  9 +++++++--
 ndg/xacml/core/match.py     |  9 +++++++--
 ndg/xacml/core/policy.py    | 13 ++++++-------
 ndg/xacml/core/policyset.py | 13 ++++++-------
 4 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/ndg/xacml/core/apply.py b/ndg/xacml/core/apply.py
index b43637b..aeef78e 100644
--- a/ndg/xacml/core/apply.py
+++ b/ndg/xacml/core/apply.py
@@ -98,11 +98,16 @@ class Apply(Expression):
             raise TypeError('Expecting %r type for "functionId" '
                             'attribute; got %r' % (str, type(value)))
             
-        self.__functionId = value
+        previous, self.__functionId = self.__functionId, value
         
         # Also retrieve function for this function ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Keep the Id consistent with the function
+                self.__functionId = previous
+                raise
 
     functionId = property(_get_functionId, _set_functionId, None, 
                           "Apply type Function ID") 
diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index fd67614..3e5a66a 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -177,11 +177,16 @@ class MatchBase(XacmlCoreBase):
             raise TypeError('Expecting string type for "matchId" '
                             'attribute; got %r' % type(value))
             
-        self.__matchId = value
+        previous, self.__matchId = self.__matchId, value
         
         # Also retrieve function for this match ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Keep the Id consistent with the function
+                self.__matchId = previous
+                raise
 
     matchId = property(_getMatchId, _setMatchId, None, 
                        "Match identifier for match function")
diff --git a/ndg/xacml/core/policy.py b/ndg/xacml/core/policy.py
index caaf380..f91bd4b 100644
--- a/ndg/xacml/core/policy.py
+++ b/ndg/xacml/core/policy.py
@@ -255,12 +255,11 @@ class Policy(PolicyBase):
             raise TypeError('Expecting string type for "ruleCombiningAlgId" '
                             'attribute; got %r' % type(value))
             
+        self._setRuleCombiningAlgFromId(value)
         self.__ruleCombiningAlgId = value
-        self._setRuleCombiningAlgFromId()
         
-    def _setRuleCombiningAlgFromId(self):
-        """Set the rule combining algorithm implementation from the Id set in
-        __ruleCombiningAlgId the attribute
+    def _setRuleCombiningAlgFromId(self, ruleCombiningAlgId):
+        """Set the rule combining algorithm implementation from the input Id
         
         @raise TypeError: incorrect input type
         @raise UnsupportedStdFunctionError: no implementation is avaliable for
@@ -270,7 +269,7 @@ class Policy(PolicyBase):
         """
         # Look-up rule combining algorithm
         ruleCombiningAlgClass = self.__ruleCombiningAlgFactory(
-                                                    self.__ruleCombiningAlgId)
+                                                    ruleCombiningAlgId)
         if (not isinstance(ruleCombiningAlgClass, type) or 
             not issubclass(ruleCombiningAlgClass, RuleCombiningAlgInterface)):
             raise TypeError('Expecting %r derived type for rule combining '
@@ -281,12 +280,12 @@ class Policy(PolicyBase):
         if self.__ruleCombiningAlg is NotImplemented:
             raise UnsupportedStdFunctionError('The rule combining algorithm %r '
                                               'is not currently implemented' % 
-                                              self.__ruleCombiningAlgId)
+                                              ruleCombiningAlgId)
             
         elif self.__ruleCombiningAlg is None:
             raise UnsupportedFunctionError('%r is not recognised as a valid '
                                            'XACML rule combining algorithm' % 
-                                           self.__ruleCombiningAlgId) 
+                                           ruleCombiningAlgId) 
 
     ruleCombiningAlgId = property(_getRuleCombiningAlgId, 
                                   _setRuleCombiningAlgId, None, 
diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 7cc9030..9b0dc75 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -246,12 +246,11 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting string type for "policyCombiningAlgId" '
                             'attribute; got %r' % type(value))
 
+        self._setPolicyCombiningAlgFromId(value)
         self.__policyCombiningAlgId = value
-        self._setPolicyCombiningAlgFromId()
 
-    def _setPolicyCombiningAlgFromId(self):
-        """Set the policy combining algorithm implementation from the Id set in
-        __policyCombiningAlgId the attribute
+    def _setPolicyCombiningAlgFromId(self, policyCombiningAlgId):
+        """Set the policy combining algorithm implementation from the input Id
 
         @raise TypeError: incorrect input type
         @raise UnsupportedStdFunctionError: no implementation is avaliable for
@@ -261,7 +260,7 @@ class PolicySet(PolicyBase):
         """
         # Look up policy combining algorithm
         policyCombiningAlgClass = self.__policyCombiningAlgFactory(
-                                                    self.__policyCombiningAlgId)
+                                                    policyCombiningAlgId)
         if (not isinstance(policyCombiningAlgClass, type) or
             not issubclass(policyCombiningAlgClass,
                            PolicyCombiningAlgInterface)):
@@ -274,12 +273,12 @@ class PolicySet(PolicyBase):
         if self.__policyCombiningAlg is NotImplemented:
             raise UnsupportedStdFunctionError('The policy combining algorithm '
                                               '%r is not currently implemented'
-                                               % self.__policyCombiningAlgId)
+                                               % policyCombiningAlgId)
 
         elif self.__policyCombiningAlg is None:
             raise UnsupportedFunctionError('%r is not recognised as a valid '
                                            'XACML policy combining algorithm' %
-                                           self.__policyCombiningAlgId)
+                                           policyCombiningAlgId)
 
     policyCombiningAlgId = property(_getPolicyCombiningAlgId,
                                     _setPolicyCombiningAlgId, None,
-- 
2.43.0


From 56239711fdeddec986b038d793385e2b3e7b96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 25/51] fix: PolicySet.fromSource couldn't parse any policy set

---
 ndg/xacml/core/policyset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 9b0dc75..82ad95d 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -14,7 +14,9 @@ import logging
 log = logging.getLogger(__name__)
 
 from ndg.xacml.utils import TypedList
+from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
 from ndg.xacml.parsers import AbstractReaderFactory, AbstractReader
+from ndg.xacml.parsers.common import Common
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.target import Target
@@ -155,7 +157,10 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting %r derived class for reader class; '
                             'got %r' % (AbstractReader, reader))
 
-        return reader.parse(source)
+        finder = getDefaultPolicyFinder(source)
+        # References may be to policies as well as to policy sets
+        finder.setReader(readerFactory.getReader(PolicyBase))
+        return reader.parse(source, Common(finder))
 
     def _getPolicyCombiningAlgFactory(self):
         """
-- 
2.43.0


From 34d470869ecc17710badeed9546d1db60305e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 26/51] fix: Result.createInitialised ignored its resource Id

---
 ndg/xacml/core/context/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index a8a6e7f..c1ef8b3 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -557,6 +557,8 @@ class Result(XacmlContextBase):
         result = cls()
         result.decision = Decision()
         result.decision.value = decision
+        if resourceId:
+            result.resourceId = resourceId
         result.status = Status.createInitialised(**kw)
         
         if obligations is not None:
-- 
2.43.0


From e37334a37bd3fa8a368426d1472e0754d0d8a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 27/51] fix: callModuleObject left the module file path on the
 system path

---
 ndg/xacml/utils/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index 86572d7..f7cf0c5 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -102,7 +102,7 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
                                   moduleFilePath)
                           
                 # Temporarily extend system path ready for import
-                sysPathBak = sys.path
+                sysPathBak = sys.path[:]
                           
                 sys.path.append(moduleFilePath)
 
-- 
2.43.0


From c33cbbb3e7cdd3685e7a9062a69c8facd1598ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 28/51] fix: raise the documented TypeError comparing an
 obligation Effect with another type

---
 ndg/xacml/core/obligation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index 13c6f7f..a1b915f 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -130,7 +130,7 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From 67d7defaace5490c2e69b4e2ae60e13a55a0348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 29/51] fix: an empty string attribute value in a request was
 read as no value

---
 ndg/xacml/parsers/etree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index fae880b..2fdc36e 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -431,7 +431,10 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(getElementText(childElem))
+                text = getElementText(childElem)
+                if text is None and issubclass(AttributeValueClass.TYPE, str):
+                    text = ''
+                attributeValue = AttributeValueClass(text)
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


From d781ece0a60ca490dfd5aad94fa4e768e710ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 30/51] fix: with lxml a comment cut short the text found by an
 attribute selector

---
 ndg/xacml/utils/xpath_selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index f8d7bc9..9c67be8 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -10,6 +10,7 @@ __revision__ = "$Id$"
 from abc import ABCMeta, abstractmethod
 
 from ndg.xacml import Config, importElementTree
+from ndg.xacml.parsers.etree import getElementText
 ElementTree = importElementTree()
 
 class XPathSelectorInterface(object, metaclass=ABCMeta):
@@ -70,7 +71,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(m.text)
+                    returnList.append(getElementText(m))
                 else:
                     returnList.append(m.__str__())
             return returnList
-- 
2.43.0


From e2e1c3e7d19462bfe5ea7b64ee1b934808e41c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 31/51] fix: the implemented function url-string-concatenate
 could be overwritten by a custom one

---
 ndg/xacml/core/functions/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index f151eba..8dd21e7 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -193,6 +193,7 @@ class XacmlFunctionNames(object):
 'urn:oasis:names:tc:xacml:1.0:function:rfc822Name-bag',
 'urn:oasis:names:tc:xacml:2.0:function:string-concatenate',
 'urn:oasis:names:tc:xacml:2.0:function:uri-string-concatenate',
+'urn:oasis:names:tc:xacml:2.0:function:url-string-concatenate',
 'urn:oasis:names:tc:xacml:1.0:function:any-of',
 'urn:oasis:names:tc:xacml:1.0:function:all-of',
 'urn:oasis:names:tc:xacml:1.0:function:any-of-any',
-- 
2.43.0


From 4d772b6348619eb22f0aa0222df2590183a44215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 32/51] fix: with ElementTree an attribute selector found an
 element twice where its path has several //

---
 ndg/xacml/utils/xpath_selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 9c67be8..96a3b0a 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -90,5 +90,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 relPath = '.' + path
             else:
                 relPath = path
-            elems = self.contextElem.findall(relPath)
+            # findall can find an element several times where a path has more
+            # than one '//'
+            elems = dict.fromkeys(self.contextElem.findall(relPath))
             return [e.text for e in elems]
-- 
2.43.0


From ed2a5ad1a31c356083608cd41bf37ba65ab99870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 33/51] fix: prettyPrint didn't escape markup characters in
 text and attributes

---
 ndg/xacml/utils/etree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 2401f81..eb0722f 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -27,6 +27,7 @@ except ImportError:
     warnings.warn(c14nWarning)
     
 from io import StringIO
+from xml.sax.saxutils import escape, quoteattr
 
 
 def canonicalize(elem, **kw):
@@ -98,7 +99,7 @@ class _PrettyPrint(object):
         else:
             # just in case the elem is another simple type - e.g. int - 
             # wrapper it as a string
-            return str(elem).strip()
+            return escape(str(elem).strip())
         
     def __call__(self, elem, indent='', html=0, space=' '*4):
         '''Most of the work done in this wrapped function - wrapped so that
@@ -128,7 +129,8 @@ class _PrettyPrint(object):
                     nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix,attrNamespace)
                     self.declaredNss.append(attrNamespace)
                 
-            strAttribs.append('%s %s="%s"' % (nsDeclaration, attr, attrVal))
+            strAttribs.append('%s %s=%s' % (nsDeclaration, attr, 
+                                            quoteattr(str(attrVal))))
             
         strAttrib = ''.join(strAttribs)
         
-- 
2.43.0


From d1844c850023db72856cc4d6ef21bdf67059f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 34/51] fix: xmlns of a Target, Match or Obligation couldn't be
 read before it was set

---
 ndg/xacml/core/match.py      | 1 +
 ndg/xacml/core/obligation.py | 1 +
 ndg/xacml/core/target.py     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index 3e5a66a..f6bc0c6 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -74,6 +74,7 @@ class MatchBase(XacmlCoreBase):
         """Initial attributes corresponding to the equivalent XACML schema type
         and also create a function map to map functions from MatchIds
         """
+        super(MatchBase, self).__init__()
         self.__attributeValue = None
          
         # Either/or in schema
diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index a1b915f..50bfe71 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -166,6 +166,7 @@ class Obligation(XacmlCoreBase):
     
     def __init__(self):
         """Initialise attributes"""
+        super(Obligation, self).__init__()
         self.__attributeAssignments = TypedList(AttributeAssignment)
         self.__obligationId = None
         self.__fulfillOn = None
diff --git a/ndg/xacml/core/target.py b/ndg/xacml/core/target.py
index 30d962a..dbc9205 100644
--- a/ndg/xacml/core/target.py
+++ b/ndg/xacml/core/target.py
@@ -62,6 +62,7 @@ class Target(XacmlCoreBase):
     
     def __init__(self):
         """Initial attributes"""
+        super(Target, self).__init__()
         self.__subjects = TypedList(Subject)
         self.__resources = TypedList(Resource)
         self.__actions = TypedList(Action)
-- 
2.43.0


From 22b00b6f023846629f3fed8bfe2f6be93a73a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 35/51] fix: restore an empty module search path after a module
 import

---
 ndg/xacml/utils/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index f7cf0c5..ac58f61 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -115,7 +115,7 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
             # revert back to original sys path, if necessary
             # NB, python requires the use of a try/finally OR a try/except 
             # block - not both combined
-            if sysPathBak:
+            if sysPathBak is not None:
                 sys.path = sysPathBak
                             
     except Exception as e:
-- 
2.43.0


From b9ee761b57bf61eee2081094781f3838470a6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 36/51] fix: keep text between child elements when pretty
 printing

---
 ndg/xacml/utils/etree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index eb0722f..b335bc1 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -153,14 +153,18 @@ class _PrettyPrint(object):
         
         children = len(elem)
         if children:
+            tail = ''
             for child in elem:
+                if tail:
+                    # Text between child elements
+                    result += '\n%s%s' % (indent + space, tail)
+
                 declaredNss = self.declaredNss[:]
                 _prettyPrint = _PrettyPrint(declaredNss, self.mappedPrefixes)
                 result += '\n'+ _prettyPrint(child, indent=indent+space) 
+                tail = _PrettyPrint.estrip(child.tail)
                 
-            result += '\n%s%s</%s>' % (indent,
-                                     _PrettyPrint.estrip(child.tail),
-                                     tag)
+            result += '\n%s%s</%s>' % (indent, tail, tag)
         else:
             result += '</%s>' % tag
             
-- 
2.43.0


From 714fbb7ad86b1e63b66060ecfe7ae4b9223f4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 37/51] fix: pretty print documents with comments or processing
 instructions

---
 ndg/xacml/utils/etree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index b335bc1..a02dc28 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -159,9 +159,13 @@ class _PrettyPrint(object):
                     # Text between child elements
                     result += '\n%s%s' % (indent + space, tail)
 
-                declaredNss = self.declaredNss[:]
-                _prettyPrint = _PrettyPrint(declaredNss, self.mappedPrefixes)
-                result += '\n'+ _prettyPrint(child, indent=indent+space) 
+                # Leave out comments and processing instructions
+                if isinstance(child.tag, str):
+                    declaredNss = self.declaredNss[:]
+                    _prettyPrint = _PrettyPrint(declaredNss,
+                                                self.mappedPrefixes)
+                    result += '\n'+ _prettyPrint(child, indent=indent+space) 
+
                 tail = _PrettyPrint.estrip(child.tail)
                 
             result += '\n%s%s</%s>' % (indent, tail, tag)
-- 
2.43.0


From 1fae3daa057b9fbcd71d8e04d9f7137458a45800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 38/51] fix: declare every namespace prefix used when pretty
 printing

---
 ndg/xacml/utils/etree.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index a02dc28..38252f7 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -46,6 +46,9 @@ def canonicalize(elem, **kw):
     return f.getvalue()
 
 
+XML_NS = 'http://www.w3.org/XML/1998/namespace'
+
+
 def prettyPrint(*arg, **kw):
     '''Lightweight pretty printing of ElementTree elements.  This function
     wraps the PrettyPrint class
@@ -56,8 +59,9 @@ def prettyPrint(*arg, **kw):
     @type kw: dict
     '''
     
-    # Keep track of namespace declarations made so they're not repeated
-    declaredNss = []
+    # Keep track of namespace declarations made - prefix to namespace URI - so 
+    # they're not repeated
+    declaredNss = {'xml': XML_NS}
     if not Config.use_lxml:
         mappedPrefixes = dict.fromkeys(list(ElementTree._namespace_map.values()), True)
         namespace_map_backup = ElementTree._namespace_map.copy()
@@ -125,9 +129,9 @@ class _PrettyPrint(object):
                 
                 attr = "%s:%s" % (nsPrefix, QName.getLocalPart(attr))
                 
-                if attrNamespace not in self.declaredNss:
+                if self.declaredNss.get(nsPrefix) != attrNamespace:
                     nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix,attrNamespace)
-                    self.declaredNss.append(attrNamespace)
+                    self.declaredNss[nsPrefix] = attrNamespace
                 
             strAttribs.append('%s %s=%s' % (nsDeclaration, attr, 
                                             quoteattr(str(attrVal))))
@@ -139,14 +143,13 @@ class _PrettyPrint(object):
             
         tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
         
-        # Put in namespace declaration if one doesn't already exist
-        # FIXME: namespace declaration handling is wrong for handling child
-        # element scope
-        if namespace in self.declaredNss:
+        # Put in namespace declaration if this prefix isn't already declared for 
+        # it in this scope
+        if self.declaredNss.get(nsPrefix) == namespace:
             nsDeclaration = ''
         else:
             nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix, namespace)
-            self.declaredNss.append(namespace)
+            self.declaredNss[nsPrefix] = namespace
             
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
                                    _PrettyPrint.estrip(elem.text))
@@ -161,7 +164,7 @@ class _PrettyPrint(object):
 
                 # Leave out comments and processing instructions
                 if isinstance(child.tag, str):
-                    declaredNss = self.declaredNss[:]
+                    declaredNss = self.declaredNss.copy()
                     _prettyPrint = _PrettyPrint(declaredNss,
                                                 self.mappedPrefixes)
                     result += '\n'+ _prettyPrint(child, indent=indent+space) 
@@ -176,6 +179,10 @@ class _PrettyPrint(object):
 
     if Config.use_lxml:
         def _getNamespacePrefix(self, elem, namespace):
+            # The "xml" prefix is never declared
+            if namespace == XML_NS:
+                return 'xml'
+
             for nsPrefix, ns in elem.nsmap.items():
                 if ns == namespace:
                     return nsPrefix
-- 
2.43.0


From f5f4877b994824116c0adf5b8f06200f13cfa7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 39/51] fix: pretty print elements without a namespace

---
 ndg/xacml/utils/etree.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 38252f7..c1654a6 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -139,18 +139,21 @@ class _PrettyPrint(object):
         strAttrib = ''.join(strAttribs)
         
         namespace = QName.getNs(elem.tag)
-        nsPrefix = self._getNamespacePrefix(elem, namespace)
-            
-        tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
-        
-        # Put in namespace declaration if this prefix isn't already declared for 
-        # it in this scope
-        if self.declaredNss.get(nsPrefix) == namespace:
+        if not namespace:
+            tag = elem.tag
             nsDeclaration = ''
         else:
-            nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix, namespace)
-            self.declaredNss[nsPrefix] = namespace
-            
+            nsPrefix = self._getNamespacePrefix(elem, namespace)
+            tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
+
+            # Put in namespace declaration if this prefix isn't already declared
+            # for it in this scope
+            if self.declaredNss.get(nsPrefix) == namespace:
+                nsDeclaration = ''
+            else:
+                nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix, namespace)
+                self.declaredNss[nsPrefix] = namespace
+
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
                                    _PrettyPrint.estrip(elem.text))
         
-- 
2.43.0


From ebf32fb2c9a2682cd957c214a479a1af71e6768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 40/51] fix: copy and pickle all of the state of attributes,
 subjects and statuses

---
 ndg/xacml/core/__init__.py  | 27 +++++++++++++++++++--------
 ndg/xacml/core/attribute.py |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ndg/xacml/core/__init__.py b/ndg/xacml/core/__init__.py
index 5726142..539d40b 100644
--- a/ndg/xacml/core/__init__.py
+++ b/ndg/xacml/core/__init__.py
@@ -108,16 +108,27 @@ class XacmlCoreBase(object):
         @return: object's attribute dictionary
         @rtype: dict
         '''
-        _dict = {}
-        for attrName in XacmlCoreBase.__slots__:
-            # Ugly hack to allow for derived classes setting private member
-            # variables
-            if attrName.startswith('__'):
-                attrName = "_XacmlCoreBase" + attrName
-                
-            _dict[attrName] = getattr(self, attrName)
+        _dict = dict(getattr(self, '__dict__', {}))
+        for _class in self.__class__.__mro__:
+            for attrName in _class.__dict__.get('__slots__', ()):
+                # Ugly hack to allow for derived classes setting private member
+                # variables
+                if attrName.startswith('__'):
+                    attrName = "_" + _class.__name__.lstrip('_') + attrName
+
+                if hasattr(self, attrName):
+                    _dict[attrName] = getattr(self, attrName)
             
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Explicit implementation needed with __slots__
+        
+        @param attrDict: object's attribute dictionary
+        @type attrDict: dict
+        '''
+        for attrName, val in list(attrDict.items()):
+            setattr(self, attrName, val)
             
 
 class XacmlPolicyBase(XacmlCoreBase):
diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 936c531..7fe1eb3 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -146,7 +146,7 @@ class Attribute(XacmlCoreBase):
         @return: class instance attributes dictionary
         @rtype: dict
         '''
-        _dict = {}
+        _dict = super(Attribute, self).__getstate__()
         for attrName in Attribute.__slots__:
             # Ugly hack to allow for derived classes setting private member
             # variables
-- 
2.43.0


From 751f79c46d1675f4eaffcbf5c5bddc9882f1688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 41/51] fix: pickle attribute values

---
 ndg/xacml/core/attributevalue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attributevalue.py b/ndg/xacml/core/attributevalue.py
index 81b6dd5..04bb9b1 100644
--- a/ndg/xacml/core/attributevalue.py
+++ b/ndg/xacml/core/attributevalue.py
@@ -279,11 +279,15 @@ class AttributeValueClassFactory(object):
         _identifier = AttributeValue.TYPE_URI_MAP[_typeName]
     
         _className = _typeName + AttributeValue.CLASS_NAME_SUFFIX               
-        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier}
+        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier,
+                      '__module__': __name__}
         
         _attributeValueClass = type(_className, (AttributeValue, ), _classVars)
         AttributeValue.register(_attributeValueClass)
         IDENTIFIER2CLASS_MAP[_identifier] = _attributeValueClass
+
+        # Pickling needs to find the class by name in its module
+        globals()[_className] = _attributeValueClass
     
     del _typeName, _type, _identifier, _className, _classVars, \
         _attributeValueClass
-- 
2.43.0


From 45c1611a1414aa39d4096e456889f4a226cbd635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 42/51] fix: copy and pickle typed lists

---
 ndg/xacml/utils/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 19d6359..5abf577 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -72,6 +72,16 @@ class TypedList(list):
         return "%r type: %s" % (self.__elementType, 
                                 super(TypedList, self).__repr__())
         
+    def __reduce__(self):
+        """Enable pickling and copying: the element type is needed before any
+        items are added
+        
+        @return: callable, its arguments, state and items
+        @rtype: tuple
+        """
+        return (self.__class__, (self.__elementType,), self.__dict__,
+                iter(self))
+
     def _getElementType(self):
         """@return: the element type for this list
         @rtype: type
-- 
2.43.0


From 771ab9f968f17662f4c097a26afcd0e381419ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 43/51] fix: pickle requests read with lxml

---
 ndg/xacml/core/context/request.py   | 15 +++++++++++++++
 ndg/xacml/parsers/etree/__init__.py |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/context/request.py b/ndg/xacml/core/context/request.py
index 55b6420..fb0c034 100644
--- a/ndg/xacml/core/context/request.py
+++ b/ndg/xacml/core/context/request.py
@@ -20,6 +20,7 @@ from ndg.xacml.core.context.action import Action
 from ndg.xacml.core.context.environment import Environment
 from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
 from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
+import ndg.xacml.parsers.etree as etree
 
 
 class Request(XacmlContextBase):
@@ -184,5 +185,19 @@ class Request(XacmlContextBase):
                 attrName = "_Request" + attrName
                 
             _dict[attrName] = getattr(self, attrName)
+
+        # The element may be of a type which doesn't support pickling
+        for attrName, value in list(_dict.items()):
+            _dict[attrName] = etree.serialiseIfElementTree(value)
             
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Enable pickling
+        
+        @param attrDict: object's attribute dictionary
+        @type attrDict: dict
+        '''
+        super(Request, self).__setstate__(dict(
+            (attrName, etree.deserialiseIfElementTree(value))
+            for attrName, value in attrDict.items()))
diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index b453f13..26f4c38 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -32,7 +32,8 @@ if Config.use_lxml:
     def serialiseIfElementTree(obj):
         if ElementTree.iselement(obj):
             return SerialisedElementTree(ElementTree.tostring(obj,
-                                                              encoding=str))
+                                                              encoding=str,
+                                                              with_tail=False))
         else:
             return obj
     
-- 
2.43.0


From ffb88e92b255784840f6a0b70e608be5e1daaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 44/51] fix: proxy or direct connection decided for each host
 that a redirection leads to

---
 ndg/xacml/utils/urlfetcher.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/urlfetcher.py b/ndg/xacml/utils/urlfetcher.py
index ac973ab..eba64ef 100644
--- a/ndg/xacml/utils/urlfetcher.py
+++ b/ndg/xacml/utils/urlfetcher.py
@@ -65,10 +65,9 @@ def open_url(url, debug=False):
     # Explicitly remove proxy handling if the host is one listed in the value of
     # the no_proxy environment variable because urllib2 does use proxy settings
     # set via http_proxy and https_proxy, but does not take the no_proxy value
-    # into account.
-    if not _should_use_proxy(url):
-        handlers.append(urllib.request.ProxyHandler({}))
-        log.debug("Not using proxy")
+    # into account.  This is decided for each host that is asked since the
+    # answer may be a redirection to another one.
+    handlers.append(_NoProxyAwareProxyHandler())
 
     opener = urllib.request.build_opener(*handlers)
 
@@ -80,6 +79,19 @@ def open_url(url, debug=False):
         raise Exception(exc.__str__())
     return response
 
+class _NoProxyAwareProxyHandler(urllib.request.ProxyHandler):
+    """Proxy handler which leaves alone requests to hosts that are listed in the
+    no_proxy environment variable
+    """
+    def proxy_open(self, req, proxy, type):
+        """Redirect a request to the proxy unless its host is to be asked
+        directly
+        """
+        if not _should_use_proxy(req.full_url):
+            log.debug("Not using proxy")
+            return None
+        return urllib.request.ProxyHandler.proxy_open(self, req, proxy, type)
+
 def _should_use_proxy(url):
     """Determines whether a proxy should be used to open a connection to the
     specified URL, based on the value of the no_proxy environment variable.
-- 
2.43.0


From 77de986fc9b9432b0b523ea671ceea25e4ad490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 45/51] fix: MustBePresent with white space was read as false,
 other texts accepted

---
 ndg/xacml/utils/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 5abf577..161ed67 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -11,8 +11,21 @@ __revision__ = '$Id$'
 from collections.abc import MutableMapping
 
 
-# Interpret a string as a boolean
-str2Bool = lambda str: str.lower() in ("yes", "true", "t", "1")
+def str2Bool(text):
+    """Interpret a string as a boolean
+    @param text: string to convert - white space around it is ignored
+    @type text: string
+    @return: boolean value
+    @rtype: bool
+    @raise ValueError: the string is not a boolean
+    """
+    value = text.strip().lower()
+    if value in ("yes", "true", "t", "1"):
+        return True
+    elif value in ("no", "false", "f", "0"):
+        return False
+    else:
+        raise ValueError('Expecting a boolean, "true" or "false"; got %r' % text)
 
 class UniqList(list):
     """Extended version of list type to enable a list with unique items.
-- 
2.43.0


From 272f8cbab70987e2d301506789300c244e8ab66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 46/51] fix: elements inside an attribute designator or
 selector were ignored

---
 ndg/xacml/parsers/etree/attributedesignatorreader.py | 9 +++++++--
 ndg/xacml/parsers/etree/attributeselectorreader.py   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/parsers/etree/attributedesignatorreader.py b/ndg/xacml/parsers/etree/attributedesignatorreader.py
index 133441e..9c2064a 100644
--- a/ndg/xacml/parsers/etree/attributedesignatorreader.py
+++ b/ndg/xacml/parsers/etree/attributedesignatorreader.py
@@ -11,7 +11,7 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.utils import str2Bool
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 
 
@@ -55,6 +55,11 @@ class AttributeDesignatorReaderBase(ExpressionReader):
         mustBePresent = elem.attrib.get(xacmlType.MUST_BE_PRESENT_ATTRIB_NAME)
         if mustBePresent is not None:
             attributeDesignator.mustBePresent = str2Bool(mustBePresent)
-   
+
+        for childElem in getElementChildren(elem):
+            raise XMLParseError("XACML %r child element name %r not recognised" %
+                                (xacmlType.ELEMENT_LOCAL_NAME,
+                                 QName.getLocalPart(childElem.tag)))
+
         return attributeDesignator
 
diff --git a/ndg/xacml/parsers/etree/attributeselectorreader.py b/ndg/xacml/parsers/etree/attributeselectorreader.py
index 60b7b3d..68d22b0 100644
--- a/ndg/xacml/parsers/etree/attributeselectorreader.py
+++ b/ndg/xacml/parsers/etree/attributeselectorreader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.utils import str2Bool
 from ndg.xacml.core.attributeselector import AttributeSelector
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 
 
@@ -63,7 +63,12 @@ class AttributeSelectorReader(ExpressionReader):
         mustBePresent = elem.attrib.get(xacmlType.MUST_BE_PRESENT_ATTRIB_NAME)
         if mustBePresent is not None:
             attributeSelector.mustBePresent = str2Bool(mustBePresent)
-         
+
+        for childElem in getElementChildren(elem):
+            raise XMLParseError("XACML %r child element name %r not recognised" %
+                                (xacmlType.ELEMENT_LOCAL_NAME,
+                                 QName.getLocalPart(childElem.tag)))
+
         return attributeSelector
 
                 
\ No newline at end of file
-- 
2.43.0


From 652fabe379ce425e5c38e0f02354bf0eab299a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 47/51] fix: matches without a value or without exactly one
 designator or selector were read

---
 ndg/xacml/parsers/etree/matchreader.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index f1ee494..417730c 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -90,6 +90,12 @@ class MatchReaderBase(ETreeAbstractReader):
                                                                   common)
                 
             elif localName == attributeDesignatorType.ELEMENT_LOCAL_NAME:
+                if match.attributeDesignator is not None:
+                    raise XMLParseError("XACML %r element may only have one %r "
+                                        "child element" %
+                                        (xacmlType.ELEMENT_LOCAL_NAME,
+                                         localName))
+
                 if match.attributeSelector is not None:
                     raise XMLParseError("XACML %r child element may only be "
                                         "either a %r or %r element NOT both" %
@@ -101,6 +107,12 @@ class MatchReaderBase(ETreeAbstractReader):
                                                             childElem, common)
                         
             elif localName == AttributeSelector.ELEMENT_LOCAL_NAME:
+                if match.attributeSelector is not None:
+                    raise XMLParseError("XACML %r element may only have one %r "
+                                        "child element" %
+                                        (xacmlType.ELEMENT_LOCAL_NAME,
+                                         localName))
+
                 if match.attributeDesignator is not None:
                     raise XMLParseError("XACML %r child element may only be "
                                         "either a %r or %r element NOT both" %
@@ -118,7 +130,18 @@ class MatchReaderBase(ETreeAbstractReader):
                                     "recognised" % 
                                     (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
-                    
+
+        if match.attributeValue is None:
+            raise XMLParseError("No %r child element found in %r element" %
+                                (xacmlType.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
+        if match.attributeDesignator is None and match.attributeSelector is None:
+            raise XMLParseError("No %r or %r child element found in %r element" %
+                                (attributeDesignatorType.ELEMENT_LOCAL_NAME,
+                                 AttributeSelector.ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
         return match
 
     
-- 
2.43.0


From 34604d346de28690cd1b8930b69a24c1be8a7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 48/51] fix: a second target, condition or section of a target
 was read in place of or besides the first

---
 ndg/xacml/parsers/etree/policyreader.py    | 4 ++++
 ndg/xacml/parsers/etree/policysetreader.py | 4 ++++
 ndg/xacml/parsers/etree/rulereader.py      | 8 ++++++++
 ndg/xacml/parsers/etree/targetreader.py    | 9 ++++++++-
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 5615726..abd7f0a 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -115,6 +115,10 @@ class PolicyReader(ETreeAbstractReader):
                                                                    common)
                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policy.target is not None:
+                    raise XMLParseError("XACML Policy element may only have one %r "
+                                        "child element" % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 policy.target = TargetReader.parse(childElem, common)
              
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index bf1f5f9..c11113f 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -99,6 +99,10 @@ class PolicySetReader(ETreeAbstractReader):
                                                                       common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policySet.target is not None:
+                    raise XMLParseError("XACML PolicySet element may only have one %r "
+                                        "child element" % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 policySet.target = TargetReader.parse(childElem, common)
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 3822e64..83dbbe9 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -72,10 +72,18 @@ class RuleReader(ETreeAbstractReader):
                     rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
+                if rule.condition is not None:
+                    raise XMLParseError("XACML Rule element may only have one %r "
+                                        "child element" % localName)
+
                 ConditionReader = ReaderFactory.getReader(Condition)
                 rule.condition = ConditionReader.parse(childElem, common)
                                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if rule.target is not None:
+                    raise XMLParseError("XACML Rule element may only have one %r "
+                                        "child element" % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 rule.target = TargetReader.parse(childElem, common)
             
diff --git a/ndg/xacml/parsers/etree/targetreader.py b/ndg/xacml/parsers/etree/targetreader.py
index 4f7dc01..9342375 100644
--- a/ndg/xacml/parsers/etree/targetreader.py
+++ b/ndg/xacml/parsers/etree/targetreader.py
@@ -48,9 +48,16 @@ class TargetReader(ETreeAbstractReader):
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
         # Parse sub-elements
+        sections = set()
         for childElem in getElementChildren(elem):
             localName = QName.getLocalPart(childElem.tag)
-            
+
+            # Each section is optional but may only occur once
+            if localName in sections:
+                raise XMLParseError("XACML Target element may only have one %r "
+                                    "child element" % localName)
+            sections.add(localName)
+
             if localName == xacmlType.SUBJECTS_ELEMENT_LOCAL_NAME:
                 for subjElem in getElementChildren(childElem):
                     SubjectReader = ReaderFactory.getReader(Subject)
-- 
2.43.0


From d4a0c06298fe01a9099c27c72773846493b4a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:16 +0000
Subject: [PATCH 49/51] fix: refuse repeated and unknown elements in the
 sections of a request

A second Action, Environment or ResourceContent silently replaced the first
and unknown elements of a Subject, Resource, Action or Environment were
ignored.
---
 ndg/xacml/parsers/etree/context.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 2fdc36e..251cc99 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -110,9 +110,17 @@ class RequestElementTree(Request):
                 request.resources.append(resource)
 
             elif localName == Action.ELEMENT_LOCAL_NAME:
+                if request.action is not None:
+                    raise XMLParseError("XACML context Request may only have "
+                                        "one %r child element" % localName)
+
                 request.action = ActionElementTree.fromXML(childElem)
 
             elif localName == Environment.ELEMENT_LOCAL_NAME:
+                if request.environment is not None:
+                    raise XMLParseError("XACML context Request may only have "
+                                        "one %r child element" % localName)
+
                 request.environment = EnvironmentElementTree.fromXML(childElem)
 
             else:
@@ -178,6 +186,10 @@ class SubjectElementTree(Subject):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 subject.attributes.append(attribute)
+            else:
+                raise XMLParseError("XACML context Subject child element name "
+                                    "%r not recognised" % localName)
+
         return subject
 
 class ResourceElementTree(Resource):
@@ -245,8 +257,16 @@ class ResourceElementTree(Resource):
                 attribute = AttributeElementTree.fromXML(childElem)
                 resource.attributes.append(attribute)
             elif localName == cls.RESOURCE_CONTENT_ELEMENT_LOCAL_NAME:
+                if resource.resourceContent is not None:
+                    raise XMLParseError("XACML context Resource may only have "
+                                        "one %r child element" % localName)
+
                 ### TODO Store resource content as subtree.
                 resource.resourceContent = childElem
+            else:
+                raise XMLParseError("XACML context Resource child element name "
+                                    "%r not recognised" % localName)
+
         return resource
 
 class ActionElementTree(Action):
@@ -300,6 +320,10 @@ class ActionElementTree(Action):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 action.attributes.append(attribute)
+            else:
+                raise XMLParseError("XACML context Action child element name "
+                                    "%r not recognised" % localName)
+
         return action
 
 class EnvironmentElementTree(Environment):
@@ -353,6 +377,10 @@ class EnvironmentElementTree(Environment):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 environment.attributes.append(attribute)
+            else:
+                raise XMLParseError("XACML context Environment child element name "
+                                    "%r not recognised" % localName)
+
         return environment
 
 class AttributeElementTree(Attribute):
-- 
2.43.0


From b07d9aa40360a82d0cb978b84387fc5245e84e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:16 +0000
Subject: [PATCH 50/51] fix: refuse results without exactly one decision

A Result without a Decision was read as an object without decision, of several
the last was taken.
---
 ndg/xacml/parsers/etree/context.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 251cc99..7f7a22a 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -584,10 +584,15 @@ class ResultElementTree(Result):
         if resourceId is not None:
             result.resourceId = resourceId
 
+        decision = None
         for childElem in getElementChildren(elem):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Decision.ELEMENT_LOCAL_NAME:
+                if decision is not None:
+                    raise XMLParseError("XACML context Result may only have "
+                                        "one %r child element" % localName)
+
                 decision = DecisionElementTree.fromXML(childElem)
                 result.decision = decision
             else:
@@ -596,6 +601,11 @@ class ResultElementTree(Result):
 
             ### TODO Handle status and obligations
 
+        if decision is None:
+            raise XMLParseError('No "%s" child element found in "%s" element' %
+                                (Decision.ELEMENT_LOCAL_NAME,
+                                 Result.ELEMENT_LOCAL_NAME))
+
         return result
 
 class DecisionElementTree(Decision):
-- 
2.43.0


From 9017c236936522e7728fec9026607e16272ac779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 51/51] fix: a directory with % or # in its name was taken for
 an URL

References relative to it were looked up in another directory, or not found.
---
 ndg/xacml/finder/urlpolicyfinder.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index 72b8bad..900c69a 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -10,6 +10,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 import os
+from urllib.request import pathname2url
 
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
@@ -121,10 +122,10 @@ class UrlPolicyFinder(PolicyFinderBase):
             if path.startswith(self._RELATIVE_PATH_PREFIX):
                 # Relative path - convert to absolute.
                 path = path[len(self._RELATIVE_PATH_PREFIX):]
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._makeRelativeUrl(path)
             elif not path.startswith(os.path.sep):
                 # Relative path - convert to absolute.
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._makeRelativeUrl(path)
             else:
                 url = reference
         elif [True for scheme in self._NON_FILE_SCHEMES
@@ -135,6 +136,17 @@ class UrlPolicyFinder(PolicyFinderBase):
             if reference.startswith(os.path.sep):
                 url = self._DEFAULT_SCHEME + reference
             else:
-                url = (self._DEFAULT_SCHEME +
-                       os.path.join(self.basePath, reference))
+                url = self._makeRelativeUrl(reference)
         return url
+
+    def _makeRelativeUrl(self, reference):
+        """
+        Makes a file URL from a reference relative to the base path.
+        @param reference: relative reference
+        @type reference: str
+        @return: URL
+        @rtype: str
+        """
+        # The base path is the name of a directory and not part of a URL.
+        return self._FILE_SCHEME + os.path.join(pathname2url(self.basePath),
+                                                reference)
-- 
2.43.0

