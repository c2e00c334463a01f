From 290f21aab48d4d365f977e2ee39f65ce2c255f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 01/62] fix: write MFString fields as strings, not as lists of
 nodes

---
 vrml/vrml97/linearise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index daeac81..3c92366 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -477,6 +477,10 @@ class Lineariser:
             if handler:
                 return handler(anyobj)
             if isinstance(anyobj, list):
+                if not getattr(field, 'nodes', False):
+                    # a list of simple values (e.g. MFString), not of nodes
+                    self.buffer.write(field.vrmlstr(anyobj, self))
+                    return None
                 return self._mfnode(anyobj)
             return self._Node(anyobj)
         except AttributeError:
-- 
2.43.0


From 7a45727800eb68ae573401ea7d22b08be203936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 02/62] fix: write prototypes that have no scenegraph

---
 vrml/vrml97/linearise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 3c92366..398d6e5 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -230,7 +230,7 @@ class Lineariser:
             # references to prototypes not already linearised will cause a recursive
             # call to proto that will write those into the protobuffer before returning
             sg = getSceneGraph(clientNode)
-            if sg is not None:
+            if sg:
                 self._sceneGraph(sg)
             if 'EndComments' in linvalues and linvalues['EndComments'] * 60 < (
                 (buffer.tell())
-- 
2.43.0


From b4e79b59422ab0c781a23ef007855d3537ae0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 03/62] fix: read zero-padded integers as decimal integers

---
 vrml/vrml97/parseprocessor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 670236e..65c09c4 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,14 @@ def getString(*args, **named):
     return as_str(base)
 
 
+def asInteger(text):
+    """Integer value of a VRML97 integer: decimal (even zero-padded) or 0x-hexadecimal"""
+    text = as_str(text)
+    if 'x' in text.lower():
+        return int(text, 16)
+    return int(text, 10)
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
@@ -371,7 +379,7 @@ class ParseProcessor(DispatchProcessor):
 
     def SFInt32(self, table, buffer):
         (tup,) = table
-        return int(getString(tup, buffer), 0)
+        return asInteger(getString(tup, buffer))
 
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -400,13 +408,13 @@ class ParseProcessor(DispatchProcessor):
         # localisation
         if not tuples:
             return []
-        return [int(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [asInteger(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     SFImage = MFInt32
 
     def MFUInt32(self, tuples, buffer):
         # localisation
-        return [long(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [asInteger(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     def MFFloat(self, tuples, buffer):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
-- 
2.43.0


From f98e213bf9554f0387aaa60799647e31b01e69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 04/62] fix: read values of every registered numeric field type

---
 vrml/vrml97/parseprocessor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 65c09c4..978e155 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -381,6 +381,8 @@ class ParseProcessor(DispatchProcessor):
         (tup,) = table
         return asInteger(getString(tup, buffer))
 
+    SFUInt32 = SFInt32
+
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
@@ -392,6 +394,8 @@ class ParseProcessor(DispatchProcessor):
     def SFRotation(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
+    SFVec4f = SFVec2d = SFVec3d = SFVec4d = SFRotation
+
     def SFArray(self, values, buffer, final=True):
         """Process a vector-of-values data-set"""
         result = []
@@ -404,6 +408,8 @@ class ParseProcessor(DispatchProcessor):
             result = array(result, 'f')
         return result
 
+    SFArray32 = SFArray
+
     def MFInt32(self, tuples, buffer):
         # localisation
         if not tuples:
@@ -420,6 +426,8 @@ class ParseProcessor(DispatchProcessor):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     MFColor = MFRotation = MFVec2f = MFVec3f = MFTime = MFFloat32 = MFFloat
+    MFVec4f = MFVec2d = MFVec3d = MFVec4d = MFFloat
+    MFMatrix3f = MFMatrix4f = MFMatrix3d = MFMatrix4d = MFFloat
 
     def MFString(self, tuples, buffer):
         bigresult = []
-- 
2.43.0


From 57c554306f59549f283c6fdb0ec280a841952a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 05/62] fix: write and read array fields without losing values
 or precision

---
 vrml/fieldtypes.py            | 7 ++++++-
 vrml/vrml97/parseprocessor.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5911c56..4898e97 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -636,7 +636,12 @@ class _SFArray(object):
 
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
-        return str(value)
+        if not arrays.shape(value) or arrays.typeCode(value) == 'V':
+            return str(value)
+        separator = _linvalues(lineariser)['subelspacer']
+        return '[%s]' % (
+            separator.join([self.vrmlstr(item, lineariser) for item in value])
+        )
 
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 978e155..825cfdb 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -405,7 +405,7 @@ class ParseProcessor(DispatchProcessor):
             else:
                 result.append(float(buffer[start:stop]))
         if final:
-            result = array(result, 'f')
+            result = array(result, 'd')
         return result
 
     SFArray32 = SFArray
-- 
2.43.0


From 94258061b3556155914e3bf1ddc7a0d1a62e5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 06/62] fix: store MFVec2d values in double precision

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 4898e97..38725bb 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -1055,7 +1055,7 @@ class MFVec2fEvt(
     fieldType = 'MFVec2f'
 
 
-class MFVec2d(_MFVec2f, field.Field):
+class MFVec2d(_MFVec2d, field.Field):
     """MFVec2d Field class"""
 
 
-- 
2.43.0


From e3d3c8263678c1874d707086024612c642185474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 07/62] fix: compare arrays as wholes, so values that partly
 match a default are written

---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 2c765f9..27e2c78 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -75,7 +75,7 @@ def safeCompare(first, second):
     if isinstance(first, (int, float, str)):
         return first == second
     if isinstance(first, ArrayType) and isinstance(second, ArrayType):
-        return bool(any(first == second))
+        return first.shape == second.shape and bool(all(first == second))
     elif type(first) != type(second):
         return False
     return bool(first == second)
-- 
2.43.0


From c9801c99f119fc6c7dcc7092cb279d9e8bbcf5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 08/62] fix: end comments at any line terminator or at the end
 of the file

---
 vrml/vrml97/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 7538e50..27a170c 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -17,7 +17,7 @@ from simpleparse.common import chartypes
 
 #print file
 grammar = r'''
-header         := -[\n]*
+header         := -[\n\r]*
 vrmlFile       := header, vrmlScene, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
@@ -57,7 +57,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-[\n\r]*) )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From ef141417622306f0526ba14861c4e89786442d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 09/62] fix: accept files without any node

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 27a170c..fd88d91 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -18,7 +18,7 @@ from simpleparse.common import chartypes
 #print file
 grammar = r'''
 header         := -[\n\r]*
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, ts, vrmlScene, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-- 
2.43.0


From d50915b6ec20d981bb968f2482a24af56caacfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 10/62] fix: write EXTERNPROTO declarations without default
 values

---
 vrml/field.py            | 7 ++++++-
 vrml/vrml97/linearise.py | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 95b8e09..72dc147 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -283,12 +283,15 @@ class Field(BaseField):
         """Convert the given value to a VRML97 representation"""
         return ""
 
-    def fieldVrmlstr(self, lineariser):
+    def fieldVrmlstr(self, lineariser, requireDefault=1):
         """Write the field's definition to the lineariser
 
         Basically this gives you a VRML97 fragment
         which can be used for creating a PROTO which
         will have the equivalent of this field available.
+
+        requireDefault -- if false, write only the declaration
+            (as is required for an EXTERNPROTO)
         """
         if self.exposure:
             exposed = "exposedField"
@@ -302,6 +305,8 @@ class Field(BaseField):
                 self.name,
             )
         )
+        if not requireDefault:
+            return
         result = self.vrmlstr(
             # coerce is necessary because the
             # default values are often not in
diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 398d6e5..c69b867 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -215,7 +215,8 @@ class Lineariser:
         # write the declaration...
         self._indent()
         self._eventDict(clientNode)
-        self._fieldDict(clientNode, requireDefault=1)  # clientNode.__gi__ == "PROTO")
+        # an EXTERNPROTO only declares its fields, the defaults are external
+        self._fieldDict(clientNode, requireDefault=not externalURL)
         self._dedent()
         linvalues = self.linvalues
         if externalURL:
@@ -418,7 +419,7 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self)
+            field.fieldVrmlstr(self, requireDefault)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From cb3502b57e20add48659e25df1c4620e2ed82a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 11/62] fix: write the values, field mappings and interfaces of
 Scripts and prototypes as they are

---
 vrml/vrml97/linearise.py | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index c69b867..4bb4584 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -328,11 +328,14 @@ class Lineariser:
         self._indent()
         linvalues = self.linvalues
 
-        self._eventDict(getPrototype(clientNode))
+        isMaps = self._isMaps(clientNode)
+        self._eventDict(getPrototype(clientNode), isMaps)
         self._fieldDict(
             getPrototype(clientNode),
             requireDefault=1,
             skipFields=(' DEF', 'url', 'directOutput', 'mustEvaluate'),
+            isMaps=isMaps,
+            client=clientNode,
         )
         self._dedent()
         self._attrDict(clientNode)
@@ -344,19 +347,22 @@ class Lineariser:
         self.alreadydone[id(clientNode)] = startind, buffer.tell()
         return None
 
-    def _attrDict(self, object):
-        """Write out the attribute dictionary for an object"""
-        buffer = self.buffer
-        linvalues = self.linvalues
+    def _isMaps(self, object):
+        """Get field-name: prototype-field-name IS mappings for the object"""
+        isMaps = {}
         if self.curproto:
             set = node.ismaps(self.curproto[-1])
-            isMaps = {}
             for fieldName, fieldList in set.items():
                 for n, field in fieldList:
                     if n is object:
                         isMaps[field] = fieldName
-        else:
-            isMaps = {}
+        return isMaps
+
+    def _attrDict(self, object):
+        """Write out the attribute dictionary for an object"""
+        buffer = self.buffer
+        linvalues = self.linvalues
+        isMaps = self._isMaps(object)
         if protoName(object) == "Script":
             items = [
                 field
@@ -390,7 +396,7 @@ class Lineariser:
                 )
                 self._sffield(val, field)
 
-    def _eventDict(self, clientNode):
+    def _eventDict(self, clientNode, isMaps={}):
         '''
         Event Dictionaries have two possible sources of information,
         the eventDict and the isNames dictionary.  The first provides
@@ -405,21 +411,43 @@ class Lineariser:
         for field in [f for f in fields if (f.name and f.name[0] != ' ')]:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
             field.eventVrmlstr(self)
-            # XXX do IS-mapping here!
+            if field.name in isMaps:
+                buffer.write(' IS %s' % (isMaps[field.name],))
+
+    def _fieldDict(
+        self,
+        clientNode,
+        requireDefault=1,
+        skipFields=('DEF',),
+        isMaps={},
+        client=None,
+    ):
+        """Write out the field declarations of a prototype
 
-    def _fieldDict(self, clientNode, requireDefault=1, skipFields=('DEF',)):
+        client -- if specified, the (Script) node whose current values
+            are to be written instead of the default values
+        """
         buffer = self.buffer
         fields = [
             field
             for field in getFields(clientNode)
             if (
                 (field.name not in skipFields) and field.name and (field.name[0] != ' ')
+                # the URL of an EXTERNPROTO is not part of the interface
+                and field is not node.Node.externalURL
             )
         ]
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self, requireDefault)
+            if field.name in isMaps:
+                field.fieldVrmlstr(self, requireDefault=0)
+                buffer.write('IS %s' % (isMaps[field.name],))
+            elif client is not None:
+                field.fieldVrmlstr(self, requireDefault=0)
+                self._sffield(field.fget(client), field)
+            else:
+                field.fieldVrmlstr(self, requireDefault)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From f015e658732d4d1edea8f2c38451cb0f2a2f6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 12/62] fix: recognise VRML97 keywords only as whole words and
 reject empty names

---
 vrml/vrml97/parser.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index fd88d91..e1fc1d5 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -19,44 +19,46 @@ from simpleparse.common import chartypes
 grammar = r'''
 header         := -[\n\r]*
 vrmlFile       := header, ts, vrmlScene, !, EOF
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
-fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
+Proto          := 'PROTO',kw,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+fieldDecl	   := fieldExposure,kw,ts,!,dataType,ts,name,ts,Field,ts
 fieldExposure  := 'field'/'exposedField'
 dataType       := ('SF'/'MF')?,name
-eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
+eventDecl      := eventDirection,kw, ts, !,dataType, ts, name, ts
 eventDirection := 'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
-extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
+ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+extFieldDecl   := fieldExposure,kw,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO',kw, ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',kw,ts,!,name,ts)?,'Script',kw,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection,kw, ts, !,dataType, ts, name, ts, ('IS',kw, ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,kw,ts,!,dataType,ts,name,ts,(('IS',kw, ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',kw, ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',kw, ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
-name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
+name           := ?-[0-9], -[][{}\000-\020"'#,.\\ ]+
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),kw
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
+# keywords are whole words: no character of a name may follow
+<kw>           := ?[][{}\000-\020"'#,.\\ ]
 <ts>           :=  ( [ \011-\015,]+ / ('#',-[\n\r]*) )*
 '''
 
-- 
2.43.0


From 947a1be76e113f08fced321949076bddcbd4416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 13/62] fix: reject external prototype URLs with unbalanced
 brackets

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index e1fc1d5..25a6542 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -30,7 +30,7 @@ eventDecl      := eventDirection,kw, ts, !,dataType, ts, name, ts
 eventDirection := 'eventIn'/'eventOut'
 ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,kw,ts,!,dataType,ts,name,ts
-ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
+ExtProtoURL    := (('[',ts,(SFString,ts)*,']'!,ts)/(SFString,ts)+)?  # just an MFString by another name :)
 
 ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO',kw, ts, name,'.',name, ts
 
-- 
2.43.0


From 9456d21966f9f7d283deffc212fc5ddac32bdda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 14/62] fix: reject field values of the wrong kind or number
 instead of dropping them

---
 vrml/vrml97/parseprocessor.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 825cfdb..27a6a40 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -354,6 +354,7 @@ class ParseProcessor(DispatchProcessor):
     def Field(self, table, buffer):
         '''A field value (of any type)'''
         (tag, start, stop, sublist) = table
+        self.checkValues(sublist, buffer)
         if sublist and sublist[0][0] in ('USE', 'Script', 'Node', 'SFNull'):
             if self.fieldTypeStack[-1] == 'SFNode':
                 return dispatch(self, sublist[0], buffer)
@@ -366,6 +367,30 @@ class ParseProcessor(DispatchProcessor):
             function = getattr(self, self.fieldTypeStack[-1])
             return function(sublist, buffer)
 
+    def checkValues(self, values, buffer):
+        """Raise an error if values are not of the current field type"""
+        typeName = self.fieldTypeStack[-1]
+        if typeName == 'SFNode':
+            expected = ('USE', 'Script', 'Node', 'SFNull')
+        elif typeName == 'MFNode':
+            expected = ('USE', 'Script', 'Node')
+        elif typeName in ('SFString', 'MFString'):
+            expected = ('SFString',)
+        elif typeName == 'SFBool':
+            expected = ('SFBool',)
+        else:
+            expected = ('SFNumber', 'vector')
+        for index, value in enumerate(values):
+            if value[0] not in expected or (index and typeName == 'SFNode'):
+                raise ValueError(
+                    """Unexpected %s in value of type %s on line %s"""
+                    % (
+                        value[0],
+                        typeName,
+                        lines(end=value[1], buffer=buffer),
+                    )
+                )
+
     def SFBool(self, table, buffer):
         '''Boolean, in Python tradition is either 0 or 1'''
         (tup,) = table
-- 
2.43.0


From bd48f569fb7dbc3adf598c7e00703e1cfc5f7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 15/62] fix: reject prototype and script fields whose default
 does not fit

---
 vrml/vrml97/parseprocessor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 27a6a40..816e105 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -242,15 +242,15 @@ class ParseProcessor(DispatchProcessor):
         self.fieldTypeStack.append(datatype)
         try:
             value = dispatch(self, value, buffer)
-            addField(
-                self.prototypeStack[-1],
-                field.newField(
-                    getString(name, buffer),
-                    datatype,
-                    getString(exposure, buffer) == 'exposedField',
-                    value,
-                ),
+            fieldObject = field.newField(
+                getString(name, buffer),
+                datatype,
+                getString(exposure, buffer) == 'exposedField',
+                value,
             )
+            # a default that does not fit the field is an error here
+            fieldObject.coerce(value)
+            addField(self.prototypeStack[-1], fieldObject)
         finally:
             self.fieldTypeStack.pop()
 
@@ -314,6 +314,7 @@ class ParseProcessor(DispatchProcessor):
                     getString(exposure, buffer) == 'exposedField',
                     value,
                 )
+                fieldObject.coerce(value)
             return (fieldObject, mapName)
         finally:
             self.fieldTypeStack.pop()
-- 
2.43.0


From 00b8c7ed1c523c0df9289d56c08a08505ca3153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 16/62] fix: set all components of a vector field from a single
 number

---
 vrml/fieldtypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 38725bb..0b8d252 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -519,8 +519,9 @@ class _SFVec(object):
         if isinstance(value, (str, unicode)):
             value = [float(x) for x in value.replace(',', ' ').split()]
         if isinstance(value, (int, long, float)):
-            value = arrays.zeros(self.dimension, self.targetType)
-            value[:] = float(value)
+            result = arrays.zeros(self.dimension, self.targetType)
+            result[:] = float(value)
+            value = result
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.targetType)
-- 
2.43.0


From 302dec8f7b2fbede55cd8f6d5ecb5c38b48a0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 17/62] fix: give matrix field values set from sequences the
 shape of the field

---
 vrml/fieldtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 0b8d252..4a7f32b 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -507,8 +507,8 @@ class _SFVec(object):
     def length(self):
         import operator
 
-        self.length = reduce(operator.mul, self.dimension)
-        return self.length
+        self._length = reduce(operator.mul, self.dimension)
+        return self._length
 
     def defaultDefault(self):
         """Default default value for vectors/colours"""
@@ -528,7 +528,7 @@ class _SFVec(object):
             value = value.reshape(self.dimension)
         elif isinstance(value, field.SEQUENCE_TYPES):
             value = arrays.asarray([float(x) for x in collapse(value)], self.targetType)
-            value.reshape(self.dimension)
+            value = value.reshape(self.dimension)
         else:
             try:
                 value = arrays.asarray(value, self.targetType)
@@ -538,7 +538,7 @@ class _SFVec(object):
                     % (self.typeName(), repr(value))
                 )
             else:
-                value.reshape(self.dimension)
+                value = value.reshape(self.dimension)
         if value.shape != self.dimension:
             raise ValueError(
                 """%s value of incorrect shape (is %s, should be %s)"""
-- 
2.43.0


From 1c877bd87ba99140ac75addafd10d7507ff4dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 18/62] fix: accept strings of numbers for array fields

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 4a7f32b..09728b6 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -591,7 +591,7 @@ class _SFArray(object):
         if isinstance(value, (str, unicode)):
             value = [
                 float(x)
-                for x in value.replace(',', ' ').replace('[', ' ').replace(']').split()
+                for x in value.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()
             ]
         if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
             value = list(value)
-- 
2.43.0


From e8dc091ac3286ae4fa64ba41639e524a6c4d9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 19/62] fix: keep a copy of arrays set on fields, so that
 fields do not share them

---
 vrml/fieldtypes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 09728b6..549bcdc 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -396,7 +396,8 @@ class _MFInt32(object):
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.arrayDataType)
-            return arrays.contiguous(arrays.ravel(value))
+            # a copy, so that later changes to the caller's array do not reach the field
+            return arrays.array(arrays.ravel(value))
         elif isinstance(value, field.SEQUENCE_TYPES):
             return arrays.array(
                 [int(obj) for obj in value],
@@ -458,7 +459,8 @@ class _MFFloat(object):
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.targetType)
-            return arrays.contiguous(arrays.ravel(value))
+            # a copy, so that later changes to the caller's array do not reach the field
+            return arrays.array(arrays.ravel(value))
         elif isinstance(value, field.SEQUENCE_TYPES):
             return arrays.array(
                 [float(x) for x in collapse(value)],
@@ -548,8 +550,8 @@ class _SFVec(object):
                     self.dimension,
                 )
             )
-        value = arrays.contiguous(value)
-        return value
+        # a copy, so that later changes to the caller's array do not reach the field
+        return arrays.array(value, order='C')
 
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
@@ -618,8 +620,9 @@ class _SFArray(object):
                 )
         # special casing, again, for explicitly structured arrays
         if not arrays.typeCode(value) == 'V':
-            value = arrays.contiguous(self.reshape(value))
-        return value
+            value = self.reshape(value)
+        # a copy, so that later changes to the caller's array do not reach the field
+        return arrays.array(value, order='C')
 
     def check(self, value):
         """Check that the given value is of exactly the expected type"""
-- 
2.43.0


From 2e32e3dc242882c884300b7019efeb11751c723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 20/62] fix: read #rgb colours as CSS defines them and refuse
 other lengths

---
 vrml/csscolors.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 7e424c4..a3795ff 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -7,7 +7,13 @@ def stringToColor( value ):
         return possible
     if value and value[0] == '#':
         # HTML-style #hex encoding
-        possible = int( value[1:],16)
+        digits = value[1:]
+        if len(digits) == 3:
+            # CSS short form, each digit stands for two
+            digits = ''.join([digit+digit for digit in digits])
+        if len(digits) != 6 or [digit for digit in digits if digit not in '0123456789abcdef']:
+            raise ValueError( """String %(value)r is not of the form #FFF or #FFFFFF"""%locals())
+        possible = int( digits,16)
         return toFloat(possible,16),toFloat(possible,8), toFloat(possible,0)
     else:
         raise ValueError( """String %(value)r couldn't be recognised as a color name, or #FFFFFF style encoding"""%locals())
-- 
2.43.0


From 20ac9baf6495535eb4e3f8d42588104ca83e4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 21/62] fix: give five named colours the components CSS defines

---
 vrml/csscolors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index a3795ff..c061ef7 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -83,10 +83,10 @@ cssColors = {
     'beige' : (0.9608,0.9608,0.8627),
     'lightyellow' : (1.0,1.0,0.8784),
     'lightgoldenrodyellow' : (0.9804,0.9804,0.8235),
-    'darkgoldenrod' : (0.7216,0.7137,0.0431),
+    'darkgoldenrod' : (0.7216,0.5255,0.0431),
     'olive' : (0.502,0.502,0.0),
     'yellow' : (1.0,1.0,0.0),
-    'yellowgreen' : (0.6627,0.8039,0.1961),
+    'yellowgreen' : (0.6039,0.8039,0.1961),
     'olivedrab' : (0.4196,0.5569,0.1373),
     'darkolivegreen' : (0.3333,0.4196,0.1843),
     'greenyellow' : (0.6784,1.0,0.1843),
@@ -124,7 +124,7 @@ cssColors = {
     'powderblue' : (0.6902,0.8784,0.902),
     'lightblue' : (0.6784,0.8471,0.902),
     'deepskyblue' : (0.0,0.749,1.0),
-    'skyblue' : (0.5294,0.8078,0.9294),
+    'skyblue' : (0.5294,0.8078,0.9216),
     'lightskyblue' : (0.5294,0.8078,0.9804),
     'steelblue' : (0.2745,0.5098,0.7059),
     'aliceblue' : (0.9412,0.9725,1.0),
@@ -133,7 +133,7 @@ cssColors = {
     'dodgerblue' : (0.1176,0.5647,1.0),
     'lightsteelblue' : (0.6902,0.7686,0.8706),
     'cornflowerblue' : (0.3922,0.5843,0.9294),
-    'royalblue' : (0.0157,0.0863,0.5647),
+    'royalblue' : (0.2549,0.4118,0.8824),
     'ghostwhite' : (0.9725,0.9725,1.0),
     'lavender' : (0.902,0.902,0.9804),
     'midnightblue' : (0.098,0.098,0.4392),
@@ -163,7 +163,7 @@ cssColors = {
     'hotpink' : (1.0,0.4118,0.7059),
     'lavenderblush' : (1.0,0.9412,0.9608),
     'palevioletred' : (0.8588,0.4392,0.5765),
-    'pink' : (1.0,0.7529,0.8039),
+    'pink' : (1.0,0.7529,0.7961),
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
-- 
2.43.0


From f92badc36beee03c81ab8791ddfb847e0fbca629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 22/62] fix: know named colours in both spellings of grey

---
 vrml/csscolors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index c061ef7..758225f 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -167,6 +167,12 @@ cssColors = {
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
+# CSS allows both spellings of grey
+for _name in list( cssColors ):
+    if 'gray' in _name:
+        cssColors[ _name.replace( 'gray','grey' ) ] = cssColors[ _name ]
+    elif 'grey' in _name:
+        cssColors[ _name.replace( 'grey','gray' ) ] = cssColors[ _name ]
 
 if __name__ == "__main__":
     import unittest
-- 
2.43.0


From 71bb51969484cdaaacf6650e5cd118906145c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 23/62] fix: delete the value when a field is deleted, and tell
 its watchers

---
 accelerate/src/fieldaccel2.pyx |  6 +++++-
 vrml/field.py                  | 17 +++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 9abc0bb..4dba012 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -64,9 +64,13 @@ cdef class BaseField( object ):
     cdef _del(self, client, int notify):
         """Delete the value, with notifications"""
         try:
-            value = client.__dict__.pop( self.name )
+            value = client.__dict__[ self.name ]
         except KeyError as err:
             raise AttributeError( self.name )
+        if isinstance( client, type ):
+            delattr( client, self.name )
+        else:
+            del client.__dict__[ self.name ]
         if notify:
             send(
                 ('del',self), 
diff --git a/vrml/field.py b/vrml/field.py
index 72dc147..2676f8f 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -166,20 +166,25 @@ else:
             return defaultobj
 
         def __delete__(self, client):
-            """Delete our value from client's dictionary"""
+            """Delete our value from client's dictionary (notifies)"""
+            self.fdel(client)
+
+        def fdel(self, client, notify=True):
+            """Delete our value from client's dictionary, with optional notify"""
             try:
-                client.__dict__[self.name]
+                value = client.__dict__[self.name]
             except KeyError:
                 raise AttributeError(self.name)
-
-        def fdel(self, client, notify=True):
-            """Delete with notify"""
-            self.__delete__(client)
+            if isinstance(client, type):
+                delattr(client, self.name)
+            else:
+                del client.__dict__[self.name]
             if notify:
                 dispatcher.send(
                     ('del', self),
                     client,
                 )
+            return value
 
 
 class Field(BaseField):
-- 
2.43.0


From 0531afa3e05c0a185e4aa284398a83d3ccfd9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 24/62] fix: delete items of observable lists, keep them lists,
 and report every removal once it is done

---
 vrml/olist.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index c129852..c86f6fe 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -74,21 +74,20 @@ class OList( list ):
         return value
     def remove( self, item ):
         """Remove this instance from the list"""
-        super(OList,self).remove( item )
-        self._sendRemoved( item )
-        return item
+        return self.pop( self.index( item ))
+    def clear( self ):
+        """Remove all items"""
+        del self[:]
     def __delitem__( self, index ):
-        """Delete a single item"""
+        """Delete a single item or a slice"""
+        current = self[index]
+        super( OList,self ).__delitem__( index )
         if isinstance( index, slice ):
-            current = self.__getitem__( index )
             for value in current:
                 self._sendRemoved( value )
-            super( OList,self ).__delitem__( index )
-            return current 
         else:
-            value = self[index]
-            self._sendRemoved( value )
-        return value
+            self._sendRemoved( current )
+        return current
     def __delslice__( self, i,j):
         return self.__delitem__( slice(i,j))
     def __setitem__( self, index, value ):
@@ -111,16 +110,25 @@ class OList( list ):
             return values 
         else:
             current = self[index]
-            if current is not value:
-                self._sendRemoved( current )
             super( OList,self ).__setitem__( index, value )
             if current is not value:
+                self._sendRemoved( current )
                 self._sendAdded( value )
             return value 
     def __setslice__( self, i,j, iterable ):
         return self.__setitem__( slice(i,j), iterable)
+    def extend( self, iterable ):
+        """Add all items of the iterable"""
+        return self.__setitem__( slice(len(self),len(self)), iterable )
     def __iadd__( self, iterable ):
         """Do an in-place add"""
-        return self.__setitem__( slice(len(self),len(self)), iterable )
-    extend = __iadd__
-    
+        self.extend( iterable )
+        return self
+    def __imul__( self, count ):
+        """Do an in-place repetition"""
+        extra = list( self ) * (count-1)
+        if count < 1:
+            self.clear()
+        else:
+            self.extend( extra )
+        return self
-- 
2.43.0


From 7ad21bb07c7cb5ecd7fd8c8e25af761bb671323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 25/62] fix: make NULL equal to NULL only, and hashable

---
 vrml/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fbcc36..14ff23d 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -282,11 +282,11 @@ class NullNode(Node):
 
     def __eq__(self, other):
         """Compare the NULL node to other objects"""
-        try:
-            if protoName(self) == protoName(other):
-                return 0
-        except (AttributeError, TypeError, ValueError):
-            return -1  # could be 1, doesn't really matter
+        return isinstance(other, NullNode)
+
+    def __hash__(self):
+        """All NULL nodes are equal"""
+        return hash(NullNode)
 
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
-- 
2.43.0


From c6ab99cba5f859198a227610e74b981f6d0d2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 26/62] fix: watch child lists however they were created, and
 report an assignment once, for its field, with the list

---
 vrml/node.py  | 103 +++++++++++++++++++++++++++++++++-----------------
 vrml/olist.py |   1 +
 2 files changed, 69 insertions(+), 35 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 14ff23d..a40a284 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -377,6 +377,10 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def __set__(self, client, value):
+        """Set the client's value for this property (notifies)"""
+        self.fset(client, value)
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -440,19 +444,26 @@ assert PrototypedNode.scenegraph.name == " scenegraph", PrototypedNode.scenegrap
 assert Node.rootSceneGraph.name == " root", Node.rootSceneGraph.name
 
 
-def _changeSender(nodeRef, field):
+def _changeSender(nodeRef, listRef, field):
     """Utility function to send node-change messages on olist updates"""
 
-    def onOListChange(sender, signal, value):
+    watched = field
+
+    def onOListChange(sender, signal, value, field=None):
         client = nodeRef()
-        if client:
-            dispatcher.send(
-                ('set', field),
-                client,
-                value=sender,
-                subsignal=signal,
-                subvalue=value,
-            )
+        # the node sends the same signals for all of its lists
+        if client is None or field is not watched:
+            return
+        current = client.__dict__.get(watched.name)
+        if current is None or current is not listRef() or current.assigning:
+            return
+        dispatcher.send(
+            ('set', watched),
+            client,
+            value=current,
+            subsignal=signal,
+            subvalue=value,
+        )
 
     return onOListChange
 
@@ -477,31 +488,16 @@ class _MFNode(object):
         if there is no current root).  This is done
         without sending notify events.
         """
-        previous = client.__dict__.get(self.name)
-        if previous is not None:
-            previous[:] = self.coerce(value)
-            value = previous
-        else:
-            value = super(_MFNode, self).fset(client, value, notify)
-            # register for updates to the list...
-            # we just send "changed" events for the field whenever
-            # there's an update to the list... a bit wasteful, as
-            # our clients might want to know about just the changed
-            # values, but for now...
-            value.setSender(client, field=self)
-            cs = _changeSender(weakref.ref(client), self)
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.DEL_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.NEW_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
+        children = self.coerce(value)
+        value = self.fget(client)
+        # there is one change of the field, however many children change
+        value.assigning = True
+        try:
+            value[:] = children
+        finally:
+            value.assigning = False
+        if notify:
+            dispatcher.send(('set', self), client, value=value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -545,6 +541,43 @@ class _MFNode(object):
 class MFNode(_MFNode, field.Field):
     """MFNode Field class"""
 
+    def __set__(self, client, value):
+        """Set the client's value for this property (notifies)"""
+        self.fset(client, value)
+
+    def __delete__(self, client):
+        """Delete the client's value for this property (notifies)"""
+        self.fdel(client)
+
+    def fdel(self, client, notify=1):
+        """Delete the client's value, which is then any list"""
+        previous = client.__dict__.get(self.name)
+        result = super(MFNode, self).fdel(client, notify)
+        previous.setSender(None)
+        return result
+
+    def getDefault(self, client=None):
+        """Get the default list, if client watch it for changes"""
+        value = super(MFNode, self).getDefault(client)
+        if client is not None:
+            # we just send "changed" events for the field whenever
+            # there's an update to the list... a bit wasteful, as
+            # our clients might want to know about just the changed
+            # values, but for now...
+            value.setSender(client, field=self)
+            cs = _changeSender(weakref.ref(client), weakref.ref(value), self)
+            for signal in (
+                olist.OList.DEL_CHILD_EVT,
+                olist.OList.NEW_CHILD_EVT,
+            ):
+                dispatcher.connect(
+                    cs,
+                    sender=client,
+                    signal=signal,
+                    weak=False,  # don't weakref receiver so it will hang around...
+                )
+        return value
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
diff --git a/vrml/olist.py b/vrml/olist.py
index c86f6fe..10cf173 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -31,6 +31,7 @@ class OList( list ):
     DEL_PARENT_EVT = 'removed'
     sender = None
     extraArgs = None
+    assigning = False # set while the owner replaces the contents
     def setSender( self, sender, **named ):
         """Set the (node) from which messages should be sent"""
         if sender is not None:
-- 
2.43.0


From ec981bbef7dc0dd7cf79c57f1b6268911bc6045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 27/62] fix: report that the children of a list were rearranged

---
 vrml/node.py  |  1 +
 vrml/olist.py | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index a40a284..7fba86e 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -569,6 +569,7 @@ class MFNode(_MFNode, field.Field):
             for signal in (
                 olist.OList.DEL_CHILD_EVT,
                 olist.OList.NEW_CHILD_EVT,
+                olist.OList.ORDER_EVT,
             ):
                 dispatcher.connect(
                     cs,
diff --git a/vrml/olist.py b/vrml/olist.py
index 10cf173..d7fe92e 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -9,12 +9,14 @@ except NameError as err:
 class OList( list ):
     """List sub-class which generates pydispatch events on changes
     
-    Generates 4 types of events:
+    Generates 5 types of events:
     
         * NEW_CHILD_EVT, from self, with value=child, for each added child
         * NEW_PARENT_EVT, from child, with parent=self, for each added child 
         * DEL_CHILD_EVT, from self, with value=child, for each removed child 
         * DEL_PARENT_EVT, from child, with parent=self, for each removed child
+        * ORDER_EVT, from self, with value=self, when the same children are
+            rearranged
         
     Note that the OList semantics are a little loose currently, as 
     it sometimes acts as though adding a new duplicate child is not 
@@ -29,6 +31,7 @@ class OList( list ):
     NEW_PARENT_EVT = 'added'
     DEL_CHILD_EVT = 'del'
     DEL_PARENT_EVT = 'removed'
+    ORDER_EVT = 'order'
     sender = None
     extraArgs = None
     assigning = False # set while the owner replaces the contents
@@ -56,6 +59,11 @@ class OList( list ):
         send( self.DEL_CHILD_EVT, sender, value=value,**(self.extraArgs or {}))
         send( self.DEL_PARENT_EVT, value, parent=sender,**(self.extraArgs or {}))
     
+    def _sendOrder( self, previous ):
+        """Send event for rearranging self, if it differs from previous"""
+        if list( self ) != previous:
+            send( self.ORDER_EVT, self._sender(), value=self,**(self.extraArgs or {}))
+
     def append( self, value ):
         """Append a value and send a message"""
         super( OList,self ).append( value )
@@ -95,11 +103,14 @@ class OList( list ):
         """Set a value and send a message"""
         if isinstance( index, slice ):
             values = list(value)
+            before = list( self )
             previous = self.__getitem__( index )
             currents = set( previous )
             super(OList,self).__setitem__( index, values )
+            added = False
             for value in values:
                 if value not in currents:
+                    added = True
                     self._sendAdded( value )
                 else:
                     try:
@@ -108,6 +119,8 @@ class OList( list ):
                         pass
             for current in previous:
                 self._sendRemoved( current )
+            if not added and not previous:
+                self._sendOrder( before )
             return values 
         else:
             current = self[index]
@@ -133,3 +146,13 @@ class OList( list ):
         else:
             self.extend( extra )
         return self
+    def reverse( self ):
+        """Reverse in place"""
+        before = list( self )
+        super( OList,self ).reverse()
+        self._sendOrder( before )
+    def sort( self, *args, **named ):
+        """Sort in place"""
+        before = list( self )
+        super( OList,self ).sort( *args, **named )
+        self._sendOrder( before )
-- 
2.43.0


From 576189e28e654e9f4ad1ae42dc93f8ac66a5d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 28/62] fix: set the scene of a subtree once per node, also in
 cyclic graphs, and register only named nodes

---
 vrml/node.py              | 15 +++++++++++----
 vrml/vrml97/scenegraph.py |  3 ++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fba86e..818997e 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -405,7 +405,8 @@ class RootScenegraphNode(WeakSFNode):
     def fset(self, client, value, notify=1):
         """Set the root scenegraph node (recursively)
 
-        TODO: this will blow up on cyclic graphs!
+        Nodes which already have a root keep it, so that
+        this visits each node once.
         """
         result = super(RootScenegraphNode, self).fset(client, value, notify)
         for field in getFields(client.__class__):
@@ -419,21 +420,27 @@ class RootScenegraphNode(WeakSFNode):
                 except ValueError:
                     pass
                 else:
-                    self.fset(child, value, notify=False)
+                    self.adopt(child, value)
             elif isinstance(field, MFNode):
                 try:
                     for child in field.__get__(client):
-                        self.fset(child, value, notify=False)
+                        self.adopt(child, value)
                 except AttributeError:
                     pass
             elif field.name == ' DEF':
                 try:
                     DEF = field.__get__(client)
-                    value.regDefName(DEF, client)
+                    if DEF:
+                        value.regDefName(DEF, client)
                 except AttributeError:
                     pass
         return result
 
+    def adopt(self, child, value):
+        """Set the root of a child that doesn't have one"""
+        if child and isinstance(child, Node) and value and not self.fget(child):
+            self.fset(child, value, notify=False)
+
 
 field.register(WeakSFNode)
 field.register(RootScenegraphNode)
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 83eedf2..1893196 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -101,7 +101,8 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
         current = protofunctions.defName( object )
         if self.defNames.get(current) is object:
             del self.defNames[current]
-        protofunctions.defName( object, defName )
+        if current != defName:
+            protofunctions.defName( object, defName )
         self.defNames[defName] = object
     def addProto(self, proto):
         '''Register a Prototype for this sceneGraph
-- 
2.43.0


From 320e8b30067ebd7815a63764ad99af3311bd1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 29/62] fix: give children added to a list the scene of their
 parent

---
 vrml/node.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 818997e..f43d7f0 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -333,11 +333,7 @@ class _SFNode(object):
         """
         value = super(_SFNode, self).fset(client, value, notify)
         if value:
-            clientRoot = Node.rootSceneGraph.fget(client)
-            if clientRoot:
-                valueRoot = Node.rootSceneGraph.fget(value)
-                if not valueRoot:
-                    Node.rootSceneGraph.fset(value, clientRoot, notify=0)
+            Node.rootSceneGraph.adopt(value, Node.rootSceneGraph.fget(client))
         return value
 
     def defaultDefault(self):
@@ -464,6 +460,8 @@ def _changeSender(nodeRef, listRef, field):
         current = client.__dict__.get(watched.name)
         if current is None or current is not listRef() or current.assigning:
             return
+        if signal == olist.OList.NEW_CHILD_EVT:
+            Node.rootSceneGraph.adopt(value, Node.rootSceneGraph.fget(client))
         dispatcher.send(
             ('set', watched),
             client,
@@ -503,15 +501,12 @@ class _MFNode(object):
             value[:] = children
         finally:
             value.assigning = False
-        if notify:
-            dispatcher.send(('set', self), client, value=value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
-            if clientRoot:
-                for val in value:
-                    valueRoot = Node.rootSceneGraph.fget(val)
-                    if not valueRoot:
-                        Node.rootSceneGraph.fset(val, clientRoot, notify=0)
+            for val in value:
+                Node.rootSceneGraph.adopt(val, clientRoot)
+        if notify:
+            dispatcher.send(('set', self), client, value=value)
         return value
 
     def coerce(self, value):
-- 
2.43.0


From a70449835a22f727e13b538f3fccf8a655cd062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 30/62] fix: copy nodes, scenes and routes with their sharing,
 wiring and names, sharing nothing with the original

---
 vrml/node.py              | 18 +++++++++++++-----
 vrml/protonamespace.py    |  2 +-
 vrml/route.py             | 16 +++++++---------
 vrml/vrml97/scenegraph.py | 18 ++++++++++++------
 4 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index f43d7f0..5f8ee3c 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -130,13 +130,13 @@ class Node(object):
         previous = copier.use(self)
         if previous is not None:
             return previous
-        dictionary = {}
-        for field in getFields(self):
-            if field.fhas(self):
-                dictionary[field.name] = field.copy(self, copier)
         newNode = type(self).__new__(type(self))
-        newNode.__dict__.update(dictionary)
+        # known before its fields are copied, as they may refer to it
         copier.use(self, newNode)
+        for field in getFields(self):
+            # the copy isn't part of the scene
+            if field.fhas(self) and not isinstance(field, RootScenegraphNode):
+                field.fset(newNode, field.copy(self, copier), notify=0)
         return newNode
 
     def toString(self, **namedargs):
@@ -377,6 +377,12 @@ class SFNode(_SFNode, field.Field):
         """Set the client's value for this property (notifies)"""
         self.fset(client, value)
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier"""
+        if value and isinstance(value, Node):
+            return value.copy(copier)
+        return value
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -531,6 +537,8 @@ class _MFNode(object):
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
         SF = self.__class__.baseSFNode
+        if copier is None:
+            copier = copiermodule.Copier()
         return [SF.copyValue(node, copier) for node in value]
 
 
diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 38cd565..f41c477 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -9,5 +9,5 @@ class ProtoNamespace( dict ):
         raise AttributeError( '%r object has no %r attribute'%( self.__class__.__name__, key))
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
-        return self.__class__( super(ProtoNamespace,self).__copy__())
+        return self.__class__( self )
     
diff --git a/vrml/route.py b/vrml/route.py
index 1297887..57b5c83 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -105,16 +105,14 @@ class ROUTE( node.Node ):
                 value = value,
                 event = event,
             )
-    def copy( self, copier ):
+    def copy( self, copier=None ):
         """Copy the route for the copier object"""
-        source = self.source.copy(copier)
-        destination = self.destination.copy( copier )
-        return self.__class__(
-            source = source,
-            destination = destination,
-            sourceField = self.sourceField,
-            destinationField = self.destinationField,
-        )
+        previous = copier and copier.use( self )
+        if previous:
+            return previous
+        new = super( ROUTE, self ).copy( copier )
+        new.bind()
+        return new
     def __str__( self ):
         """Get a friendly representation of the Node"""
         return """%s %r.%s TO %r.%s"""%(
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 1893196..df3e89e 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -2,7 +2,7 @@
 from vrml import node, protofunctions, protonamespace, fieldtypes, route
 from vrml import copier as copiermodule
 from vrml.vrml97 import nodetypes
-import weakref
+import copy, weakref
 from .._bytes import unicode
 
 class SceneGraph( nodetypes.Traversable, node.Node ):
@@ -169,14 +169,20 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
             for key,value in self.protoTypes.items():
                 newPrototypes[key] = protofunctions.copyProto( value, copier )
         else:
-            newPrototypes = self.protoTypes.copy()
+            newPrototypes = copy.copy( self.protoTypes )
+        previous = copier.use( self )
+        if previous is not None:
+            return previous
         newDefs = {}
+        newScene = super( SceneGraph, self).copy( copier )
         for key,value in self.defNames.items():
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
-        node = super( SceneGraph, self).copy( copier )
-        node.protoTypes = newPrototypes
-        node.defNames = newDefs
-        return node
+        newScene.root = self.root
+        newScene.protoTypes = newPrototypes
+        newScene.defNames = {}
+        node.Node.rootSceneGraph.fset( newScene, newScene )
+        newScene.defNames = newDefs
+        return newScene
     
-- 
2.43.0


From 319836b60668805d72276ceaae570132da917f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 31/62] fix: map the fields of a prototype instance to its own
 body, each of them, with their defaults

---
 vrml/node.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 5f8ee3c..5c20c57 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -189,7 +189,6 @@ class PrototypedNode(object):
             from vrml.vrml97 import scenegraph
 
             template = scenegraph.SceneGraph()
-            PrototypedNode.scenegraph.fset(cls, template)
             isMappings = []
         # 			raise ValueError( """Attempting to instantiate a prototyped node with no scenegraph defined: %s"""%( self,))
 
@@ -198,6 +197,8 @@ class PrototypedNode(object):
         for fieldName, mappings in isMappings:
             sourceField = getField(self, fieldName)
             for destination, destinationField in mappings:
+                # the mappings refer to the nodes of the template
+                destination = destination.copy(copier)
                 r = route.IS(
                     source=self,
                     sourceField=fieldName,
@@ -205,16 +206,17 @@ class PrototypedNode(object):
                     destinationField=destinationField,
                 )
                 sg.routes.append(r)
-            if hasattr(sourceField, 'getDefault'):
-                default = sourceField.getDefault()
-                try:
-                    getField(destination, destinationField).fset(
-                        destination,
-                        default,
-                        notify=0,
-                    )
-                except AttributeError:
-                    pass
+                if hasattr(sourceField, 'getDefault'):
+                    default = sourceField.fget(self)
+                    try:
+                        getField(destination, destinationField).fset(
+                            destination,
+                            default,
+                            # to the body of the destination, if it has one
+                            notify=isinstance(destination, PrototypedNode),
+                        )
+                    except AttributeError:
+                        pass
         PrototypedNode.scenegraph.fset(self, sg)
 
     def renderedChildren(self, types=None):
-- 
2.43.0


From e941862f7b1326990de8299d7244dce19b993447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 32/62] fix: give each node its own copies of the nodes in a
 field's default

---
 vrml/node.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vrml/node.py b/vrml/node.py
index 5c20c57..352356e 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -379,6 +379,13 @@ class SFNode(_SFNode, field.Field):
         """Set the client's value for this property (notifies)"""
         self.fset(client, value)
 
+    def getDefault(self, client=None):
+        """Get the default node, a copy of its own for each client"""
+        value = super(SFNode, self).getDefault(client)
+        if client is not None and value and not isinstance(client, type):
+            value = self.fset(client, self.copyValue(value), notify=0)
+        return value
+
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
         if value and isinstance(value, Node):
@@ -576,6 +583,12 @@ class MFNode(_MFNode, field.Field):
             # there's an update to the list... a bit wasteful, as
             # our clients might want to know about just the changed
             # values, but for now...
+            if value:
+                # each client has nodes of its own
+                value[:] = self.copyValue(value)
+                clientRoot = Node.rootSceneGraph.fget(client)
+                for val in value:
+                    Node.rootSceneGraph.adopt(val, clientRoot)
             value.setSender(client, field=self)
             cs = _changeSender(weakref.ref(client), weakref.ref(value), self)
             for signal in (
-- 
2.43.0


From b6244fbb97302989efcae72dea26054647b373f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 33/62] fix: forward events through event fields with their
 value, and end cycles through them

---
 vrml/route.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vrml/route.py b/vrml/route.py
index 57b5c83..d5a26fc 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -76,10 +76,12 @@ class ROUTE( node.Node ):
         event=None, value=None, **arguments
     ):
         """Do the low-level forwarding of the value to a target field"""
+        signal, sourceField = signal
         if event is None:
             from vrml import event as eventmodule
             event = eventmodule.Event()
-        signal, sourceField = signal
+            # the origin of the cascade isn't to receive it again
+            event.visited( (sender,sourceField), 1)
         if signal == 'del':
             value = sourceField.fget( sender )
         if destination and destinationField:
@@ -96,9 +98,15 @@ class ROUTE( node.Node ):
                     traceback.print_exc()
             else:
                 try:
-                    value = destinationField.__set__( destination, value )
+                    destinationField.__set__( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                dispatcher.send(
+                    signal = ('set',destinationField),
+                    sender = destination,
+                    value = value,
+                    event = event,
+                )
             dispatcher.send(
                 signal = ('route',destinationField),
                 sender = destination,
-- 
2.43.0


From aa00a54f107ebc47648baa25848846e6119df735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 34/62] fix: tell nobody of a routed value that the destination
 did not accept

---
 vrml/route.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/route.py b/vrml/route.py
index d5a26fc..234fdb0 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -95,12 +95,15 @@ class ROUTE( node.Node ):
                 try:
                     value = destinationField.fset( destination, value, notify = 0 )
                 except (ValueError, TypeError):
+                    # not changed, so there is nothing to tell of
                     traceback.print_exc()
+                    return
             else:
                 try:
                     destinationField.__set__( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                    return
                 dispatcher.send(
                     signal = ('set',destinationField),
                     sender = destination,
-- 
2.43.0


From 03cfcc5da7b624baf51bd24891f295ea1364de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 35/62] fix: keep functions watching a field out of the list of
 routes

---
 vrml/vrml97/scenegraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index df3e89e..6c7c083 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -151,6 +151,9 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
                 field = protofunctions.getField( source, sourceField )
                 field.watch( source, target, ('set',field) )
                 field.watch( source, target, ('del',field) )
+                # not a ROUTE, just kept as long as the scene is
+                self.__dict__.setdefault( 'targets', []).append( target )
+                return route
         self.routes.append( route )
         return route
 ##	def addIsMap( self, name, node, field ):
-- 
2.43.0


From 2720f326b7bf0983a556c6ce2443986048f499f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 36/62] fix: calculate the center of rotation when there is a
 translation or center

---
 vrml/vrml97/transformmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/transformmatrix.py b/vrml/vrml97/transformmatrix.py
index 2cd2ca3..1cef5a4 100644
--- a/vrml/vrml97/transformmatrix.py
+++ b/vrml/vrml97/transformmatrix.py
@@ -188,6 +188,6 @@ def center(
     T,T1 = transMatrix( translation )
     C,C1 = transMatrix( center )
     for x in (T,C):
-        if x:
+        if x is not None:
             parentMatrix = dot( x, parentMatrix)
     return dot( ORIGINPOINT, parentMatrix )
-- 
2.43.0


From 3a87a09794a5ef0aa154659133b0ad72e15363b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 37/62] fix: rotation matrices for a zero axis are the
 accelerator's, not a division by zero

---
 vrml/vrml97/_transformmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index f9de42a..27b41fd 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -22,6 +22,9 @@ def rotMatrix( source=None ):
     else:
         (x,y,z, a) = source
     if a % TWOPI:
+        if x == y == z == 0.0:
+            # no axis, rotate around y as the accelerator does
+            y = 1.0
         # normalize the rotation vector!
         squared = x*x + y*y + z*z
         if squared != 1.0:
-- 
2.43.0


From 64f1489d8c256188149040f54c032229c194a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 38/62] fix: the matrix of a path depends on centers also when
 rotations are left out

---
 vrml/vrml97/nodepath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index c5db622..1361455 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -75,6 +75,7 @@ class _NodePath( object ):
                     holder.depend( item, 'scaleOrientation' )
                 if rotate:
                     holder.depend( item, 'rotation' )
+                if scale or rotate:
                     holder.depend( item, 'center' )
             return child_holder.data[inverse]
         matrix = transformmatrix.compressMatrices( 
-- 
2.43.0


From f2f61d4c374869b42d3e5b64a7392d9e89af3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 39/62] fix: transforms of subclasses with other field defaults
 use those for their matrices

---
 vrml/vrml97/basenodes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index ce401cb..a068cef 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -603,9 +603,8 @@ class Transform( nodetypes.Children, nodetypes.Transforming, node.Node ):
                 fields.append( 'scaleOrientation' )
             if rotate:
                 fields.append( 'rotation' )
-            d = self.__dict__
             forward,inverse = transformmatrix.localMatrices(
-                **dict([(k,d.get(k)) for k in fields] )
+                **dict([(k,getattr(self,k)) for k in fields] )
             )
             if doConnect:
                 for k in fields:
-- 
2.43.0


From d05d9a05a6b6f5b0ab68461200375de1adda566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 40/62] fix: weak lists hold, return and lose their items on
 Python 3

---
 vrml/weaklist.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index bfff2e0..38017c7 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -52,7 +52,7 @@ class WeakList( list ):
         """
         return [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__getslice__(0,len(self))
+            for obj in super( WeakList,self).__iter__()
         ]
     def __iter__( self ):
         """Iterate over the list, yielding strong references"""
@@ -66,7 +66,7 @@ class WeakList( list ):
         if isinstance( index, slice ):
             item = [self.wrap(x) for x in item]
         else:
-            item = self.wrap(x)
+            item = self.wrap(item)
         return super( WeakList,self).__setitem__(
             index, item
         )
@@ -84,11 +84,34 @@ class WeakList( list ):
         return super( WeakList, self).extend([
             self.wrap(obj) for obj in sequence 
         ])
-    __iadd__ = extend
+    def __iadd__( self, sequence ):
+        """Extend this list in place (+=)"""
+        self.extend( sequence )
+        return self
+    def __add__( self, sequence ):
+        """Get the items followed by those of another sequence (+)"""
+        return self.get() + list( sequence )
+    def __mul__( self, count ):
+        """Get the items repeated count times (*)"""
+        return self.get() * count
+    __rmul__ = __mul__
+    def __imul__( self, count ):
+        """Repeat the items of this list in place (*=)"""
+        self[:] = self.get() * count
+        return self
+    def copy( self ):
+        """Get a weak list of the same items"""
+        return self.__class__( self.get() )
+    def __reversed__( self ):
+        """Iterate over the list from its end, yielding strong references"""
+        return reversed( self.get() )
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakList,self).__getitem__( index))
+        result = super (WeakList,self).__getitem__( index)
+        if isinstance( index, slice ):
+            return [self.unwrap(obj) for obj in result]
+        return self.unwrap(result)
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
         return self.unwrap( super(WeakList,self).pop(index))
@@ -108,17 +131,14 @@ class WeakList( list ):
         result = t.remove( item )
         self[:] = t
         return result
-    def sort( self, function = None):
+    def sort( self, *args, **named ):
         """Sort the list of objects
 
         This sorts the objects referenced,
         then rebuilds the list of references!
         """
         t = self.get()
-        if function is not None:
-            result = t.sort( function )
-        else:
-            result = t.sort( )
+        result = t.sort( *args, **named )
         self[:] = t
         return result
     def __eq__( self, sequence ):
-- 
2.43.0


From 6ec7c4dd846ea97307fd854c624d9193ac4621e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 41/62] fix: weak tuples can be made on Python 3 and hold their
 items weakly

---
 vrml/weaktuple.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 7ca6708..1eebcec 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -25,13 +25,14 @@ class WeakTuple( tuple ):
     missing items as does the WeakList.  This can
     occur for basically _any_ use of the tuple.
     """
-    def __init__( self, sequence=() ):
-        """Initialize the tuple
+    def __new__( cls, sequence=() ):
+        """Create the tuple
 
         The WeakTuple will store weak references to objects
         within the sequence.
         """
-        super( WeakTuple, self).__init__( [self.wrap(obj) for obj in sequence])
+        wrap = super( WeakTuple, cls).__new__( cls ).wrap
+        return super( WeakTuple, cls).__new__( cls, [wrap(obj) for obj in sequence])
 
     def valid( self ):
         """Explicit validity check for the tuple
@@ -77,14 +78,11 @@ class WeakTuple( tuple ):
             index += 1
 
     def __getitem__( self, index ):
-        """Get the item at the given index"""
-        return self.unwrap(super (WeakTuple,self).__getitem__( index ))
-    def __getslice__( self, start, stop ):
-        """Get the items in the range start to stop"""
-        return [
-            self.unwrap(obj) 
-            for obj in super (WeakTuple,self).__getslice__( start, stop)
-        ]
+        """Get the item at the given index, or the list of items in a slice"""
+        result = super (WeakTuple,self).__getitem__( index )
+        if isinstance( index, slice ):
+            return [self.unwrap(obj) for obj in result]
+        return self.unwrap(result)
     def __contains__( self, item ):
         """Return boolean indicating whether the item is in the tuple"""
         for node in self:
@@ -109,8 +107,13 @@ class WeakTuple( tuple ):
 
     def __add__(self, other):
         """Return a new path with other as tail"""
-        return tuple(self) + other
+        return tuple(self) + tuple(other)
     
+    def __mul__( self, count ):
+        """Return a tuple of our items repeated count times"""
+        return tuple(self) * count
+    __rmul__ = __mul__
+
     def __eq__( self, sequence ):
         """Compare the tuple to another (==)"""
         return list(self) == sequence
-- 
2.43.0


From 8be6536910011314191807f171f9415d7e71880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 42/62] fix: invalidating a path reaches the paths derived from
 it at any depth

---
 vrml/vrml97/nodepath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index 1361455..d139b36 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -127,8 +127,8 @@ class _NodePath( object ):
     def invalidate( self ):
         """Set this path to be invalid (and all children paths)"""
         self.broken = True 
-        for desc in self.iterdescendents( ):
-            desc.broken = True 
+        for child in self.iterchildren( ):
+            child.invalidate()
 
 class NodePath( _NodePath, nodepath.NodePath ):
     """Strong-reference version of VRML97 NodePath"""
-- 
2.43.0


From 7a5b5843214615b9396bd8fb78d0a511b66a56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 43/62] fix: a slice of a node path is a node path on Python 3,
 too

---
 vrml/nodepath.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index db38c3f..911c81d 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -47,9 +47,12 @@ class NodePath( list ):
         if isinstance( other, node.Node ):
             other = [other]
         return self.__class__( super(NodePath, self).__add__( other))
-    def __getslice__(self, start, stop):
-        """Return a new path with our items from start to stop"""
-        return self.__class__(super (NodePath, self).__getslice__(start, stop))
+    def __getitem__(self, index):
+        """Return our item at index, or a new path with our items in a slice"""
+        result = super (NodePath, self).__getitem__(index)
+        if isinstance( index, slice ):
+            return self.__class__( result )
+        return result
     def __eq__( self, other ):
         """Check whether we are equal to another path"""
         if len(self) != len(other):
-- 
2.43.0


From 07cd57d565a838117857e06626b2fb96352e9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 44/62] fix: adding a weak node path to a path adds its nodes,
 not references to them

---
 vrml/nodepath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index 911c81d..fe382ea 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -46,7 +46,7 @@ class NodePath( list ):
         """Return a new path with other as tail"""
         if isinstance( other, node.Node ):
             other = [other]
-        return self.__class__( super(NodePath, self).__add__( other))
+        return self.__class__( super(NodePath, self).__add__( list(other)))
     def __getitem__(self, index):
         """Return our item at index, or a new path with our items in a slice"""
         result = super (NodePath, self).__getitem__(index)
-- 
2.43.0


From 4ab37bb6919315a3d112f0f80796067dd2162148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 45/62] fix: node paths are unequal exactly when they are not
 equal, weak ones included

---
 vrml/nodepath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index fe382ea..332472b 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -61,6 +61,9 @@ class NodePath( list ):
             if self [index] is not other [index]:
                 return 0
         return 1
+    def __ne__( self, other ):
+        """Check whether we are not equal to another path"""
+        return not self == other
 
 class WeakNodePath( NodePath, weaklist.WeakList ):
     """Node path that uses weak-references to nodes
-- 
2.43.0


From 028a2736080665b77e3f8d9698adec0857b03ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 46/62] fix: weak tuples report a lost item by ReferenceError
 on Python 3

---
 vrml/nodepath.py  | 2 +-
 vrml/weaktuple.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index 332472b..a387750 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -70,7 +70,7 @@ class WeakNodePath( NodePath, weaklist.WeakList ):
 
     You hold strong references to these paths, then
     wrap all uses of them with checks for
-    weakref.ReferenceError to check for dead paths.
+    ReferenceError to check for dead paths.
     """
     
     
diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 1eebcec..5096b4f 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -44,7 +44,7 @@ class WeakTuple( tuple ):
         try:
             list( self )
             return 1
-        except weakref.ReferenceError:
+        except ReferenceError:
             return 0
         
     def wrap( self, item ):
@@ -67,7 +67,7 @@ class WeakTuple( tuple ):
         """
         ref = item()
         if ref is None:
-            raise weakref.ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
+            raise ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
         return ref
 
     def __iter__( self ):
-- 
2.43.0


From ec2dfbe25f55c1d3236ba72f16e3b4b76ed61733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 47/62] fix: a replaced cache holder does not remove the holder
 that replaced it

---
 vrml/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/cache.py b/vrml/cache.py
index 56d04be..d31367f 100644
--- a/vrml/cache.py
+++ b/vrml/cache.py
@@ -232,6 +232,9 @@ class CacheHolder( object ):
             if current is None:
                 return 0
             try:
+                # a newer holder under our key is not ours to remove
+                if current[ self.key ] is not self:
+                    return 0
                 del current[ self.key ]
                 if not current:
                     try:
-- 
2.43.0


From 15611e74fe3f444786f95690885ab6a3ee2aab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 48/62] fix: look a field stored under another name up by that
 name gives the field, not the name

---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index fd1fa1b..6f495a6 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -129,11 +129,11 @@ def getField(cls, field):
         # OK, may be a space-prefixed name...
         for fieldObject in getFields(cls):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be an event with space-prefixed name
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-- 
2.43.0


From 8c104de4278886a05f75089b996e5f0a7df9b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 49/62] fix: attributes of nodes which are not fields are not
 found as fields

---
 vrml/protofunctions.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 6f495a6..d987bfd 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -122,24 +122,26 @@ def getField(cls, field):
             not present (does a recursive call with the
             truncated name)
     """
+    from vrml import field as fieldmodule
+
     cls = _getcls(cls)
-    try:
-        return getattr(cls, field)
-    except (AttributeError, KeyError):
-        # OK, may be a space-prefixed name...
-        for fieldObject in getFields(cls):
-            if fieldObject.name == field:
-                return fieldObject
-        # OK, may be an event with space-prefixed name
-        for fieldObject in getFields(cls, 1):
-            if fieldObject.name == field:
-                return fieldObject
-        # OK, may be one of the "component" events
-        # of a field...
-        if field.startswith("set_"):
-            return getField(cls, field[4:])
-        elif field.endswith("_changed"):
-            return getField(cls, field[:-8])
+    fieldObject = getattr(cls, field, None)
+    if isinstance(fieldObject, (fieldmodule.Field, fieldmodule.Event)):
+        return fieldObject
+    # OK, may be a space-prefixed name...
+    for fieldObject in getFields(cls):
+        if fieldObject.name == field:
+            return fieldObject
+    # OK, may be an event with space-prefixed name
+    for fieldObject in getFields(cls, 1):
+        if fieldObject.name == field:
+            return fieldObject
+    # OK, may be one of the "component" events
+    # of a field...
+    if field.startswith("set_"):
+        return getField(cls, field[4:])
+    elif field.endswith("_changed"):
+        return getField(cls, field[:-8])
     raise AttributeError(
         """The prototype %s does not define a field named %s"""
         % (protoName(cls), field)
-- 
2.43.0


From 5c1481f07a61db56c9a1657792db6dcf53be755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 50/62] fix: the _changed event of a field is found when the
 name of the field starts with set_

---
 vrml/protofunctions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index d987bfd..469775e 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -139,9 +139,15 @@ def getField(cls, field):
     # OK, may be one of the "component" events
     # of a field...
     if field.startswith("set_"):
-        return getField(cls, field[4:])
-    elif field.endswith("_changed"):
-        return getField(cls, field[:-8])
+        try:
+            return getField(cls, field[4:])
+        except AttributeError:
+            pass
+    if field.endswith("_changed"):
+        try:
+            return getField(cls, field[:-8])
+        except AttributeError:
+            pass
     raise AttributeError(
         """The prototype %s does not define a field named %s"""
         % (protoName(cls), field)
-- 
2.43.0


From 6ebb229bb875a0ab0e6b15fbac07fdd1f6c5330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 51/62] fix: an inherited field is not listed when an event
 overrides it, nor the other way round

---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 469775e..dff5946 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -175,12 +175,12 @@ def getFields(cls, events=0):
                 [
                     (key, value)
                     for key, value in mro[-1].__dict__.items()
-                    if isinstance(value, wanted)
+                    if isinstance(value, (field.Field, field.Event))
                 ]
             )
         )
         mro = mro[:-1]
-    return list(items.values())
+    return [value for value in items.values() if isinstance(value, wanted)]
 
 
 ##def clonePROTO( cls ):
-- 
2.43.0


From 66f9fbd78ce50cddd0b14fb93b43fe971d720fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 52/62] fix: weak fields give and take the node itself also as
 attributes

---
 vrml/field.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vrml/field.py b/vrml/field.py
index 2676f8f..a6e90a9 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -383,6 +383,16 @@ class WeakField(object):
             return None  # super( WeakField, self).fget( client )
         return value
 
+    def __get__(self, client, cls=None):
+        """Retrieve value for given instance (or self for cls)"""
+        if client is None:
+            return self
+        return self.fget(client)
+
+    def __set__(self, client, value):
+        """Set value for given instance, holding it weakly (notifies)"""
+        self.fset(client, value)
+
 
 class Event(object):
     """An Event-handling Port definition
-- 
2.43.0


From 775972e64114cfb3c903e20808b33026e51317d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 53/62] fix: setting a weak field that has no value to NULL is
 not an error

---
 vrml/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/field.py b/vrml/field.py
index a6e90a9..5a36469 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -358,7 +358,7 @@ class WeakField(object):
         if isinstance(value, weakref.ReferenceType):
             value = value()
         if not value:
-            if not isinstance(client, type):
+            if not isinstance(client, type) and self.fhas(client):
                 self.fdel(client, notify=notify)
             return None
         value = weakref.ref(value)
-- 
2.43.0


From 9994c0a1023e0f71cbdcaac12b70429595726fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 54/62] fix: scripts hold the nodes given for their fields;
 copies of default nodes do not take names from others

---
 vrml/copier.py                |  4 ++++
 vrml/node.py                  | 30 +++++++++++++++++++++---------
 vrml/vrml97/parseprocessor.py |  3 +++
 vrml/vrml97/scenegraph.py     |  3 +++
 vrml/vrml97/script.py         | 12 ++++++++++--
 5 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/vrml/copier.py b/vrml/copier.py
index 4b63532..a1f2a8c 100644
--- a/vrml/copier.py
+++ b/vrml/copier.py
@@ -6,6 +6,7 @@ class Copier( object ):
         self,
         shareProtos = 1,
         instantiation=0,
+        anonymous=0,
     ):
         """Instantiate the copier object
 
@@ -15,7 +16,10 @@ class Copier( object ):
         instantiation -- whether this is a prototype-instantiation copy
         baseNode -- baseNode for prototype instantiations, this is the
             node whose sub-scenegraph is being built by the copier
+        anonymous -- whether the copies go without the DEF names of
+            their sources, save those which are used several times
         """
+        self.anonymous = anonymous
         self.shareProtos, self.instantiation = shareProtos, instantiation
     def use( self, clientNode, newNode=None ):
         """See whether (or register that) we have a USE for this (source) clientNode"""
diff --git a/vrml/node.py b/vrml/node.py
index 352356e..61ac3d5 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -129,11 +129,15 @@ class Node(object):
             copier = copiermodule.Copier()
         previous = copier.use(self)
         if previous is not None:
+            if copier.anonymous and Node.DEF.fhas(self):
+                Node.DEF.fset(previous, Node.DEF.fget(self), notify=0)
             return previous
         newNode = type(self).__new__(type(self))
         # known before its fields are copied, as they may refer to it
         copier.use(self, newNode)
         for field in getFields(self):
+            if copier.anonymous and field is Node.DEF:
+                continue
             # the copy isn't part of the scene
             if field.fhas(self) and not isinstance(field, RootScenegraphNode):
                 field.fset(newNode, field.copy(self, copier), notify=0)
@@ -383,7 +387,12 @@ class SFNode(_SFNode, field.Field):
         """Get the default node, a copy of its own for each client"""
         value = super(SFNode, self).getDefault(client)
         if client is not None and value and not isinstance(client, type):
-            value = self.fset(client, self.copyValue(value), notify=0)
+            value = self._set(
+                client, self.copyValue(value, copiermodule.Copier(anonymous=1))
+            )
+            Node.rootSceneGraph.adopt(
+                value, Node.rootSceneGraph.fget(client), register=0
+            )
         return value
 
     def copyValue(self, value, copier=None):
@@ -413,11 +422,14 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
 class RootScenegraphNode(WeakSFNode):
     fieldType = 'RootScenegraphNode'
 
-    def fset(self, client, value, notify=1):
+    def fset(self, client, value, notify=1, register=1):
         """Set the root scenegraph node (recursively)
 
         Nodes which already have a root keep it, so that
         this visits each node once.
+
+        register -- if true, register the names of the nodes
+            with the scenegraph
         """
         result = super(RootScenegraphNode, self).fset(client, value, notify)
         for field in getFields(client.__class__):
@@ -431,14 +443,14 @@ class RootScenegraphNode(WeakSFNode):
                 except ValueError:
                     pass
                 else:
-                    self.adopt(child, value)
+                    self.adopt(child, value, register)
             elif isinstance(field, MFNode):
                 try:
                     for child in field.__get__(client):
-                        self.adopt(child, value)
+                        self.adopt(child, value, register)
                 except AttributeError:
                     pass
-            elif field.name == ' DEF':
+            elif field.name == ' DEF' and register:
                 try:
                     DEF = field.__get__(client)
                     if DEF:
@@ -447,10 +459,10 @@ class RootScenegraphNode(WeakSFNode):
                     pass
         return result
 
-    def adopt(self, child, value):
+    def adopt(self, child, value, register=1):
         """Set the root of a child that doesn't have one"""
         if child and isinstance(child, Node) and value and not self.fget(child):
-            self.fset(child, value, notify=False)
+            self.fset(child, value, notify=False, register=register)
 
 
 field.register(WeakSFNode)
@@ -585,10 +597,10 @@ class MFNode(_MFNode, field.Field):
             # values, but for now...
             if value:
                 # each client has nodes of its own
-                value[:] = self.copyValue(value)
+                value[:] = self.copyValue(value, copiermodule.Copier(anonymous=1))
                 clientRoot = Node.rootSceneGraph.fget(client)
                 for val in value:
-                    Node.rootSceneGraph.adopt(val, clientRoot)
+                    Node.rootSceneGraph.adopt(val, clientRoot, register=0)
             value.setSender(client, field=self)
             cs = _changeSender(weakref.ref(client), weakref.ref(value), self)
             for signal in (
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 816e105..60ab576 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -182,6 +182,9 @@ class ParseProcessor(DispatchProcessor):
                 setattr(vProto, f.name, f)
                 if mapName is not None:
                     isMaps.append((mapName, f.name))
+                elif isinstance(f, (node.SFNode, node.MFNode)):
+                    # the nodes themselves, not copies of a default
+                    f.fset(newNode, f.defaultobj, notify=0)
             elif item[0] == 'Attr':
                 attributes.append(item)
             else:
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 6c7c083..1b13979 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -177,11 +177,14 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
         if previous is not None:
             return previous
         newDefs = {}
+        # the names of a scene are its own
+        anonymous,copier.anonymous = copier.anonymous,0
         newScene = super( SceneGraph, self).copy( copier )
         for key,value in self.defNames.items():
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
+        copier.anonymous = anonymous
         newScene.root = self.root
         newScene.protoTypes = newPrototypes
         newScene.defNames = {}
diff --git a/vrml/vrml97/script.py b/vrml/vrml97/script.py
index 4a00ead..3bd9298 100644
--- a/vrml/vrml97/script.py
+++ b/vrml/vrml97/script.py
@@ -1,5 +1,5 @@
 """VRML97 Script-node stub"""
-from vrml import node, fieldtypes
+from vrml import node, fieldtypes, protofunctions
 from vrml.vrml97 import nodetypes
 
 class _Script( nodetypes.Children, node.Node ):
@@ -21,5 +21,13 @@ class _Script( nodetypes.Children, node.Node ):
     
 def Script( fields, **namedarguments ):
     """Create a new script prototype and an instance of that prototype"""
+    fields = list( fields )
     proto = node.prototype( 'Script', fields, baseClasses = (_Script,) )
-    return proto( **namedarguments )
+    script = proto()
+    for f in fields:
+        if isinstance( f, (node.SFNode, node.MFNode)):
+            # the nodes themselves, not copies of a default
+            f.fset( script, f.getDefault(), notify=0 )
+    for name,value in namedarguments.items():
+        protofunctions.getField( script, name ).fset( script, value )
+    return script
-- 
2.43.0


From f09fbca7bc4e8faf82a366ac087d858ee9a42553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:12 +0000
Subject: [PATCH 55/62] fix: single matrix fields can be declared, written and
 read

---
 vrml/fieldtypes.py            | 10 +++++++++-
 vrml/vrml97/parseprocessor.py |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 549bcdc..ce08755 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -556,7 +556,7 @@ class _SFVec(object):
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
         return _linvalues(lineariser)['numsep'].join(
-            [SFFloat_vrmlstr(obj, lineariser) for obj in value]
+            [SFFloat_vrmlstr(obj, lineariser) for obj in arrays.ravel(value)]
         )
 
     def copyValue(self, value, copier=None):
@@ -1427,6 +1427,8 @@ field.register(MFVec3f)
 field.register(MFVec4f)
 field.register(MFMatrix3f)
 field.register(MFMatrix4f)
+field.register(SFMatrix3f)
+field.register(SFMatrix4f)
 field.register(SFVec2d)
 field.register(SFVec3d)
 field.register(SFVec4d)
@@ -1435,6 +1437,8 @@ field.register(MFVec3d)
 field.register(MFVec4d)
 field.register(MFMatrix3d)
 field.register(MFMatrix4d)
+field.register(SFMatrix3d)
+field.register(SFMatrix4d)
 
 ## event classes...
 field.register(MFFloatEvt)
@@ -1464,6 +1468,8 @@ field.register(MFVec3fEvt)
 field.register(MFVec4fEvt)
 field.register(MFMatrix3fEvt)
 field.register(MFMatrix4fEvt)
+field.register(SFMatrix3fEvt)
+field.register(SFMatrix4fEvt)
 field.register(SFVec2dEvt)
 field.register(SFVec3dEvt)
 field.register(SFVec4dEvt)
@@ -1472,6 +1478,8 @@ field.register(MFVec3dEvt)
 field.register(MFVec4dEvt)
 field.register(MFMatrix3dEvt)
 field.register(MFMatrix4dEvt)
+field.register(SFMatrix3dEvt)
+field.register(SFMatrix4dEvt)
 
 if __name__ == "__main__":
     import unittest
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 60ab576..7185641 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -424,6 +424,7 @@ class ParseProcessor(DispatchProcessor):
         return [float(getString(item, buffer)) for item in table]
 
     SFVec4f = SFVec2d = SFVec3d = SFVec4d = SFRotation
+    SFMatrix3f = SFMatrix4f = SFMatrix3d = SFMatrix4d = SFRotation
 
     def SFArray(self, values, buffer, final=True):
         """Process a vector-of-values data-set"""
-- 
2.43.0


From 58f382ebb9c8c65a3a4498de66af74dc367aad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:31 +0000
Subject: [PATCH 56/62] fix: write prototypes declared in the body of a
 prototype in that body

They were all moved to the top of the file, where of several prototypes of
one name only the first was written, so that instances of the others changed.
---
 vrml/vrml97/linearise.py | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 4bb4584..53b5a73 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -148,6 +148,7 @@ class Lineariser:
         # if not self.cursceneGraph: # top level
         # 	buffer.write( '#VRML V2.0 utf8\n' ) # should only do this when it's the top-level object
         self.cursceneGraph.append(clientNode)
+        localprotos = []
 
         # linearise the "free" prototypes (any actually registered with the sceneGraph)
         if (
@@ -155,7 +156,9 @@ class Lineariser:
         ):  # are supposed to linearise all prototypes currently in the sceneGraph, regardless of whether they are used
             for proto in clientNode.protoTypes.values():
                 if not id(proto) in self.protoalreadydone:
-                    self._proto(proto)
+                    # those of a prototype's body are declared in the body
+                    if self._proto(proto, local=bool(self.curproto)):
+                        localprotos.append(id(proto))
         # linearise the node/script children, they will include their prototypes if they are not already done
         for child in clientNode.children:
             self._linear(child)
@@ -166,6 +169,9 @@ class Lineariser:
             self._route(route)
             # buffer.write( '%(full_element_separator)sROUTE %%s.%%s TO %%s.%%s'%self.linvalues%route )
 
+        # the prototypes of this body are not known outside of it
+        for key in localprotos:
+            del self.protoalreadydone[key]
         # restore original alreadydone dictionary
         self.alreadydone = oldalreadydone
         self.alreadydone[id(clientNode)] = (
@@ -175,8 +181,12 @@ class Lineariser:
         del self.cursceneGraph[-1]
         return None
 
-    def _proto(self, clientNode):
-        """Linearise a prototype, return whether the prototype is actually linearised"""
+    def _proto(self, clientNode, local=False):
+        """Linearise a prototype, return whether it was written where it is
+
+        local -- if true, the prototype is written to the current buffer (the
+            body of the prototype declaring it), and not to the top of the file
+        """
         # check that we haven't yet done this prototype, register the fact that we've already started it
         if type(clientNode) != type:
             return
@@ -188,13 +198,15 @@ class Lineariser:
             return 0
         if id(clientNode) in self.protoalreadydone:
             # this precise prototype has been linearised already...
-            return 1
-        elif self.protoalreadydone.get(name(clientNode)):
+            return 0
+        elif not local and self.protoalreadydone.get(name(clientNode)):
             # another prototype with the same name has already been linearised
             self.protoalreadydone[id(clientNode)] = 1
-            return 1
+            return 0
         self.curproto.append(clientNode)
-        self.protoalreadydone[clientName] = self.protoalreadydone[id(clientNode)] = 1
+        self.protoalreadydone[id(clientNode)] = 1
+        if not local:
+            self.protoalreadydone[clientName] = 1
 
         # we don't want the prototypes constantly moving inward :)
         oldindent = self.indentationlevel
@@ -239,16 +251,17 @@ class Lineariser:
                 buffer.write('\n}#End PROTO %s\n' % (clientName))
             else:
                 buffer.write('\n}\n')
-        self.alreadydone[id(clientNode)] = (
-            self.protobuffer.tell(),
-            self.protobuffer.tell() + buffer.tell(),
-        )
-        # note that we _always_ write out the prototype to the
-        # prototype-specific buffer!  We do not write them into
-        # the main buffer.  I suppose we could, but most of the
+        # note that we write out the prototypes which are not local to
+        # another one to the prototype-specific buffer!  We do not write
+        # them into the main buffer.  I suppose we could, but most of the
         # time you want the prototypes all at the front of the
         # file anyway.
-        self.protobuffer.write(buffer.getvalue())
+        target = oldbuffer if local else self.protobuffer
+        self.alreadydone[id(clientNode)] = (
+            target.tell(),
+            target.tell() + buffer.tell(),
+        )
+        target.write(buffer.getvalue())
         # clear out the memory used by the buffer
         buffer.close()
         # return to the original buffer
@@ -257,7 +270,7 @@ class Lineariser:
         # note that startind is irrelevant for prototypes,
         # as they cannot be repeated, only multiply referenced.
         self.curproto.pop()
-        return None
+        return local
 
     def _Node(self, clientNode, *args, **namedargs):
         '''Linearise an individual node'''
-- 
2.43.0


From 603810b16369b83ea099dab8d6fc25f3bb0bbc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 57/62] fix: the spacings of an ElevationGrid are 1.0 when not
 given, as in VRML97

---
 vrml/vrml97/basenodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index a068cef..3dc71c4 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -166,7 +166,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     PROTO = 'ElevationGrid'
     #Fields
     zDimension = field.newField( 'zDimension', 'SFInt32', 0, 0)
-    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 0.0)
+    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 1.0)
     creaseAngle = field.newField( 'creaseAngle', 'SFFloat', 0, 0.0)
     normal = field.newField( 'normal', 'SFNode', 1, node.NULL)
     solid = field.newField( 'solid', 'SFBool', 0, 1)
@@ -176,7 +176,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     color = field.newField( 'color', 'SFNode', 1, node.NULL)
     colorPerVertex = field.newField( 'colorPerVertex', 'SFBool', 0, 1)
     xDimension = field.newField( 'xDimension', 'SFInt32', 0, 0)
-    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 0.0)
+    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 1.0)
     normalPerVertex = field.newField( 'normalPerVertex', 'SFBool', 0, 1)
     #Events
     set_height = field.newEvent( 'set_height', 'MFFloat', 0)
-- 
2.43.0


From 34f6fbff3d3a1a1533c323f4e35493dae14fcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 58/62] fix: the duration of a MovieTexture is sent as SFTime,
 as in VRML97

---
 vrml/vrml97/basenodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index 3dc71c4..0558c52 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -321,7 +321,7 @@ class MovieTexture( nodetypes.Auditory, nodetypes.Texture, nodetypes.TimeDepende
     repeatT = field.newField( 'repeatT', 'SFBool', 0, 1)
     loop = field.newField( 'loop', 'SFBool', 1, 0)
     #Events
-    duration_changed = field.newEvent( 'duration_changed', 'SFFloat', 1)
+    duration_changed = field.newEvent( 'duration_changed', 'SFTime', 1)
     isActive = field.newEvent( 'isActive', 'SFBool', 1)
 
 class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
-- 
2.43.0


From 0b9408291117f2c24ae01c7cb3aa5f4e204275d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 59/62] fix: the types of a NavigationInfo are WALK and ANY
 when not given, as in VRML97

---
 vrml/vrml97/basenodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index 0558c52..6df5c84 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -330,7 +330,7 @@ class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
     speed = field.newField( 'speed', 'SFFloat', 1, 1.0)
     avatarSize = field.newField( 'avatarSize', 'MFFloat', 1, [0.25, 1.6000000000000001, 0.75])
     headlight = field.newField( 'headlight', 'SFBool', 1, 1)
-    type = field.newField( 'type', 'MFString', 1, ['WALK'])
+    type = field.newField( 'type', 'MFString', 1, ['WALK','ANY'])
     visibilityLimit = field.newField( 'visibilityLimit', 'SFFloat', 1, 0.0)
     #Events
     set_bind = field.newEvent( 'set_bind', 'SFBool', 0)
-- 
2.43.0


From e4063f5452cdcdc00da75644810512129de89fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:15 +0000
Subject: [PATCH 60/62] fix: IS with a name the prototype does not declare is
 an error, also when it has no instances

---
 vrml/vrml97/parseprocessor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 7185641..5357f30 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -490,7 +490,18 @@ class ParseProcessor(DispatchProcessor):
     def IS(self, table, buffer):
         '''Create a field reference'''
         (tag, start, stop, (nametuple,)) = table
-        return getString(nametuple, buffer)
+        name = getString(nametuple, buffer)
+        try:
+            getField(self.prototypeStack[-1], name)
+        except (IndexError, AttributeError):
+            raise NameError(
+                """IS of undeclared field %s on line %s"""
+                % (
+                    name,
+                    lines(end=start, buffer=buffer),
+                )
+            )
+        return name
 
     def ExtProtoURL(self, table, buffer):
         '''add the url to the external prototype'''
-- 
2.43.0


From 541683b45a69533fdbebf7d525f890372bd5c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:55 +0000
Subject: [PATCH 61/62] fix: a route to a field its destination does not have
 no longer fails the change of its source

---
 vrml/route.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrml/route.py b/vrml/route.py
index 234fdb0..e597417 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -85,7 +85,12 @@ class ROUTE( node.Node ):
         if signal == 'del':
             value = sourceField.fget( sender )
         if destination and destinationField:
-            destinationField = protofunctions.getField( destination, destinationField )
+            try:
+                destinationField = protofunctions.getField( destination, destinationField )
+            except (AttributeError, KeyError):
+                # as for the source: reported, the other routes still deliver
+                print("""%s: field %s doesn't exist on %s"""%(protofunctions.protoName(self), destinationField, destination))
+                return
             if event and hasattr(event, "visited"):
                 if event.visited((destination, destinationField),):
                     ### Short-circuit before a cycle is created...
-- 
2.43.0


From c78686e2e3cc036b9602ccbfebcc2cb2f2a8039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:28 +0000
Subject: [PATCH 62/62] fix: dictionaries with weak keys can be counted,
 iterated over and copied

---
 vrml/weakkeydictfix.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/vrml/weakkeydictfix.py b/vrml/weakkeydictfix.py
index a7341ae..fe22fbf 100644
--- a/vrml/weakkeydictfix.py
+++ b/vrml/weakkeydictfix.py
@@ -1,6 +1,5 @@
 """Module providing patched weakkeydictionary operation"""
 import weakref
-ref = weakref.ref
 
 class WeakKeyDictionary( weakref.WeakKeyDictionary ):
     """Sub-class to work around error in WeakKeyDictionary implementation
@@ -16,21 +15,10 @@ class WeakKeyDictionary( weakref.WeakKeyDictionary ):
         dict -- previously-existing weak key records or
             None to create a new dictionary
         """
-        self.data = {}
-        def remove(k, selfref=ref(self)):
-            self = selfref()
-            if self is not None and self.data:
-                try:
-                    v = self.data.get( k )
-                    del self.data[k]
-                except (KeyError,RuntimeError):
-                    pass
-            # now v goes out of scope and is deleted...
-        self._remove = remove
-        if dict is not None: self.update(dict)
+        weakref.WeakKeyDictionary.__init__( self, dict )
     def __delitem__(self, key):
         """Overridden delitem to avoid scanning"""
         try:
-            del self.data[weakref.ref(key)]
+            weakref.WeakKeyDictionary.__delitem__( self, key )
         except KeyError:
             raise KeyError( """Item %r does not appear as a key"""%( key,))
\ No newline at end of file
-- 
2.43.0

