From 86e0aa8e2e1628b29716b85cd4741a2381844b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:16 +0000
Subject: [PATCH 01/21] fix: don't destroy an existing output file when export
 fails

HumdrumConverter.write and MEIConverter.write opened (and so truncated) the
output file before converting.  Any failure during the conversion left the
caller with an empty file in place of what was there before.
---
 converter21/HumdrumConverter.py | 8 +++++++-
 converter21/MEIConverter.py     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/converter21/HumdrumConverter.py b/converter21/HumdrumConverter.py
index a0927f7..a40867f 100644
--- a/converter21/HumdrumConverter.py
+++ b/converter21/HumdrumConverter.py
@@ -9,6 +9,7 @@
 # Copyright:     (c) 2021-2023 Greg Chapman
 # License:       MIT, see LICENSE
 # ------------------------------------------------------------------------------
+import io
 from pathlib import Path
 
 from music21 import common
@@ -115,7 +116,12 @@ class HumdrumConverter(SubConverter):
         hdw.addRecipSpine = addRecipSpine
         hdw.expandTremolos = expandTremolos
 
+        # Convert everything before touching the output file, so that a failed
+        # conversion doesn't destroy whatever was already in that file.
+        output = io.StringIO()
+        hdw.write(output)
+
         with open(fp, 'w', encoding='utf8') as f:
-            hdw.write(f)
+            f.write(output.getvalue())
 
         return fp
diff --git a/converter21/MEIConverter.py b/converter21/MEIConverter.py
index a5cfe52..2c42c15 100644
--- a/converter21/MEIConverter.py
+++ b/converter21/MEIConverter.py
@@ -10,6 +10,7 @@
 # License:       MIT, see LICENSE
 #
 # ------------------------------------------------------------------------------
+import io
 import typing as t
 import pathlib
 
@@ -122,7 +123,12 @@ class MEIConverter(SubConverter):
         meiw.makeNotation = makeNotation
         meiw.meiVersion = meiVersion
 
+        # Convert everything before touching the output file, so that a failed
+        # conversion doesn't destroy whatever was already in that file.
+        output = io.StringIO()
+        meiw.write(output)
+
         with open(fp, 'wt', encoding='utf-8') as f:
-            meiw.write(f)
+            f.write(output.getvalue())
 
         return fp
-- 
2.43.0


From b6e9cbceb081f7c078c1539dc534482dd4cf0005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:37 +0000
Subject: [PATCH 02/21] fix: don't report success for a Humdrum export that
 produced nothing

HumdrumWriter.write returns False when it can't export the score (e.g. it has
no parts), but HumdrumConverter.write ignored that, and returned the path of an
empty file as if the export had worked.
---
 converter21/HumdrumConverter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter21/HumdrumConverter.py b/converter21/HumdrumConverter.py
index a40867f..fcbd52a 100644
--- a/converter21/HumdrumConverter.py
+++ b/converter21/HumdrumConverter.py
@@ -18,6 +18,7 @@ from music21.converter.subConverters import SubConverter
 
 from converter21.humdrum import HumdrumFile
 from converter21.humdrum import HumdrumWriter
+from converter21.humdrum import HumdrumExportError
 
 class HumdrumConverter(SubConverter):
     '''
@@ -119,7 +120,8 @@ class HumdrumConverter(SubConverter):
         # Convert everything before touching the output file, so that a failed
         # conversion doesn't destroy whatever was already in that file.
         output = io.StringIO()
-        hdw.write(output)
+        if not hdw.write(output):
+            raise HumdrumExportError('Score cannot be exported to Humdrum (are there no parts?)')
 
         with open(fp, 'w', encoding='utf8') as f:
             f.write(output.getvalue())
-- 
2.43.0


From a9e832833d7f1e41bc229b44c61ff4185270e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:15 +0000
Subject: [PATCH 03/21] fix: clean up the client's score when MEI export fails

With makeNotation=False, MEI export annotates the client's own score (temporary
spanners, xml ids, mei_* attributes).  If the export (or the write to the output
stream) raised an exception, those annotations were left behind in that score.
---
 converter21/mei/meiscore.py  |  8 ++++++++
 converter21/mei/meiwriter.py | 14 +++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 16a8fff..d9b5659 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -78,6 +78,14 @@ class MeiScore:
                 self.currentBeamSpanners[(part, voiceId)] = []
                 self.previousBeamedNoteOrChord[(part, voiceId)] = None
 
+        try:
+            self._prepareScore(m21Score)
+        except BaseException:
+            # nobody else will get the chance to clean up the score
+            self.deannotateScore()
+            raise
+
+    def _prepareScore(self, m21Score: m21.stream.Score) -> None:
         # pre-scan of m21Score to set up some things
         self.annotateScore()
 
diff --git a/converter21/mei/meiwriter.py b/converter21/mei/meiwriter.py
index 47e3f6e..d30bfa2 100644
--- a/converter21/mei/meiwriter.py
+++ b/converter21/mei/meiwriter.py
@@ -77,7 +77,16 @@ class MeiWriter:
         #   music21 scores are {Staff1(Measure1 .. MeasureN), Staff2(Measure1 .. MeasureN)}
         #   but MEI scores are {Measure1{Staff1, Staff2} .. MeasureN{Staff1, Staff2}}.
         meiScore: MeiScore = MeiScore(self._m21Score, self.meiVersion)
+        try:
+            self._writeMeiScore(meiScore, fp)
+        finally:
+            # clean up all the notes-to-self MeiScore wrote in the score (even if the
+            # export failed, since it might be the client's own score).
+            meiScore.deannotateScore()
 
+        return True
+
+    def _writeMeiScore(self, meiScore: MeiScore, fp) -> None:
         # Here we convert the MeiScore to an in-memory tree of Elements
         meiElement: Element = meiScore.makeRootElement()
         indent(meiElement, space='   ', level=0)
@@ -108,8 +117,3 @@ class MeiWriter:
         fp.write(prefix)
         ElementTree(meiElement).write(fp, encoding='unicode')
         fp.write('\n')
-
-        # clean up all the notes-to-self MeiScore wrote in the score.
-        meiScore.deannotateScore()
-
-        return True
-- 
2.43.0


From 447514a05990c9c22ada51a0357574b7f61bd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:15 +0000
Subject: [PATCH 04/21] fix: remove the xml ids that MEI export puts on the
 notes in chords

MEI export puts xml_id on every object in the score, including the notes inside
chords, but removed it only from the objects recurse() finds (which does not
include the notes inside chords).
---
 converter21/mei/meiscore.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index d9b5659..b745c8f 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -552,11 +552,9 @@ class MeiScore:
         for sp in list(self.m21Score[M21TemporarySpanner]):
             self.m21Score.remove(sp)
 
-        for obj in self.m21Score.recurse():
-            # we don't put 'xml_id' in self.customM21AttrsToDelete, because
-            # then every object would be in that dictionary.
-            if hasattr(obj, 'xml_id'):
-                delattr(obj, 'xml_id')
+        # we don't put 'xml_id' in self.customM21AttrsToDelete, because
+        # then every object would be in that dictionary.
+        M21Utilities.removeAllXmlIds(self.m21Score)
 
         for obj, customAttrs in self.customM21AttrsToDelete.items():
             for customAttr in customAttrs:
-- 
2.43.0


From 55d4e6be0a38d9a33517ea6fc50805c4001e91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:34 +0000
Subject: [PATCH 05/21] fix: restore the client's Ottavas after MEI export

MEI export fills in the Ottavas it finds; with makeNotation=False those are the
client's own Ottavas, so the export permanently added elements to them.
---
 converter21/mei/meiscore.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index b745c8f..21fb08d 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -56,6 +56,11 @@ class MeiScore:
 
         self.customM21AttrsToDelete: dict[m21.base.Music21Object, list[str]] = {}
 
+        # The Ottavas we fill, along with their pre-fill contents and filledStatus
+        self.ottavasToUnfill: list[
+            tuple[m21.spanner.Ottava, list[m21.base.Music21Object], t.Any]
+        ] = []
+
         self.currentTupletSpanners: dict[m21.stream.Part, list[M21TupletSpanner]] = {}
         self.currentTieSpanners: dict[m21.stream.Part, list[tuple[M21TieSpanner, int]]] = {}
 
@@ -546,6 +551,9 @@ class MeiScore:
             if not M21Utilities.isIn(spanner, spannerBundle):
                 continue
             if spanner.isFirst(obj):
+                self.ottavasToUnfill.append(
+                    (spanner, spanner.getSpannedElements(), spanner.filledStatus)
+                )
                 spanner.fill(part)
 
     def deannotateScore(self) -> None:
@@ -561,8 +569,17 @@ class MeiScore:
                 if hasattr(obj, customAttr):
                     delattr(obj, customAttr)
 
+        for ottava, spannedElements, filledStatus in reversed(self.ottavasToUnfill):
+            for el in ottava.getSpannedElements():
+                if not M21Utilities.isIn(el, spannedElements):
+                    ottava.spannerStorage.remove(el)
+            # in case the fill was interrupted
+            ottava.addSpannedElements(spannedElements)
+            ottava.filledStatus = filledStatus
+
         # all done, let go of these references to music21 objects.
         self.customM21AttrsToDelete = {}
+        self.ottavasToUnfill = []
 
 #     def makeXmlIds(self) -> None:
 #         for part in self.m21Score.parts:
-- 
2.43.0


From 3b78e74eb5bf037d4d7d298de3d70f7c89c3c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:37 +0000
Subject: [PATCH 06/21] fix: StreamThawer.open no longer leaves a previous
 score behind on failure

Reopening with data that can't be thawed left the previously thawed score in
thawer.stream, as if it were what the new data contained.
---
 converter21/shared/m21utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 93b00ec..e67b7a5 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -621,6 +621,9 @@ class StreamThawer(StreamFreezeThawBase):
         if format is None then the format is automatically
         determined from the bytes contents.
         '''
+        # forget any previously thawed stream, in case we fail
+        self.stream = None
+
         fmt = self.parseOpenFmt(fileData)
         if fmt == 'pickle':
             if zipType is None:
-- 
2.43.0


From f307b4c2dd3145db18e0ef239f1baf393a153ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 07/21] fix: thaw scores that were frozen with
 fmt='jsonpickle', zipType='zlib'

StreamFreezer can write that combination, but StreamThawer.open always treated
zlib data as pickle.
---
 converter21/shared/m21utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index e67b7a5..a686f8a 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -635,7 +635,11 @@ class StreamThawer(StreamFreezeThawBase):
             elif zipType == 'zlib':
                 try:
                     uncompressed = zlib.decompress(fileData)
-                    storage = pickle.loads(uncompressed)
+                    if self.parseOpenFmt(uncompressed) == 'jsonpickle':
+                        import jsonpickle
+                        storage = jsonpickle.decode(uncompressed.decode())
+                    else:
+                        storage = pickle.loads(uncompressed)
                 except Exception as e:
                     print(f'Problem in thawing zipped score: {e}', file=sys.stderr)
                     return
-- 
2.43.0


From be613b40094c6b6d282d2a670b95d27d47487338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:18 +0000
Subject: [PATCH 08/21] fix: print diagnostics on stderr, never into the
 document on stdout

---
 converter21/humdrum/humdrumfile.py  |  2 +-
 converter21/mei/m21objectconvert.py |  2 +-
 converter21/shared/m21utilities.py  | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/converter21/humdrum/humdrumfile.py b/converter21/humdrum/humdrumfile.py
index 5befd24..a17add3 100755
--- a/converter21/humdrum/humdrumfile.py
+++ b/converter21/humdrum/humdrumfile.py
@@ -3599,7 +3599,7 @@ class HumdrumFile(HumdrumFileContent):
 
         obj: m21.Music21Object | None = token.getValueM21Object('music21', 'generalNote')
         if not isinstance(obj, m21.note.NotRest):
-            print(f'startBeam failed: no m21 NotRest found in token ({token})')
+            print(f'startBeam failed: no m21 NotRest found in token ({token})', file=sys.stderr)
             return
 
         # We append explicitly (instead of with a single call to beams.fill(numBeams))
diff --git a/converter21/mei/m21objectconvert.py b/converter21/mei/m21objectconvert.py
index f38bf8d..b47cd27 100644
--- a/converter21/mei/m21objectconvert.py
+++ b/converter21/mei/m21objectconvert.py
@@ -2188,7 +2188,7 @@ class M21ObjectConvert:
         obj: m21.base.Music21Object
     ) -> t.Callable[[m21.base.Music21Object, m21.spanner.SpannerBundle, TreeBuilder], None] | None:
         if isinstance(obj, m21.stream.Stream):
-            print(f'skipping unexpected stream object: {obj.classes[0]}')
+            print(f'skipping unexpected stream object: {obj.classes[0]}', file=sys.stderr)
             return None
 
         # obj.classes[0] is the most specific class name; we look for that first
diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index a686f8a..67852f7 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -471,7 +471,7 @@ class StreamFreezer(StreamFreezeThawBase):
                 if zipType == 'zlib':
                     output = zlib.compress(output)
             except Exception as e:
-                print(f'StreamFreezer: failed {e}')
+                print(f'StreamFreezer: failed {e}', file=sys.stderr)
                 output = b''
 
         elif fmt == 'jsonpickle':
@@ -483,7 +483,7 @@ class StreamFreezer(StreamFreezeThawBase):
                 output = zlib.compress(output.encode())
 
         else:  # pragma: no cover
-            print(f'bad StreamFreezer format: {fmt}')
+            print(f'bad StreamFreezer format: {fmt}', file=sys.stderr)
             output = b''
 
         return output
@@ -555,10 +555,10 @@ class StreamThawer(StreamFreezeThawBase):
                     try:
                         streamObj.coreInsert(offset, e)
                     except AttributeError:  # pragma: no cover
-                        print('Problem in decoding... some debug info...')
-                        print(offset, e)
-                        print(streamObj)
-                        print(streamObj.activeSite)
+                        print('Problem in decoding... some debug info...', file=sys.stderr)
+                        print(offset, e, file=sys.stderr)
+                        print(streamObj, file=sys.stderr)
+                        print(streamObj.activeSite, file=sys.stderr)
                         raise
                 else:
                     streamObj.coreStoreAtEnd(e)
-- 
2.43.0


From 815006ed3123962c9e54eda1c856c57f3f5f06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:58 +0000
Subject: [PATCH 09/21] fix: order chord alterations of the same degree by
 name, not by set order

---
 converter21/shared/m21utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 67852f7..0f3571d 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -3611,8 +3611,11 @@ class M21Utilities:
             cs = None
 
         if cs is not None and leftoverDegrees:
-            # add the extra degrees not implied by m21ChordKind (in order, lowest first)
-            leftoverDegreesList = sorted(list(leftoverDegrees), key=M21Utilities._degreeInt)
+            # add the extra degrees not implied by m21ChordKind (in order, lowest first;
+            # the name breaks the tie between e.g. 'b9' and '#9', not the order of the set)
+            leftoverDegreesList = sorted(
+                leftoverDegrees, key=lambda deg: (M21Utilities._degreeInt(deg), deg)
+            )
             for deg in leftoverDegreesList:
                 degInt: int = M21Utilities._degreeInt(deg)
                 if degInt == 1:
-- 
2.43.0


From cf95e621eca1604b483bc727231d6552e4182083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 10/21] fix: StreamFreezer keeps the order of the elements of
 spanners

---
 converter21/shared/m21utilities.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 0f3571d..1b5c2cc 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -210,10 +210,25 @@ class StreamFreezer(StreamFreezeThawBase):
             # deepcopy necessary because we mangle sites in the objects
             # before serialization
             self.stream = deepcopy(streamObj)
+            self.restoreSpannedElementOrder(self.stream)
             # self.stream = streamObj
         elif streamObj is not None:
             self.stream = streamObj
 
+    def restoreSpannedElementOrder(self, streamObj):
+        # music21's deepcopy of a spanner forgets that the spanned elements are never
+        # sorted (autoSort is False), and so may reorder them (even swapping start and end).
+        for sp in streamObj.recurse().getElementsByClass(m21.spanner.Spanner):
+            sp.spannerStorage.autoSort = False
+            original = sp.derivation.origin
+            if original is None:
+                continue
+            order = {id(el): i for i, el in enumerate(original.spannerStorage._elements)}
+            sp.spannerStorage._elements.sort(
+                key=lambda el: order.get(id(el.derivation.origin), order.get(id(el), len(order)))
+            )
+            sp.spannerStorage.coreElementsChanged(updateIsFlat=False)
+
     def packStream(self, streamObj=None):
         # do all things necessary to set up the stream
         if streamObj is None:
-- 
2.43.0


From 258f08e60e2aee61a6be49337e2ad23804754892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:29 +0000
Subject: [PATCH 11/21] fix: StreamFreezer jsonpickle format keeps dictionary
 keys that are not strings

---
 converter21/shared/m21utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 1b5c2cc..06f3748 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -491,6 +491,7 @@ class StreamFreezer(StreamFreezeThawBase):
 
         elif fmt == 'jsonpickle':
             import jsonpickle  # type: ignore
+            keywords.setdefault('keys', True)  # dictionary keys that are not str must not become str
             output = jsonpickle.encode(storage, **keywords)
             if t.TYPE_CHECKING:
                 assert isinstance(output, str)
@@ -652,7 +653,7 @@ class StreamThawer(StreamFreezeThawBase):
                     uncompressed = zlib.decompress(fileData)
                     if self.parseOpenFmt(uncompressed) == 'jsonpickle':
                         import jsonpickle
-                        storage = jsonpickle.decode(uncompressed.decode())
+                        storage = jsonpickle.decode(uncompressed.decode(), keys=True)
                     else:
                         storage = pickle.loads(uncompressed)
                 except Exception as e:
@@ -666,7 +667,7 @@ class StreamThawer(StreamFreezeThawBase):
         elif fmt == 'jsonpickle':
             import jsonpickle
             try:
-                storage = jsonpickle.decode(fileData)
+                storage = jsonpickle.decode(fileData, keys=True)
             except Exception as e:
                 print(f'Problem in thawing jsonpickled score: {e}', file=sys.stderr)
                 return
-- 
2.43.0


From 03db28319b98ad5c2390a7d20c7174836c57690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:23 +0000
Subject: [PATCH 12/21] fix: the command line no longer announces a file it did
 not write when the input contains several scores

---
 converter21/__main__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/converter21/__main__.py b/converter21/__main__.py
index 7905602..1670725 100644
--- a/converter21/__main__.py
+++ b/converter21/__main__.py
@@ -15,6 +15,7 @@ import os
 import sys
 
 from music21 import converter
+from music21 import stream
 from music21.base import VERSION_STR
 import converter21
 
@@ -168,6 +169,13 @@ if __name__ == "__main__":
             # valid extension for it
             outputFile = outFileName + getValidOutputExtensionForFormat(args.output_to)
 
+    # music21 writes each score of an Opus to its own (numbered) file
+    numScores = len(s.scores) if isinstance(s, stream.Opus) else 1
+    if numScores == 0 or (numScores > 1 and outputFile is None):
+        print(f'Input contains {numScores} scores: cannot write to {args.output_file}',
+                file=sys.stderr)
+        sys.exit(1)
+
     # makeNotation=False only works with recent music21 v7
     actualOutFile = s.write(fmt=args.output_to, fp=outputFile, makeNotation=False)
     if outputFile is None:
@@ -175,5 +183,8 @@ if __name__ == "__main__":
         with open(actualOutFile, encoding='utf-8') as f:
             outStr: str = f.read()
             sys.stdout.write(outStr)
+    elif isinstance(s, stream.Opus):
+        print(f'Success!  Output of {numScores} score(s) can be found in numbered file(s),',
+                'the last of which is', actualOutFile, file=sys.stderr)
     else:
         print('Success!  Output can be found in', outputFile, file=sys.stderr)
-- 
2.43.0


From f9ef425a755c4e4f0e9e60679fe240f9b68079a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:11 +0000
Subject: [PATCH 13/21] fix: the command line no longer mistakes the contents
 of standard input for a file name

---
 converter21/__main__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/converter21/__main__.py b/converter21/__main__.py
index 1670725..d34061c 100644
--- a/converter21/__main__.py
+++ b/converter21/__main__.py
@@ -141,14 +141,14 @@ if __name__ == "__main__":
 
     # support stdin and stdout
     if args.input_file == '-':
-        # read into args.input_file the entire input as a string
-        args.input_file = sys.stdin.read()
-
-    s = converter.parse(
-        args.input_file,
-        format=args.input_from,
-        forceSource=not args.cached_parse_ok
-    )
+        # parse the entire input as a string (that must not be mistaken for a file name)
+        s = converter.parseData(sys.stdin.read(), format=args.input_from)
+    else:
+        s = converter.parse(
+            args.input_file,
+            format=args.input_from,
+            forceSource=not args.cached_parse_ok
+        )
 
     # check validity of outputFormat
     if args.output_to not in getOutputFormatsList():
-- 
2.43.0


From 17a43b837337c6d6bb1a3c986332353615316d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:11 +0000
Subject: [PATCH 14/21] fix: the command line fails when the Humdrum input
 could not be parsed

---
 converter21/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter21/__main__.py b/converter21/__main__.py
index d34061c..9bbe153 100644
--- a/converter21/__main__.py
+++ b/converter21/__main__.py
@@ -150,6 +150,10 @@ if __name__ == "__main__":
             forceSource=not args.cached_parse_ok
         )
 
+    if getattr(s, 'c21_parse_err', None):
+        print(f'Input cannot be parsed: {s.c21_parse_err}', file=sys.stderr)
+        sys.exit(1)
+
     # check validity of outputFormat
     if args.output_to not in getOutputFormatsList():
         print('Output format \'{args.output_to}\' not supported.', file=sys.stderr)
-- 
2.43.0


From 423dad3ebb3f02a004b8af576f0790d2ba04d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:38 +0000
Subject: [PATCH 15/21] fix: give the lines that replace unusable ones a line
 index

With acceptSyntaxErrors, spined lines before the first exclusive
interpretation were replaced with comments that had line index -1, so
walking forward from the line before one restarted at the top of the
file: an OMD line followed by such a line made the import loop forever.
---
 converter21/humdrum/humdrumfilebase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter21/humdrum/humdrumfilebase.py b/converter21/humdrum/humdrumfilebase.py
index 48c3392..e9d8a11 100644
--- a/converter21/humdrum/humdrumfilebase.py
+++ b/converter21/humdrum/humdrumfilebase.py
@@ -1023,6 +1023,8 @@ nextTokenIdx = {nextTokenIdx}, nextLine.tokenCount = {nextLine.tokenCount}'''
                 )
                 self.numSyntaxErrorsFixed += 1
                 self._lines[i].createTokensFromLine()
+                self._lines[i].lineIndex = i
+                self._lines[i].ownerFile = self
                 i += 1
                 continue
 
-- 
2.43.0


From 0db38efd9307524b9bfd103524d94a8d66201f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:36 +0000
Subject: [PATCH 16/21] fix: MEI export left its temporary spanners on the
 caller's notes (getSpannerSites)

---
 converter21/mei/meiscore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter21/mei/meiscore.py b/converter21/mei/meiscore.py
index 21fb08d..ab89c2c 100755
--- a/converter21/mei/meiscore.py
+++ b/converter21/mei/meiscore.py
@@ -558,6 +558,9 @@ class MeiScore:
 
     def deannotateScore(self) -> None:
         for sp in list(self.m21Score[M21TemporarySpanner]):
+            # the spanned elements must forget the spanner, too
+            for el in sp.getSpannedElements():
+                sp.spannerStorage.remove(el)
             self.m21Score.remove(sp)
 
         # we don't put 'xml_id' in self.customM21AttrsToDelete, because
@@ -886,15 +889,15 @@ class MeiScore:
                         if t.TYPE_CHECKING:
                             assert note.tie is not None
                         newTieSpanner = M21TieSpanner(note.tie, startParentChord=noteOrChord)
-                        newTieSpanner.addSpannedElements(note)
                         self.m21Score.append(newTieSpanner)
+                        newTieSpanner.addSpannedElements(note)
                         partTieSpanners.append((newTieSpanner, 1))
             elif startsTie(noteOrChord):
                 if t.TYPE_CHECKING:
                     assert noteOrChord.tie is not None
                 newTieSpanner = M21TieSpanner(noteOrChord.tie, startParentChord=None)
-                newTieSpanner.addSpannedElements(noteOrChord)
                 self.m21Score.append(newTieSpanner)
+                newTieSpanner.addSpannedElements(noteOrChord)
                 partTieSpanners.append((newTieSpanner, 1))
 
         if not partTieSpanners:
-- 
2.43.0


From cb1412cd30bfc3558e066d786e61a4489df92558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:36 +0000
Subject: [PATCH 17/21] fix: Humdrum export of a Measure transposed the
 caller's notes spanned by an Ottava outside that measure

---
 converter21/humdrum/eventdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/converter21/humdrum/eventdata.py b/converter21/humdrum/eventdata.py
index ed9a41c..18c87d2 100644
--- a/converter21/humdrum/eventdata.py
+++ b/converter21/humdrum/eventdata.py
@@ -99,6 +99,14 @@ class EventData:
             if ottava.transposing:
                 # Convert the Ottava to a non-transposing Ottava by transposing all pitches
                 # to their sounding octave.  This makes the Humdrum notes export correctly.
+                # (If we are exporting only a piece of a score, such as a Measure, the Ottava
+                # may span elements outside that piece.  Those are not ours to transpose.)
+                ownerScore = self.ownerMeasure.ownerStaff.ownerPart.ownerScore
+                for el in ottava.getSpannedElements():
+                    try:
+                        el.getOffsetInHierarchy(ownerScore.m21Score)
+                    except m21.sites.SitesException:
+                        ottava.spannerStorage.remove(el)
                 ottava.fill(self.ownerMeasure.ownerStaff.m21PartStaff)
                 ottava.performTransposition()
 
-- 
2.43.0


From 8e0bc2244710dc78f97f7085f8a108bce38e0b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:39 +0000
Subject: [PATCH 18/21] fix: lenient Humdrum import that failed with an error
 without text (e.g. MemoryError) reported no error

---
 converter21/HumdrumConverter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter21/HumdrumConverter.py b/converter21/HumdrumConverter.py
index fcbd52a..fd6aa32 100644
--- a/converter21/HumdrumConverter.py
+++ b/converter21/HumdrumConverter.py
@@ -58,7 +58,7 @@ class HumdrumConverter(SubConverter):
             # if HumdrumFile raised an exception, it could not work around all the
             # syntax errors, so we must return an empty score.
             self.stream = stream.Score()
-            self.stream.c21_parse_err = f'{e}'  # type: ignore
+            self.stream.c21_parse_err = f'{e}' or repr(e)  # type: ignore
 
         return self.stream
 
@@ -88,7 +88,7 @@ class HumdrumConverter(SubConverter):
             # if HumdrumFile raised an exception, it could not work around all the
             # syntax errors, so we must return an empty score.
             self.stream = stream.Score()
-            self.stream.c21_parse_err = f'{e}'  # type: ignore
+            self.stream.c21_parse_err = f'{e}' or repr(e)  # type: ignore
 
         return self.stream
 
-- 
2.43.0


From aaa2e5d223f4f9a4450a688015d971faed4fed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 19/21] fix: exporting text that UTF-8 cannot encode truncated
 the existing output file

---
 converter21/HumdrumConverter.py | 5 ++++-
 converter21/MEIConverter.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/converter21/HumdrumConverter.py b/converter21/HumdrumConverter.py
index fd6aa32..d5db1b7 100644
--- a/converter21/HumdrumConverter.py
+++ b/converter21/HumdrumConverter.py
@@ -123,7 +123,10 @@ class HumdrumConverter(SubConverter):
         if not hdw.write(output):
             raise HumdrumExportError('Score cannot be exported to Humdrum (are there no parts?)')
 
+        contents: str = output.getvalue()
+        contents.encode('utf-8')  # raises if this text cannot be written to the file
+
         with open(fp, 'w', encoding='utf8') as f:
-            f.write(output.getvalue())
+            f.write(contents)
 
         return fp
diff --git a/converter21/MEIConverter.py b/converter21/MEIConverter.py
index 2c42c15..bb1b7ce 100644
--- a/converter21/MEIConverter.py
+++ b/converter21/MEIConverter.py
@@ -128,7 +128,10 @@ class MEIConverter(SubConverter):
         output = io.StringIO()
         meiw.write(output)
 
+        contents: str = output.getvalue()
+        contents.encode('utf-8')  # raises if this text cannot be written to the file
+
         with open(fp, 'wt', encoding='utf-8') as f:
-            f.write(output.getvalue())
+            f.write(contents)
 
         return fp
-- 
2.43.0


From 86b13b6034fa64f8786b08ff83046fd19fbc67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 20/21] fix: MEI export of a Part or Voice changed where the
 caller's object is (activeSite, offset)

---
 converter21/shared/m21utilities.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/converter21/shared/m21utilities.py b/converter21/shared/m21utilities.py
index 06f3748..48ab899 100644
--- a/converter21/shared/m21utilities.py
+++ b/converter21/shared/m21utilities.py
@@ -805,9 +805,13 @@ class M21Utilities:
         if p.isFlat:
             p = p.makeMeasures()
         s = m21.stream.Score()
-        s.insert(0, p)
-        s.metadata = deepcopy(M21Utilities._getMetadataFromContext(p))
-        return M21Utilities._fromScore(s)
+        clientSite = p.activeSite  # p might be the client's own part
+        try:
+            s.insert(0, p)
+            s.metadata = deepcopy(M21Utilities._getMetadataFromContext(p))
+            return M21Utilities._fromScore(s)
+        finally:
+            p.activeSite = clientSite
 
     @staticmethod
     def _getMetadataFromContext(s: m21.stream.Stream) -> m21.metadata.Metadata | None:
@@ -844,8 +848,12 @@ class M21Utilities:
         From a voice, put it in a measure, then a part, then a score
         '''
         m = m21.stream.Measure(number=1)
-        m.insert(0, v)
-        return M21Utilities._fromMeasure(m)
+        clientSite = v.activeSite  # v might be the client's own voice
+        try:
+            m.insert(0, v)
+            return M21Utilities._fromMeasure(m)
+        finally:
+            v.activeSite = clientSite
 
     @staticmethod
     def _fromStream(st: m21.stream.Stream) -> m21.stream.Score:
-- 
2.43.0


From 99d0d28b70c86b94c45e61c126c138291daf7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:03 +0000
Subject: [PATCH 21/21] fix: an interrupt or another thread could leave/see
 half of the repeat barline style table (KeyError in Humdrum exports)

---
 converter21/humdrum/m21convert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/converter21/humdrum/m21convert.py b/converter21/humdrum/m21convert.py
index 48c11ee..fb5d853 100644
--- a/converter21/humdrum/m21convert.py
+++ b/converter21/humdrum/m21convert.py
@@ -3090,8 +3090,6 @@ class M21Convert:
             MeasureVisualStyle.Final
         )
 
-        M21Convert._repeatBothStyleCombos = theLookup
-
         # fill in the rest:
         for vStyle1 in MeasureVisualStyle:
             for vStyle2 in MeasureVisualStyle:
@@ -3118,6 +3116,10 @@ class M21Convert:
                     # vStyle1 wins
                     theLookup[(vStyle1, vStyle2)] = vStyle1
 
+        # Publish the table only when it is complete (another thread might be waiting to use
+        # it, and if we are interrupted, the next caller must not find half a table).
+        M21Convert._repeatBothStyleCombos = theLookup
+
     @staticmethod
     def _combineVisualRepeatBothStyles(
         style1: MeasureVisualStyle,
-- 
2.43.0

