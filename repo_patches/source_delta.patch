From ed61ded9a4f3a874d760feddedeb501ca4cbb3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 01/40] fix: treat only root-level files as special BagIt files
 when splitting

nonstandard() matched the special file names against the basename of a file
in any directory, so payload files like data/fetch.txt were left out of a
split plan; the unescaped dots also dropped root files such as bagit_txt.
---
 multibag/access/extended.py | 6 +++---
 multibag/split.py           | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..1fa38e3 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -159,8 +159,8 @@ class ExtendedReadMixin(object):
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
@@ -168,7 +168,7 @@ class ExtendedReadMixin(object):
                 yield dir
             for file in files:
                 # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
+                if dir or not any([bool(spf.match(file)) for spf in special]):
                     yield os.path.join(dir, file)
 
     def _load_bag_info(self):
diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..c52e54f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -602,8 +602,8 @@ class WellPackedSplitter(Splitter):
         }
         
     _special = [re.compile(r) for r in
-                       r"^/bagit.txt$ ^/bag-info.txt$ ^/fetch.txt$".split() +
-                       r"^/(tag)?manifest-(\w+).txt$".split()]
+                       r"^/bagit\.txt$ ^/bag-info\.txt$ ^/fetch\.txt$".split() +
+                       r"^/(tag)?manifest-(\w+)\.txt$".split()]
     def _is_special(self, filename):
         for r in self._special:
             if r.match(filename):
-- 
2.43.0


From 2f38125ecc857705a29069a89c50cf20004c8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:06 +0000
Subject: [PATCH 02/40] fix: honor paths reserved for the head bag given
 without a leading slash

The normalization was applied to the caller's list rather than to the
splitter's own copy.
---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c52e54f..9090465 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -536,9 +536,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
                 
 
     def _create_plan(self, bagpath):
-- 
2.43.0


From f5ddcf0b5a5a3919c1245defc550ce5703e77aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:10 +0000
Subject: [PATCH 03/40] fix: support any iterator as the naming iterator given
 to apply_iter()

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 9090465..ac18387 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -261,7 +261,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From bdd8fa4478f2b77204891fd8a068102e6fa19956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:15 +0000
Subject: [PATCH 04/40] fix: raise RuntimeError if the naming iterator provides
 no names at all

---
 multibag/split.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/split.py b/multibag/split.py
index ac18387..f70bc22 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -158,6 +158,7 @@ class SplitPlan(object):
         use = self._manifests
         if reverse:
             use = reversed(use)
+        name = None
         try:
             for m in use:
                 name = next(naming_iter)
-- 
2.43.0


From 37687f9a9f2204b9f9e78ccb0072219e508d9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:19 +0000
Subject: [PATCH 05/40] fix: do not write over a source head bag's multibag tag
 files when splitting it

When the source bag is itself a head bag, its member-bags.tsv, etc. files were
replicated (as hard links) into an output bag and then re-opened for writing
there, clobbering the source bag.  They are generated anew for the output head
bag; thus, they should not be replicated.
---
 multibag/split.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index f70bc22..ced1813 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -247,6 +247,9 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
+        generated = ["multibag/"+f for f in ["member-bags.tsv",
+                                             "file-lookup.tsv",
+                                             "aggregation-info.txt"]]
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
             try:
@@ -288,6 +291,8 @@ class SplitPlan(object):
             payload_count = 0
             payload_size = 0
             for file in m['contents']:
+                if file in generated:
+                    continue
 
                 if not self.progenitor.exists(file):
                     if logger:
-- 
2.43.0


From 905cfa6206ff8d531f339e5c15378b46508c2d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:24 +0000
Subject: [PATCH 06/40] fix: support extra info fields when formatting a
 member-bags.tsv line

The extra fields raised a NameError, and when there was no URL they were written
to the URL column.
---
 multibag/access/multibag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..d36eb7a 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -53,10 +53,10 @@ class MemberInfo(object):
         The output will contain a trailing newline character.
         """
         out = self.name
-        if self.uri:
-            out += "\t"+self.uri
+        if self.uri or self.info:
+            out += "\t"+(self.uri or "")
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
@@ -79,7 +79,7 @@ class MemberInfo(object):
             if fields[-1].startswith('#'):
                 comm = fields.pop(-1).lstrip('#').strip()
         if len(fields) > 0:
-            uri = fields.pop(0)
+            uri = fields.pop(0) or None
         
         return MemberInfo(name, uri, comm, *fields)
 
-- 
2.43.0


From ba0f376ed5ceec4e49884bc3af1fc54e6b580aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:31 +0000
Subject: [PATCH 07/40] fix: load the existing deleted paths and member bags
 before updating them

The deleted_paths() and member_bags() methods were referenced but not called, so
that previously saved entries were lost on save (or not removed).
---
 multibag/access/multibag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index d36eb7a..c5dd50b 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -509,7 +509,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
@@ -648,7 +648,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -664,7 +664,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
-- 
2.43.0


From a77f264941193718d519b2a6a4474cf6d3425f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 08/40] fix: ignore spaces next to the tab following a name in
 the multibag tag files

The profile specification says that these are not part of the bag name or
file path.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index c5dd50b..25a6a54 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -72,7 +72,7 @@ class MemberInfo(object):
         if len(fields) < 1 or not fields[0]:
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
+        name = fields.pop(0).strip()
         comm = None
         uri = None
         if len(fields) > 0:
@@ -109,7 +109,7 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
+    out = [f.strip() for f in line.strip().split('\t')]
     if len(out) < 2:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
-- 
2.43.0


From d8688d0111b5b11264f68faea6dffcba2b168382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:25 +0000
Subject: [PATCH 09/40] fix: remove the deleted.txt file when there are no more
 deleted paths to save

---
 multibag/access/multibag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 25a6a54..4169029 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -681,8 +681,10 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         
         tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                                'deleted.txt')
-        if not self._deleted and os.path.exists(tagfile):
-            os.remove(tagfile)
+        if not self._deleted:
+            if os.path.exists(tagfile):
+                os.remove(tagfile)
+            return
 
         self.ensure_tagdir()
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From 469ec0c5f9691f177eda4a110998924043604de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:30 +0000
Subject: [PATCH 10/40] fix: accept exclude as a single string in
 update_for_member()

The string was assigned to include instead.
---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 4169029..11fa501 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -579,7 +579,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
-- 
2.43.0


From 7f8fc4df79ea3357aeb3d79d7b6e49ff007bb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:34 +0000
Subject: [PATCH 11/40] fix: use the last Multibag-Tag-Directory value when
 more than one is set

Reading the member bags or file lookup failed with a TypeError.
---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 11fa501..b1d7e1a 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -205,7 +205,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         opens the file anew and returns the contents via an iterator that returns
         MemberInfo instances.
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-members.txt") \
                       or "member-bags.tsv"
@@ -245,7 +245,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         """
         iterate through the contents of the multibag/file-lookup.tsv
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-directory.txt") \
                       or "file-lookup.tsv"
-- 
2.43.0


From 8977011f0e6eb1ea48f0d5a7daafb50971dba7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:38 +0000
Subject: [PATCH 12/40] fix: confine a bag's path-based access to the bag's
 directory

A sibling directory whose name starts with that of the bag could be reached via
"..", walk() did no checking at all, and replicate() could write outside of its
destination directory.
---
 multibag/access/extended.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 1fa38e3..fbf7154 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -260,7 +260,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
         path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        root = os.path.normpath(self._bagdir)
+        if path != root and not path.startswith(os.path.join(root, '')):
             return None
         return path
 
@@ -337,7 +338,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
         
-        destpath = os.path.join(destdir, path)
+        destpath = os.path.join(destdir, os.path.relpath(self._canon_path(path),
+                                                         self._bagdir))
         if self.isdir(path):
             if not os.path.isdir(destpath):
                 if logger:
@@ -412,7 +414,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.path.isabs(start):
             raise ValueError("walk(): start must not be absolute: "+start)
         root = os.path.join(self._bagdir, start).rstrip(os.sep)
-        if not os.path.isdir(root):
+        if not self.isdir(start):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
         for dir, subdirs, files in os.walk(root):
-- 
2.43.0


From e67689245d1df31e2dcfe86df7f2ff160e97b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:42 +0000
Subject: [PATCH 13/40] fix: detect as unsafe listed paths pointing into a
 sibling directory

The character-wise prefix check let through paths into directories whose name
starts with the name of the bag.
---
 multibag/access/bagit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..a482691 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -553,8 +553,8 @@ class ReadOnlyBag(_bagit.Bag):
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
         bag_path = os.path.normpath(self.path)
-        common = os.path.commonprefix((bag_path, real_path))
-        return not (common == bag_path)
+        return real_path != bag_path and \
+               not real_path.startswith(os.path.join(bag_path, ''))
 
 def _calc_hashes(args):
     # auto unpacking of sequences illegal in Python3
-- 
2.43.0


From 62a58c4a708f5b28a1c73eb7bdf32410522612f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:48 +0000
Subject: [PATCH 14/40] fix: report a failure to copy a file via replicate()

The exception was swallowed, and logging it (or the failure to create a hard
link) raised an AttributeError.
---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index fbf7154..162584d 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -366,7 +366,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
         if not hardlink:
             try:
@@ -375,7 +375,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.exception(msg, exc_info=True)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From c7b55acedaac7c965751cc631d5763ba2cddf0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 15/40] fix: compare Versions built from strings and tuples
 consistently

---
 multibag/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/constants.py b/multibag/constants.py
index 2b7994f..db7ae35 100644
--- a/multibag/constants.py
+++ b/multibag/constants.py
@@ -44,12 +44,12 @@ class Version(object):
     def __eq__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields == other.fields
+        return list(self.fields) == list(other.fields)
 
     def __lt__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields < other.fields
+        return list(self.fields) < list(other.fields)
 
     def __le__(self, other):
         if not isinstance(other, Version):
-- 
2.43.0


From ff17af971af5b57da3c4211ae62e885750b077b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:56 +0000
Subject: [PATCH 16/40] fix: report BagErrors as validation failures

BagError has no message attribute, so validating, for example, a bag with a
malformed Payload-Oxum raised an AttributeError.
---
 multibag/validate/bag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..86c6628 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -38,7 +38,7 @@ class BagValidator(Validator):
                 comments = [ex.message] + ex.details
             except BagError as ex:
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
 
             results._err(issue, passed, comments)
 
-- 
2.43.0


From 17890c85cf6c6864c35c6890e3375d4e4205c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:01 +0000
Subject: [PATCH 17/40] fix: accept absolute URLs as the URL of a member bag
 during validation

---
 multibag/validate/headbag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..b585364 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -327,7 +327,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -407,7 +407,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From 30e2e5b04b554f2f3a9e77e294bc1af24fc252d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:06 +0000
Subject: [PATCH 18/40] fix: report rather than choke on a bag lacking a
 Multibag-Head-Version

The head bag validator raised an AssertionError after recording the failure.
---
 multibag/validate/headbag.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index b585364..e5ab6e0 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -204,7 +204,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -273,7 +272,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -282,7 +280,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
 
         assert mdir
-        assert ishead
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -457,7 +454,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -466,7 +462,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -659,7 +654,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -668,7 +662,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 0ddf2ba00fef74163ea6230986fa581a6bf6bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:10 +0000
Subject: [PATCH 19/40] fix: only warn about a Multibag-Version that appears
 more than once

The list of values was compared against a version string, which resulted in an
error.
---
 multibag/validate/headbag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index e5ab6e0..1c86fa7 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -89,7 +89,7 @@ class HeadBagValidator(Validator):
 
         vers = data["Multibag-Version"]
         if isinstance(data["Multibag-Version"], (list, tuple)):
-            version = data["Multibag-Version"][-1]
+            vers = data["Multibag-Version"][-1]
 
         t = out._issue("3-Version-val",
                        "Multibag-Version must be set to '{0}'".format(version))
-- 
2.43.0


From b07ddbd3729f9dabbc43cf8257f32b52a5f506bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:14 +0000
Subject: [PATCH 20/40] fix: make ValidationIssue's tuple and JSON exports work

---
 multibag/validate/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 48607e1..c2a17e2 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -178,17 +178,17 @@ class ValidationIssue(object):
         """
         return OrderedDict([
             ("type", type_labels[self.type]),
-            ("profile_name", self.profile),
+            ("profile_name", "multibag"),
             ("profile_version", self.profile_version),
             ("label", self.label),
-            ("spec", self.message),
+            ("spec", self.specification),
             ("comments", self.comments)
         ])
 
     @classmethod
     def from_tuple(cls, data):
-        return ValidationIssue(data[1], data[2], data[3], data[0], 
-                               data[4], data[5], data[6])
+        return ValidationIssue(data[3], data[0], data[4], data[5], 
+                               data[6], data[2])
 
 class ValidationResults(object):
     """
-- 
2.43.0


From a59702161ec7d2cf8cc613fe2dc311df0e72e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:23 +0000
Subject: [PATCH 21/40] fix: do not update the amendee's
 Multibag-Head-Deprecates values

The amendee's list of values was appended to when it was a Bag instance provided
by the caller.
---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..170683a 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -277,7 +277,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                         list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
-- 
2.43.0


From 028de4f50f642e932946384821fef23dc99f8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 22/40] fix: keep files deleted from an aggregation deleted
 when it is amended

The profile specification requires that the new head bag's deleted.txt list all
of the paths from the previous one except for those returned by the amendment.
---
 multibag/amend.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/multibag/amend.py b/multibag/amend.py
index 170683a..39d67cd 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -218,6 +218,7 @@ class Amender(object):
         self._pid = pid
         self._comm = comment
         self._info = list(info)
+        self._olddeleted = []
 
     def init_from_amendee(self, keepprofver=False):
         """
@@ -234,6 +235,7 @@ class Amender(object):
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
+        self._init_deleted()
 
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
@@ -268,6 +270,21 @@ class Amender(object):
             # just add the files under 'data'
             self._newhead.update_for_member(self._oldhead, make_member=False)
 
+    def _init_deleted(self):
+        # keep deleted what has been deleted already
+        if self._oldhead.is_head_multibag():
+            already = self._newhead.deleted_paths(True)
+            self._olddeleted = [p for p in self._oldhead.iter_deleted()
+                                  if p not in already]
+            for path in self._olddeleted:
+                self._newhead.set_deleted(path)
+
+    def _undelete_from(self, bag):
+        # return the files provided in an amending bag to the aggregation
+        for path in self._olddeleted:
+            if bag.exists(path):
+                self._newhead.unset_deleted(path)
+
     def _init_multibag_info(self, keepprofver=False):
         profver = CURRENT_VERSION
         if keepprofver and 'Multibag-Version' in self._oldhead.info:
@@ -322,6 +339,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_from(membag)
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -349,9 +367,11 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_from(self._newhead)
 
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
+        self._newhead.save_deleted()
         self._newhead.update_info(version, self._newhead.profile_version)
 
         
-- 
2.43.0


From e243b6d0e87962f2786caa22aaae1dd7a85e6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:09 +0000
Subject: [PATCH 23/40] fix: set the right member name when converting a bag
 given with a trailing slash

---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 39d67cd..b3d6a90 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,7 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
+        bagname = self.bag.name
         mi = MemberInfo(bagname, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
-- 
2.43.0


From 5f6985a6a7925748b9345779e0deca78899feb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:25 +0000
Subject: [PATCH 24/40] fix: let replicate() be repeated for a file already
 hard linked at its destination

---
 multibag/access/extended.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 162584d..b55f40d 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -368,7 +368,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                           "): " + str(ex) + "; swithching to copy mode."
                     logger.warning(msg)
 
-        if not hardlink:
+        if not hardlink and not (os.path.exists(destpath) and
+                                 os.path.samefile(source, destpath)):
             try:
                 shutil.copy(source, destpath)
             except Exception as ex:
-- 
2.43.0


From bdea713d1f865381d5bce85f663f90e56f565e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 25/40] fix: merge member bags' manifests when restoring a bag

Manifest files were first copied verbatim, introducing the (wrong) checksums of
files overridden by later member bags as well as entries for deleted files;
merging failed with a KeyError when the member bags use different checksum
algorithms.
---
 multibag/restore.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..eaf23c2 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -23,6 +23,7 @@ else:
     FileNotFoundError = _FileNotFoundError 
 
 serialized_extensions = set(_ext_fs_lookup.keys())
+_manifestre = re.compile(r"^(tag)?manifest-(\w+)\.txt$")
 
 class BagRestorer(object):
     """
@@ -193,6 +194,10 @@ class BagRestorer(object):
                 if os.path.join(root, f) in skip:
                     continue
                 destf = os.path.join(self._destdir, root, f)
+                if not root and _manifestre.match(f):
+                    # the contents are merged in via _update_manifests()
+                    io.open(destf, 'a', encoding=DEF_ENC).close()
+                    continue
                 if overwrite and os.path.exists(destf):
                     os.remove(destf)
                 if not os.path.exists(destf):
@@ -237,7 +242,7 @@ class BagRestorer(object):
                 
         for path in destbag.entries:
             for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
+                if path not in updated and alg in destbag.entries[path]:
                     updated_by_alg[alg][path] = destbag.entries[path][alg]
 
         for alg in updated_by_alg:
-- 
2.43.0


From c0032be8689076c372cc514deeb98b198b421f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 26/40] fix: merge member bags' fetch.txt files in the
 specified order

Lines from later member bags override those from earlier ones; the head bag's
lines must be included, and deleted paths must be left out.
---
 multibag/restore.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index eaf23c2..61671cd 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -168,7 +168,7 @@ class BagRestorer(object):
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
+                        filen = line.strip().rsplit(None, 1)[-1]
                         if filen not in fetch:
                             fetch[filen] = line
 
@@ -261,9 +261,14 @@ class BagRestorer(object):
                         fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
 
         
-    def restore_fetch(self, members=None):
+    def restore_fetch(self, members=None, skip=None):
         """
         restore the fetch file to the output bag.  
+        :param list members: the member bags, as MemberInfo objects, to get the fetch data from, 
+                             in the order that they are listed in the head bag.  Entries from later 
+                             bags override those from earlier ones.
+        :param list skip:    the paths that should not be restored (e.g. because they have been 
+                             marked as deleted)
         """
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
@@ -272,19 +277,28 @@ class BagRestorer(object):
             members = list(self._head.member_bags())
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
+            if member.name == self._head.name:
+                src = self._head.path
+            else:
+                src = self.get_member_bag(member.name)
             bag = open_bag(src)
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
                         parts = line.strip().rsplit(None, 1)
                         if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+                            fetch[parts[1]] = line.strip() + "\n"
+        for path in (skip or []):
+            for f in [f for f in fetch if f == path or f.startswith(path+'/')]:
+                del fetch[f]
+
+        fp = os.path.join(self._destdir, "fetch.txt")
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
                 for f in fetch:
                     fd.write(fetch[f])
+        elif os.path.exists(fp):
+            os.remove(fp)
 
     def restore(self, update_sizes=True, remove_multibag_tags=True):
         """
@@ -312,8 +326,7 @@ class BagRestorer(object):
             self.restore_member(member.name, skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch(list(self._head.member_bags()), skip)
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-- 
2.43.0


From b090c21c65b5d5a5266bb954eadcb0bcaa0a0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 27/40] fix: support head bags with a non-default multibag tag
 directory when restoring

---
 multibag/restore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 61671cd..906e43c 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -92,7 +92,7 @@ class BagRestorer(object):
         if not compdir:
             if self._fetcher:
                 # set a default cached directory inside the target destination bag
-                compdir = os.path.join(self._destdir, "multibag", "_membercache")
+                compdir = os.path.join(self._destdir, self._head.multibag_tag_dir, "_membercache")
             else:
                 compdir = os.path.dirname(os.path.abspath(self._head.path))
         self._cachedir = compdir
@@ -310,8 +310,9 @@ class BagRestorer(object):
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        agginfo = self._head.multibag_tag_dir + "/aggregation-info.txt"
+        if self._head.isfile(agginfo):
+            with self._head.open_text_file(agginfo) as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
@@ -330,7 +331,8 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
+            if restoredbag.isdir(self._head.multibag_tag_dir):
+                shutil.rmtree(os.path.join(self._destdir, self._head.multibag_tag_dir))
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From bac1fc4cbf8c05e5ffa7913c7f218eff393560f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:42 +0000
Subject: [PATCH 28/40] fix: remove deleted files that come from the head bag
 when it is restored in place

---
 multibag/restore.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 906e43c..296f2b4 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -229,6 +229,24 @@ class BagRestorer(object):
         if updated:
             self._update_manifests(srcbag, updated)
 
+    def _remove_deleted(self, deleted):
+        # remove the given paths (and any manifest entries for them) from the destination bag
+        destbag = as_extended(Bag(self._destdir))
+        for path in deleted:
+            if destbag.isfile(path):
+                os.remove(os.path.join(self._destdir, path))
+            elif destbag.isdir(path):
+                shutil.rmtree(os.path.join(self._destdir, path))
+
+        for mf in list(destbag.manifest_files()) + list(destbag.tagmanifest_files()):
+            with io.open(mf, encoding=DEF_ENC) as fd:
+                lines = [ln for ln in fd if not self._is_deleted(ln.strip().split(None, 1)[-1:], deleted)]
+            with io.open(mf, 'w', encoding=DEF_ENC) as fd:
+                fd.writelines(lines)
+
+    def _is_deleted(self, paths, deleted):
+        return any([p == d or p.startswith(d+'/') for d in deleted for p in paths])
+
     def _update_manifests(self, srcbag, updated):
         destbag = open_bag(self._destdir)
 
@@ -318,7 +336,9 @@ class BagRestorer(object):
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
                 fd.write(content)
                     
-        if not self._inplace:
+        if self._inplace:
+            self._remove_deleted(skip)
+        else:
             self._restore_from(self._head.path, skip)
         if members and members[0].name == self._head.name:
             members.pop(0)
-- 
2.43.0


From f74fe765477b885961424da8c6094c985252faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 29/40] fix: retain checksums of files listed for fetching when
 restoring a bag

The restored bag's manifests must be the union of the member bags' manifests.
---
 multibag/restore.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 296f2b4..56065e0 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -226,8 +226,8 @@ class BagRestorer(object):
             if rmtime:
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
-        if updated:
-            self._update_manifests(srcbag, updated)
+        if updated or srcbag.entries:
+            self._update_manifests(srcbag, updated, skip)
 
     def _remove_deleted(self, deleted):
         # remove the given paths (and any manifest entries for them) from the destination bag
@@ -247,9 +247,14 @@ class BagRestorer(object):
     def _is_deleted(self, paths, deleted):
         return any([p == d or p.startswith(d+'/') for d in deleted for p in paths])
 
-    def _update_manifests(self, srcbag, updated):
+    def _update_manifests(self, srcbag, updated, skip=None):
         destbag = open_bag(self._destdir)
 
+        # include files that are not in any of the bags but are listed in a fetch.txt file
+        updated = updated + [p for p in srcbag.entries
+                               if p not in destbag.entries and not self._is_deleted([p], skip or [])
+                                  and not os.path.exists(os.path.join(self._destdir, p))]
+
         updated_by_alg = OrderedDict()
         for path in updated:
             if path in srcbag.entries:
-- 
2.43.0


From 18111dfe5f3ca7322430db79d0bbc6d6f3996503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:38 +0000
Subject: [PATCH 30/40] fix: never remove the restored bag itself along with
 its multibag tags or deleted files

---
 multibag/restore.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 56065e0..a6ae82f 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -235,7 +235,8 @@ class BagRestorer(object):
         for path in deleted:
             if destbag.isfile(path):
                 os.remove(os.path.join(self._destdir, path))
-            elif destbag.isdir(path):
+            elif destbag.isdir(path) and \
+                 not os.path.samefile(os.path.join(self._destdir, path), self._destdir):
                 shutil.rmtree(os.path.join(self._destdir, path))
 
         for mf in list(destbag.manifest_files()) + list(destbag.tagmanifest_files()):
@@ -356,8 +357,10 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            if restoredbag.isdir(self._head.multibag_tag_dir):
-                shutil.rmtree(os.path.join(self._destdir, self._head.multibag_tag_dir))
+            tagdir = os.path.join(self._destdir, self._head.multibag_tag_dir)
+            if restoredbag.isdir(self._head.multibag_tag_dir) and \
+               not os.path.samefile(tagdir, self._destdir):
+                shutil.rmtree(tagdir)
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From bb21db6ca672e7d7c5c19cab464849ad277e6221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 31/40] fix: raise RuntimeError when applying an empty split
 plan, as intended

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index ced1813..c23765a 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -225,7 +225,7 @@ class SplitPlan(object):
                 member bag and returns its output path.  StopIteration
                 is raised when there are no more output bags to write.
         """
-        if not self.manifests:
+        if not self._manifests:
             if logger:
                 logger.warn("Requested plan execution, but no manifests are set")
             raise RuntimeError("No manifests set for output bags")
-- 
2.43.0


From e33828b802aea9c52b20e7efe6cc46574cff7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:01 +0000
Subject: [PATCH 32/40] fix: support spaces in the file paths listed in a
 fetch.txt when restoring a bag

Only the last word of the path was used to match up entries, so that entries for
different files replaced each other.
---
 multibag/restore.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index a6ae82f..944f2cf 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -168,8 +168,8 @@ class BagRestorer(object):
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[-1]
-                        if filen not in fetch:
+                        filen = "".join(line.strip().split(None, 2)[2:])
+                        if filen and filen not in fetch:
                             fetch[filen] = line
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
@@ -309,9 +309,9 @@ class BagRestorer(object):
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line.strip() + "\n"
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2:
+                            fetch[parts[2]] = line.strip() + "\n"
         for path in (skip or []):
             for f in [f for f in fetch if f == path or f.startswith(path+'/')]:
                 del fetch[f]
-- 
2.43.0


From 0db7fe3d37435880d11807bc2bffd84eac4db64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:52 +0000
Subject: [PATCH 33/40] fix: support splitting a bag that has no bag-info.txt
 file

The bag-info.txt file is optional; applying a plan to a bag lacking it failed when it
was to be copied as the head bag's aggregation-info.txt.
---
 multibag/split.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c23765a..afb880a 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -397,9 +397,10 @@ class SplitPlan(object):
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
                 with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
                              'w', encoding=DEF_ENC) as fd:
-                    with self.progenitor.open_text_file("bag-info.txt") as ifd:
-                        for f in ifd:
-                            fd.write(f)
+                    if self.progenitor.isfile("bag-info.txt"):
+                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                            for f in ifd:
+                                fd.write(f)
                 
 
             yield bagdir
-- 
2.43.0


From 72a8c9f5ae9313643156339f22611ef8b806c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 34/40] fix: get a bag's name right when opened with a trailing
 slash

open_bag() set an empty name, so that such a bag could not be amended.
---
 multibag/access/bagit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index a482691..30f8e1f 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -635,6 +635,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
+        location = location.rstrip('/') or location
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
-- 
2.43.0


From 7e06d7d26804e555e7a196edb9b0ebbe8fba382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:02 +0000
Subject: [PATCH 35/40] fix: write the file-lookup.tsv file even if there are
 no files to list

The file is required, but converting a bag or amending an aggregation having no payload files
left it out.
---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index b1d7e1a..73c0efd 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -635,7 +635,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                                'file-lookup.tsv')
         if os.path.exists(tagfile):
             os.remove(tagfile)
-        self._filelu = None
+        self._filelu = OrderedDict()
         
 
     def set_deleted(self, filepath):
-- 
2.43.0


From c583e0483ee8c7ebe56578b36e7355aae93860cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:37 +0000
Subject: [PATCH 36/40] fix: treat paths pointing outside of a read-only bag as
 not existing in it

---
 multibag/access/bagit.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 30f8e1f..055b791 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -7,6 +7,7 @@ from __future__ import absolute_import
 import os, sys
 from collections import OrderedDict
 import fs.osfs, fs.zipfs, fs.tarfs
+from fs.errors import IllegalBackReference
 
 import bagit as _bagit
 from bagit import *    # import everything!
@@ -79,19 +80,28 @@ class Path(object):
         """
         return true if the file or directory pointed to exists in the filesystem
         """
-        return self.fs.exists(self.path)
+        try:
+            return self.fs.exists(self.path)
+        except IllegalBackReference:
+            return False
 
     def isfile(self):
         """
         return true if the path points to a file that exists in the filesystem
         """
-        return self.fs.isfile(self.path)
+        try:
+            return self.fs.isfile(self.path)
+        except IllegalBackReference:
+            return False
 
     def isdir(self):
         """
         return true if the path points to a directory that exists in the filesystem
         """
-        return self.fs.isdir(self.path)
+        try:
+            return self.fs.isdir(self.path)
+        except IllegalBackReference:
+            return False
 
     def __str__(self):
         return "{0}{1}".format(self._pfx, self.path)
-- 
2.43.0


From 71e9aec002d987f69a5418447b26e4069b00edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 37/40] fix: fall back on the default tag directory when the
 last value given is empty

---
 multibag/validate/headbag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 1c86fa7..0a6f9a8 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -277,7 +277,7 @@ class HeadBagValidator(Validator):
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
+        mdir = mdir[-1] or "multibag"
 
         assert mdir
 
@@ -459,7 +459,7 @@ class HeadBagValidator(Validator):
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
+        mdir = mdir[-1] or "multibag"
         
         assert mdir
 
@@ -659,7 +659,7 @@ class HeadBagValidator(Validator):
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
+        mdir = mdir[-1] or "multibag"
         
         assert mdir
 
-- 
2.43.0


From a8914544a5f6ef0f3b8f59047e3affd45a3dada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:42 +0000
Subject: [PATCH 38/40] fix: report rather than choke on URLs that cannot be
 parsed

---
 multibag/validate/headbag.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 0a6f9a8..d5dbda7 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -12,6 +12,12 @@ from .base import (Validator, ValidationIssue, ValidationResults,
 from .bag import BagValidator
 from ..access.bagit import BagValidationError, BagError, open_bag, _load_tag_file
 
+def _parse_url(url):
+    try:
+        return urlparse(url)
+    except ValueError:
+        return urlparse('')
+
 class HeadBagValidator(Validator):
     """
     A validator that tests whether a given Bag (serialized or otherwise) complies
@@ -120,7 +126,7 @@ class HeadBagValidator(Validator):
 
         t = out._issue("3-Reference-val",
                        "Multibag-Reference value must be an absolute URL")
-        url = urlparse(url)
+        url = _parse_url(url)
         out._err(t, url.scheme and url.netloc)
 
         return out
@@ -323,7 +329,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
+                    url = _parse_url(parts[1])
                     if not url.scheme:
                         badurl.append(i)
 
@@ -403,7 +409,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
+                    url = _parse_url(parts[1])
                     if not url.scheme:
                         badurl.append(i)
 
-- 
2.43.0


From a7a0ea8d27ffbbd2195951195a4d811500959b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:09 +0000
Subject: [PATCH 39/40] fix: treat paths pointing outside of a ReadOnlyBag as
 not existing in it

---
 multibag/access/bagit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 055b791..48a68fe 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -248,7 +248,7 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a relative path to a directory or file within the bag
         """
-        return self._root.fs.exists(path)
+        return self._root.relpath(path).exists()
 
     def isfile(self, path):
         """
@@ -257,7 +257,7 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a path to a file relative to the bag's root directory
         """
-        return self._root.fs.isfile(path)
+        return self._root.relpath(path).isfile()
 
     def isdir(self, path):
         """
@@ -267,7 +267,7 @@ class ReadOnlyBag(_bagit.Bag):
         :param str path:  a path to a directory relative to the bag's root 
                           directory
         """
-        return self._root.fs.isdir(path)
+        return self._root.relpath(path).isdir()
 
     def open_text_file(self, path, encoding='utf-8', errors='strict',
                        buffering=-1):
-- 
2.43.0


From cbd2c214c61fe622fe799df55a8bc2286dd23bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 40/40] fix: accept a member bag with a comment but no URL
 during validation

---
 multibag/validate/headbag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index d5dbda7..c9101ef 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -408,7 +408,8 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     found.add(last)
-                if len(parts) > 1 and len(parts[1]) > 0:
+                if len(parts) > 1 and len(parts[1]) > 0 and \
+                   not parts[1].startswith('#'):
                     url = _parse_url(parts[1])
                     if not url.scheme:
                         badurl.append(i)
-- 
2.43.0

