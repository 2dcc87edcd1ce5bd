From ff8951aaedfd7c1271023c0786fc39da140deda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:30 +0000
Subject: [PATCH 01/52] fix: treat only the root-level standard files as
 standard bag files

nonstandard() matched bagit.txt, bag-info.txt, fetch.txt and manifest names in any
directory, so payload files with such names were left out of completed split plans;
the unescaped dots also matched other names.
---
 multibag/access/extended.py | 12 +++++++-----
 multibag/split.py           |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..9263a3a 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -154,13 +154,14 @@ class ExtendedReadMixin(object):
         """
         iterate through the non-standard files in this bag.  This will 
         exclude the special files defined by the BagIt standard (bagit.txt,
-        bag-info.txt, fetch.txt and the manifest files).  It will include
+        bag-info.txt, fetch.txt and the manifest files), which are found only
+        at the root of the bag.  It will include
         any directory in the bag that is empty (to allow it to be replicated
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
@@ -168,8 +169,9 @@ class ExtendedReadMixin(object):
                 yield dir
             for file in files:
                 # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
-                    yield os.path.join(dir, file)
+                path = os.path.join(dir, file)
+                if not any([bool(spf.match(path)) for spf in special]):
+                    yield path
 
     def _load_bag_info(self):
         # this (re-)reads the bag-info data, loading it into an OrderedDict
diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..c52e54f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -602,8 +602,8 @@ class WellPackedSplitter(Splitter):
         }
         
     _special = [re.compile(r) for r in
-                       r"^/bagit.txt$ ^/bag-info.txt$ ^/fetch.txt$".split() +
-                       r"^/(tag)?manifest-(\w+).txt$".split()]
+                       r"^/bagit\.txt$ ^/bag-info\.txt$ ^/fetch\.txt$".split() +
+                       r"^/(tag)?manifest-(\w+)\.txt$".split()]
     def _is_special(self, filename):
         for r in self._special:
             if r.match(filename):
-- 
2.43.0


From e6164c45513d0e46e045951e6d8d41521150097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:11 +0000
Subject: [PATCH 02/52] fix: open serialized source bags given to SplitPlan by
 path

SplitPlan documents that the source path may be a serialized bag, but such a path
was given to ReadOnlyBag, which accepts only directories.
---
 multibag/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c52e54f..c83c6a1 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from functools import cmp_to_key
 
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
-from .access.bagit import Bag, ReadOnlyBag
+from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
@@ -65,7 +65,7 @@ class SplitPlan(object):
         """
         if isinstance(source, (str, _unicode)):
             if os.path.isfile(source):
-                source = ReadOnlyBag(source)
+                source = open_bag(source)
             else:
                 # so that we can replicate with hard links when possible
                 source = Bag(source)
-- 
2.43.0


From f054bf23ef227eef76102dc91a5f9a1a9b12b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 03/52] fix: compare versions built from text with versions
 built from fields

Fields are a list in one case and a tuple in the other, so equal versions compared
unequal and ordering them raised TypeError.
---
 multibag/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/constants.py b/multibag/constants.py
index 2b7994f..cf1188e 100644
--- a/multibag/constants.py
+++ b/multibag/constants.py
@@ -44,12 +44,12 @@ class Version(object):
     def __eq__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields == other.fields
+        return tuple(self.fields) == tuple(other.fields)
 
     def __lt__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields < other.fields
+        return tuple(self.fields) < tuple(other.fields)
 
     def __le__(self, other):
         if not isinstance(other, Version):
-- 
2.43.0


From 636caea132fab9f634398c0618ec62f79aaf1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:35 +0000
Subject: [PATCH 04/52] fix: honour head-bag reservations given without a
 leading slash

The caller's list was normalised (and so modified) instead of the splitter's copy,
and reserved files given by their bag path were packed like any other.
---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c83c6a1..e640925 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -536,9 +536,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
                 
 
     def _create_plan(self, bagpath):
-- 
2.43.0


From 3f17910f6d568b555b2ce1f5599e68b7c1af2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:36 +0000
Subject: [PATCH 05/52] fix: accept any iterator as a naming iterator when
 applying a split plan

apply_iter() called the Python 2 next() method, the check for an empty plan tested a
bound method, and an empty naming iterator raised UnboundLocalError.
---
 multibag/split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index e640925..a542740 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -158,6 +158,7 @@ class SplitPlan(object):
         use = self._manifests
         if reverse:
             use = reversed(use)
+        name = None
         try:
             for m in use:
                 name = next(naming_iter)
@@ -224,7 +225,7 @@ class SplitPlan(object):
                 member bag and returns its output path.  StopIteration
                 is raised when there are no more output bags to write.
         """
-        if not self.manifests:
+        if not self._manifests:
             if logger:
                 logger.warn("Requested plan execution, but no manifests are set")
             raise RuntimeError("No manifests set for output bags")
@@ -261,7 +262,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From 709b8acda6853693119fc5ea5e0cd9afab1156ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:38 +0000
Subject: [PATCH 06/52] fix: honour the head bag's tag directory when restoring

The restorer looked for aggregation-info.txt in, and removed, a directory
called 'multibag' whatever the head bag's Multibag-Tag-Directory said, and
left Multibag- elements it did not know about in the restored metadata.
---
 multibag/restore.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..bb8ae6f 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -91,7 +91,7 @@ class BagRestorer(object):
         if not compdir:
             if self._fetcher:
                 # set a default cached directory inside the target destination bag
-                compdir = os.path.join(self._destdir, "multibag", "_membercache")
+                compdir = os.path.join(self._destdir, self._head.multibag_tag_dir, "_membercache")
             else:
                 compdir = os.path.dirname(os.path.abspath(self._head.path))
         self._cachedir = compdir
@@ -291,8 +291,10 @@ class BagRestorer(object):
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        tagdir = self._head.multibag_tag_dir
+        agginfo = "/".join([tagdir, "aggregation-info.txt"])
+        if self._head.isfile(agginfo):
+            with self._head.open_text_file(agginfo) as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
@@ -312,11 +314,10 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
-            mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
-            mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
-            mbkeys = [k for k in mbkeys if k in restoredbag.info]
-            for key in mbkeys:
+            tagdir = os.path.abspath(os.path.join(self._destdir, tagdir))
+            if tagdir.startswith(self._destdir + os.sep) and os.path.isdir(tagdir):
+                shutil.rmtree(tagdir)
+            for key in [k for k in restoredbag.info if k.startswith("Multibag-")]:
                 del restoredbag.info[key]
             restoredbag.save()
             
-- 
2.43.0


From 67c45423cf7c9c2025f8e9dcde8e9e726ec48a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:56 +0000
Subject: [PATCH 07/52] fix: merge the members' fetch lists in member-list
 order

Entries of earlier members overrode later ones, the head bag's list was
lost, deleted paths were kept, paths with spaces were cut, and lines without
a final newline ran into the next one.
---
 multibag/restore.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index bb8ae6f..5769a75 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -167,9 +167,12 @@ class BagRestorer(object):
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
-                        if filen not in fetch:
-                            fetch[filen] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2 and parts[2] not in fetch:
+                            fetch[parts[2]] = line
+
+    def _is_skipped(self, path, skip):
+        return any(path == f or path.startswith(f+'/') for f in skip or [])
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
         if os.path.abspath(srcbag) == self._destdir:
@@ -256,9 +259,12 @@ class BagRestorer(object):
                         fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
 
         
-    def restore_fetch(self, members=None):
+    def restore_fetch(self, members=None, skip=None):
         """
         restore the fetch file to the output bag.  
+        :param list members:  the members to merge the fetch lists of, in the order of the 
+                              member-bags.tsv file; if not provided, all members are merged.
+        :param list skip:     a list of (deleted) paths to leave out
         """
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
@@ -267,16 +273,22 @@ class BagRestorer(object):
             members = list(self._head.member_bags())
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
+            if member.name == self._head.name:
+                src = self._head.path
+            else:
+                src = self.get_member_bag(member.name)
             bag = open_bag(src)
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+                        line = line.strip()
+                        parts = line.split(None, 2)
+                        if len(parts) > 2 and not self._is_skipped(parts[2], skip):
+                            fetch[parts[2]] = line + "\n"
+        fp = os.path.join(self._destdir, "fetch.txt")
+        if os.path.exists(fp):
+            os.remove(fp)
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
                 for f in fetch:
                     fd.write(fetch[f])
@@ -309,8 +321,7 @@ class BagRestorer(object):
             self.restore_member(member.name, skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch(skip=skip)
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-- 
2.43.0


From fe29ff18e2094b88585c39685d565aa598919ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 08/52] fix: merge the members' manifests when restoring

Manifests of the members were copied verbatim or overwritten, so that
restored bags listed deleted files, kept checksums of overridden versions,
lost entries of fetchable files, and members with different checksum
algorithms could not be combined at all (KeyError).
---
 multibag/restore.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 5769a75..0ca32d4 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -22,6 +22,7 @@ else:
     _unicode = unicode
     FileNotFoundError = _FileNotFoundError 
 
+manifest_re = re.compile(r"^(?:tag)?manifest-(\w+)\.txt$")
 serialized_extensions = set(_ext_fs_lookup.keys())
 
 class BagRestorer(object):
@@ -195,11 +196,14 @@ class BagRestorer(object):
             for f in files:
                 if os.path.join(root, f) in skip:
                     continue
+                if not root and manifest_re.match(f):
+                    # these get merged rather than copied; see _update_manifests()
+                    continue
                 destf = os.path.join(self._destdir, root, f)
                 if overwrite and os.path.exists(destf):
                     os.remove(destf)
                 if not os.path.exists(destf):
-                    srcpath = "/".join([root, f])
+                    srcpath = "/".join([root, f]).lstrip("/")
                     srcbag.replicate(srcpath, self._destdir)
                     updated.append(srcpath)
 
@@ -224,28 +228,36 @@ class BagRestorer(object):
             if rmtime:
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
-        if updated:
-            self._update_manifests(srcbag, updated)
+        self._update_manifests(srcbag, updated, skip)
 
-    def _update_manifests(self, srcbag, updated):
+    def _update_manifests(self, srcbag, updated, skip=None):
         destbag = open_bag(self._destdir)
 
-        updated_by_alg = OrderedDict()
+        # payload files that are not in either bag are to be fetched
+        updated = updated + [f for f in srcbag.entries if f.startswith("data/") and
+                                                          f not in destbag.entries and
+                                                          not destbag.exists(f)]
+
+        mfiles = list(destbag.manifest_files()) + list(srcbag.manifest_files())
+        updated_by_alg = OrderedDict((manifest_re.match(f).group(1), OrderedDict()) for f in mfiles)
         for path in updated:
-            if path in srcbag.entries:
+            if path in srcbag.entries and not self._is_skipped(path, skip):
                 for alg in srcbag.entries[path]:
                     if alg not in updated_by_alg:
                         updated_by_alg[alg] = OrderedDict()
                     updated_by_alg[alg][path] = srcbag.entries[path][alg]
                 
         for path in destbag.entries:
-            for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
-                    updated_by_alg[alg][path] = destbag.entries[path][alg]
+            if path in updated or self._is_skipped(path, skip):
+                continue
+            for alg in destbag.entries[path]:
+                if alg not in updated_by_alg:
+                    updated_by_alg[alg] = OrderedDict()
+                updated_by_alg[alg][path] = destbag.entries[path][alg]
 
         for alg in updated_by_alg:
             files = [f for f in updated_by_alg[alg].keys() if f.startswith("data/")]
-            if len(files) > 0:
+            if "manifest-%s.txt" % alg in mfiles:
                 mfp = os.path.join(self._destdir, "manifest-%s.txt" % alg)
                 with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
                     for f in files:
-- 
2.43.0


From 97ac1a09a857cd6ddc51d5e7fabf8d4e67562786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 09/52] fix: remove deleted files from a bag that is restored
 in place

---
 multibag/restore.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0ca32d4..d99d74d 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -271,6 +271,18 @@ class BagRestorer(object):
                         fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
 
         
+    def _remove_deleted(self, skip):
+        for path in skip:
+            path = os.path.abspath(os.path.join(self._destdir, path))
+            if not path.startswith(self._destdir + os.sep):
+                continue
+            if os.path.isdir(path):
+                shutil.rmtree(path)
+            elif os.path.exists(path):
+                os.remove(path)
+        if skip:
+            self._update_manifests(open_bag(self._destdir), [], skip)
+
     def restore_fetch(self, members=None, skip=None):
         """
         restore the fetch file to the output bag.  
@@ -332,6 +344,9 @@ class BagRestorer(object):
         for member in members:
             self.restore_member(member.name, skip)
 
+        # remove any deleted files that were in the destination bag already
+        self._remove_deleted(skip)
+
         # now build the fetch.txt file if any found
         self.restore_fetch(skip=skip)
 
-- 
2.43.0


From d4ac8539149deddac1b23b50a3c804f9a3e48bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:02 +0000
Subject: [PATCH 10/52] fix: do not write through hard links when splitting a
 head bag

The multibag tag files replicated from a source head bag are hard links to
the source's own files; opening them for writing truncated the source's.
---
 multibag/split.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index a542740..62e7dec 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -381,6 +381,11 @@ class SplitPlan(object):
                 if not os.path.isdir(mbagdir):
                     os.mkdir(mbagdir)
 
+                # do not write into files that are shared with the source bag
+                for mbf in "member-bags.tsv file-lookup.tsv aggregation-info.txt".split():
+                    if os.path.exists(os.path.join(mbagdir, mbf)):
+                        os.remove(os.path.join(mbagdir, mbf))
+
                 with io.open(os.path.join(mbagdir, "member-bags.tsv"),
                              'w', encoding=DEF_ENC) as fd:
                     for bag in memberbags:
-- 
2.43.0


From 055636476c00fcf77fd99c13b9db324f2fce2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 11/52] fix: write and read all fields of member-bags.tsv lines

Writing a member with extra fields failed with a NameError; an empty URL
field, blanks after the bag name and tabs in a comment were misread.
---
 multibag/access/multibag.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..de444b3 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -53,10 +53,10 @@ class MemberInfo(object):
         The output will contain a trailing newline character.
         """
         out = self.name
-        if self.uri:
-            out += "\t"+self.uri
+        if self.uri or self.info:
+            out += "\t"+(self.uri or "")
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
@@ -72,14 +72,17 @@ class MemberInfo(object):
         if len(fields) < 1 or not fields[0]:
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
+        name = fields.pop(0).strip()
         comm = None
         uri = None
+        for i, field in enumerate(fields):
+            # a comment extends to the end of the line
+            if field.startswith('# ') or (field.startswith('#') and i == len(fields)-1):
+                comm = "\t".join(fields[i:]).lstrip('#').strip()
+                fields = fields[:i]
+                break
         if len(fields) > 0:
-            if fields[-1].startswith('#'):
-                comm = fields.pop(-1).lstrip('#').strip()
-        if len(fields) > 0:
-            uri = fields.pop(0)
+            uri = fields.pop(0) or None
         
         return MemberInfo(name, uri, comm, *fields)
 
-- 
2.43.0


From ee9bacdf874aeccddf99577d7cf4efdb637c2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:51 +0000
Subject: [PATCH 12/52] fix: ignore blanks around the tab in file-lookup.tsv
 lines

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index de444b3..c277808 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -112,7 +112,7 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
+    out = [f.strip(' ') for f in line.strip().split('\t')]
     if len(out) < 2:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
-- 
2.43.0


From 50a2235e639fcb4aef5a26a6a418d1a26a11d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:54 +0000
Subject: [PATCH 13/52] fix: read tag files of bags that give the tag directory
 repeatedly

---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index c277808..2ffe635 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -208,7 +208,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         opens the file anew and returns the contents via an iterator that returns
         MemberInfo instances.
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-members.txt") \
                       or "member-bags.tsv"
@@ -248,7 +248,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         """
         iterate through the contents of the multibag/file-lookup.tsv
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-directory.txt") \
                       or "file-lookup.tsv"
-- 
2.43.0


From 2f83c8cf1c81d36cd10103df587a902c76e89613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:58 +0000
Subject: [PATCH 14/52] fix: create nested multibag tag directories

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 2ffe635..6764c2f 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -427,7 +427,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         """
         mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
         if not os.path.exists(mbdir):
-            os.mkdir(mbdir)
+            os.makedirs(mbdir)
 
     def save_member_bags(self):
         """
-- 
2.43.0


From 86ecb9902b9723636c3b23d5ccc4dc4ea5573a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:21 +0000
Subject: [PATCH 15/52] fix: split text files at line ends only when reading
 writable bags

codecs.open() breaks lines at any Unicode line boundary, so that names with
such a character were torn apart; read-only bags do not do this.
---
 multibag/access/extended.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 9263a3a..d1c12f6 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -5,7 +5,7 @@ can work against the base bagit.Bag class directly or against the ReadOnlyBag
 class which can read serialized versions of bags.  
 """
 from __future__ import absolute_import
-import os, sys, re, shutil, codecs, inspect
+import os, sys, re, shutil, io, inspect
 from collections import OrderedDict, namedtuple
 from abc import ABCMeta, abstractmethod
 from datetime import datetime, tzinfo
@@ -388,7 +388,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                              file.  (Default: "utf-8-sig").
         """
         path = self._canon_path(path)
-        return codecs.open(path, encoding=encoding);
+        return io.open(path, encoding=encoding, newline='')
         
     def walk(self, start=None):
         """
-- 
2.43.0


From 8c4a3a41d110a515ceea1db166124ad26650f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:30 +0000
Subject: [PATCH 16/52] fix: keep earlier deletions when marking another path
 as deleted

---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 6764c2f..164bddd 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -651,7 +651,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -667,7 +667,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
-- 
2.43.0


From ca57bf2ce755b52e91c2bbfc33582e76253193b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:30 +0000
Subject: [PATCH 17/52] fix: read the member list before removing a member bag

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 164bddd..c04d44f 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -512,7 +512,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
-- 
2.43.0


From 38512e19c919f641405ed37cca104cdb14fe4a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:30 +0000
Subject: [PATCH 18/52] fix: honour a single path given as exclude to
 update_for_member

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index c04d44f..f9d2cdd 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -582,7 +582,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
-- 
2.43.0


From b95adfbea4e3d59e57e3cacd3a1817a70799863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 19/52] fix: exclude subdirectories of excluded directories of
 read-only bags

---
 multibag/access/multibag.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index f9d2cdd..3dcb454 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -596,10 +596,12 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                 self.add_file_lookup(incl, member_name)
 
             elif bag.isdir(incl):
+                skipped = set()
                 for d, subdirs, files in bag.walk(incl):
-                    if d and d in exclude:
-                        for i in range(len(subdirs)):
-                            subdirs.pop(0)
+                    if d and (d in exclude or os.path.dirname(d) in skipped):
+                        # Note: pruning subdirs would not affect the walking
+                        # of a read-only bag
+                        skipped.add(d)
                         continue
                     for f in files:
                         f = "/".join([d, f])
-- 
2.43.0


From fc2f7ffa971eeb9b194c39ebb6000a2d255bb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:00 +0000
Subject: [PATCH 20/52] fix: do not change the amendee's metadata when amending
 it

---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..170683a 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -277,7 +277,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                         list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
-- 
2.43.0


From 1efa75db19ed88cd8a66ec74e7dd73525ce54c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:24 +0000
Subject: [PATCH 21/52] fix: carry deletions of the amendee over to the new
 head bag

---
 multibag/amend.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/multibag/amend.py b/multibag/amend.py
index 170683a..7677f7b 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -218,6 +218,7 @@ class Amender(object):
         self._pid = pid
         self._comm = comment
         self._info = list(info)
+        self._olddeleted = []
 
     def init_from_amendee(self, keepprofver=False):
         """
@@ -234,6 +235,7 @@ class Amender(object):
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
+        self._init_deleted()
 
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
@@ -268,6 +270,22 @@ class Amender(object):
             # just add the files under 'data'
             self._newhead.update_for_member(self._oldhead, make_member=False)
 
+    def _init_deleted(self):
+        # start from the new head's own deletions, if it provides any
+        self._newhead.deleted_paths(True)
+
+        if self._oldhead.is_head_multibag():
+            self._olddeleted = list(self._oldhead.iter_deleted())
+            for path in self._olddeleted:
+                self._newhead.set_deleted(path)
+
+    def _undelete_for(self, bag):
+        # files deleted from the amendee that are provided again by the given
+        # amending bag are returned to the aggregation
+        for path in self._olddeleted:
+            if bag.isfile(path):
+                self._newhead.unset_deleted(path)
+
     def _init_multibag_info(self, keepprofver=False):
         profver = CURRENT_VERSION
         if keepprofver and 'Multibag-Version' in self._oldhead.info:
@@ -322,6 +340,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_for(membag)
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -349,9 +368,12 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_for(self._newhead)
 
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
+        if self._newhead.deleted_paths() or self._olddeleted:
+            self._newhead.save_deleted()
         self._newhead.update_info(version, self._newhead.profile_version)
 
         
-- 
2.43.0


From 3e17a76b77d87fe0de641262301b9c7e2f65ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 22/52] fix: report unrecognized issue types as ValueError

---
 multibag/validate/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 48607e1..177a443 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -87,7 +87,7 @@ class ValidationIssue(object):
     def type(self, issuetype):
         if issuetype not in issuetypes:
             raise ValueError("ValidationIssue: not a recognized issue type: "+
-                             issuetype)
+                             str(issuetype))
         self._type = issuetype
 
     @property
-- 
2.43.0


From 044caf19f36e8284290dd882528d375ab3edb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 23/52] fix: make ValidationIssue.to_json_obj use existing
 attributes

---
 multibag/validate/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 177a443..b8bed68 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -178,10 +178,10 @@ class ValidationIssue(object):
         """
         return OrderedDict([
             ("type", type_labels[self.type]),
-            ("profile_name", self.profile),
+            ("profile_name", "multibag"),
             ("profile_version", self.profile_version),
             ("label", self.label),
-            ("spec", self.message),
+            ("spec", self.specification),
             ("comments", self.comments)
         ])
 
-- 
2.43.0


From 04f0f79575a80373660790fd25303f8230688f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 24/52] fix: create ValidationIssues from the tuples that
 to_tuple returns

---
 multibag/validate/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index b8bed68..9ed4bfd 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -169,7 +169,7 @@ class ValidationIssue(object):
         return a tuple containing the issue data
         """
         return (self.type, "multibag", self.profile_version, self.label, 
-                self.specification, self._passed, self._comm)
+                self.specification, self._passed, list(self._comm))
 
     def to_json_obj(self):
         """
@@ -187,8 +187,11 @@ class ValidationIssue(object):
 
     @classmethod
     def from_tuple(cls, data):
-        return ValidationIssue(data[1], data[2], data[3], data[0], 
-                               data[4], data[5], data[6])
+        """
+        create a ValidationIssue from a tuple as returned by to_tuple()
+        """
+        return ValidationIssue(data[3], data[0], data[4], data[5], data[6],
+                               data[2])
 
 class ValidationResults(object):
     """
-- 
2.43.0


From 041288300f9c3550a07469f9406e7d355752e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:37 +0000
Subject: [PATCH 25/52] fix: accept absolute URLs of member bags in validation
 and refuse others

---
 multibag/validate/headbag.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..c42cd4b 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -12,6 +12,18 @@ from .base import (Validator, ValidationIssue, ValidationResults,
 from .bag import BagValidator
 from ..access.bagit import BagValidationError, BagError, open_bag, _load_tag_file
 
+def _is_absolute_url(url, needhost=False):
+    """
+    return True if the given string has the form of an absolute URL.  A host
+    name need only be present if needhost=True (i.e. PIDs like "doi:10.x/y" 
+    are otherwise accepted).
+    """
+    try:
+        url = urlparse(url)
+    except ValueError:
+        return False
+    return bool(url.scheme and (url.netloc or (url.path and not needhost)))
+
 class HeadBagValidator(Validator):
     """
     A validator that tests whether a given Bag (serialized or otherwise) complies
@@ -120,8 +132,7 @@ class HeadBagValidator(Validator):
 
         t = out._issue("3-Reference-val",
                        "Multibag-Reference value must be an absolute URL")
-        url = urlparse(url)
-        out._err(t, url.scheme and url.netloc)
+        out._err(t, _is_absolute_url(url, True))
 
         return out
 
@@ -326,8 +337,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not _is_absolute_url(parts[1]):
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -406,8 +416,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not _is_absolute_url(parts[1]):
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From 1bcf3ef4dc23e0d9671e3b71b3be4654bb933885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 26/52] fix: report on bags that are not head bags instead of
 aborting validation

---
 multibag/validate/headbag.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index c42cd4b..fd0fcfd 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -215,7 +215,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -236,7 +235,8 @@ class HeadBagValidator(Validator):
             parts = [p.strip() for p in val.split(',')]
             if len(parts) > 2:
                 badfmt.append(val)
-            selfdeprecating = selfdeprecating or parts[0] == headver or \
+            selfdeprecating = selfdeprecating or \
+                              (headver and parts[0] == headver) or \
                               (len(parts) > 1 and parts[1] == self.bag._name)
 
         t = out._issue("3-Head-Deprecates_format",
@@ -284,16 +284,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -466,16 +462,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -668,16 +660,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 54ea0dcf038fa1cb65d4eee90214075e34ea2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 27/52] fix: compare a repeated Multibag-Version by its last
 value

---
 multibag/validate/headbag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fd0fcfd..5847001 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -100,8 +100,8 @@ class HeadBagValidator(Validator):
         out._warn(t, not isinstance(data["Multibag-Version"], (list, tuple)))
 
         vers = data["Multibag-Version"]
-        if isinstance(data["Multibag-Version"], (list, tuple)):
-            version = data["Multibag-Version"][-1]
+        if isinstance(vers, (list, tuple)):
+            vers = vers[-1]
 
         t = out._issue("3-Version-val",
                        "Multibag-Version must be set to '{0}'".format(version))
-- 
2.43.0


From f774a605b235d469223e444144a127e9cbfa1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 28/52] fix: state what is wrong with aggregation-info.txt

---
 multibag/validate/headbag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 5847001..d88d709 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -677,7 +677,7 @@ class HeadBagValidator(Validator):
         try:
             info = _load_tag_file(self.bag._root.relpath(aginfo))
         except BagError as ex:
-            comm = ["str(ex)"]
+            comm = [str(ex)]
         out._err(t, not bool(comm), comm)
 
         return out
-- 
2.43.0


From 113d127e6ec23dc4a656aaab331296fecea2ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:12 +0000
Subject: [PATCH 29/52] fix: check all Multibag-Head-Deprecates values if the
 first is empty

---
 multibag/validate/headbag.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index d88d709..7d5a3c9 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -223,8 +223,6 @@ class HeadBagValidator(Validator):
         t = out._issue("3-Head-Deprecates_notempty",
            "bag-info.txt: Value for Multibag-Head-Deprecates should not be empty")
         out._warn(t, len(values) > 0 and values[0])
-        if t.failed():
-            return out
 
         empty = True
         selfdeprecating = False
-- 
2.43.0


From 6e0aa5445eef90414fdf0fa03b1945fca412b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:15 +0000
Subject: [PATCH 30/52] fix: report lines without bag name or file path in
 multibag tag files

---
 multibag/validate/headbag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 7d5a3c9..752a1e4 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -401,7 +401,9 @@ class HeadBagValidator(Validator):
                 i += 1
                 if not line.strip():
                     continue
-                parts = [f.strip() for f in line.strip().split('\t')]
+                parts = [f.strip() for f in line.split('\t')]
+                if not parts[0]:
+                    badfmt.append(i)
                 last = parts[0]
                 if last == self.bag._name:
                     foundme = True
@@ -589,7 +591,7 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     paths.add(parts[0])
-                if len(parts) != 2:
+                if len(parts) != 2 or not all(parts):
                     badfmt.append(i)
 
                 if len(parts) > 1 and parts[1] == self.bag._name and \
-- 
2.43.0


From d9bda4f8c4a17b8e1fa6fbf08cf2b5d67d5bab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:57 +0000
Subject: [PATCH 31/52] fix: report on head bags without a data directory
 instead of aborting

---
 multibag/validate/headbag.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 752a1e4..23018f9 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -547,12 +547,13 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
-            f = df.split('/')[-1]
+        payload = []
+        if self.bag.isdir("data"):
+            payload = self.bag.payload_files()
+        for path in payload:
+            f = path.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
-            path = '/'.join(['data', df[1:]])
             if path not in paths:
                 missing.append(path)
         
@@ -633,12 +634,13 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
-            f = df.split('/')[-1]
+        payload = []
+        if self.bag.isdir("data"):
+            payload = self.bag.payload_files()
+        for path in payload:
+            f = path.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
-            path = '/'.join(['data', df[1:]])
             if path not in paths:
                 missing.append(path)
         
-- 
2.43.0


From 96dea5f662c53893185872160c6f95d4e660d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:56 +0000
Subject: [PATCH 32/52] fix: report bags that fail with a plain BagError as
 invalid

---
 multibag/validate/bag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..86c6628 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -38,7 +38,7 @@ class BagValidator(Validator):
                 comments = [ex.message] + ex.details
             except BagError as ex:
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
 
             results._err(issue, passed, comments)
 
-- 
2.43.0


From 2fcf2aa089d24ca67912071ef8e91fdb49b42559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:56 +0000
Subject: [PATCH 33/52] fix: report a Payload-Oxum value without a dot as
 malformed

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..21b34ba 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -455,7 +455,7 @@ class ReadOnlyBag(_bagit.Bag):
             LOGGER.warning(_('bag-info.txt defines multiple Payload-Oxum values!'))
             oxum = oxum[0]
 
-        oxum_byte_count, oxum_file_count = oxum.split('.', 1)
+        oxum_byte_count, dot, oxum_file_count = oxum.partition('.')
 
         if not oxum_byte_count.isdigit() or not oxum_file_count.isdigit():
             raise BagError(_("Malformed Payload-Oxum value: %s") % oxum)
-- 
2.43.0


From 0ae03a769b7986f1c65511f7d661f4c0aa44b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:54 +0000
Subject: [PATCH 34/52] fix: name the multibag tag directory only in the head
 bag of a split

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 62e7dec..43921fe 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -363,9 +363,9 @@ class SplitPlan(object):
 
                     _write_item(fd, name, vals)
 
-                _write_item(fd, "Multibag-Tag-Directory", "multibag")
                 if m.get('ishead'):
                     # this is the head bag!
+                    _write_item(fd, "Multibag-Tag-Directory", "multibag")
                     _write_item(fd, "Multibag-Head-Version", self.head_version)
                     if self._deprecates:
                         name = "Multibag-Head-Deprecates"
-- 
2.43.0


From b6e07af95ed12c678d9d7288e86e54696964c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:58 +0000
Subject: [PATCH 35/52] fix: include the tests for non-head bags in member bag
 validation

---
 multibag/validate/member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/member.py b/multibag/validate/member.py
index e32c728..37e9056 100644
--- a/multibag/validate/member.py
+++ b/multibag/validate/member.py
@@ -61,7 +61,7 @@ class MemberBagValidator(Validator):
             return out
 
         self.validate_bagname(want, results, version)
-        self.validate_as_nonhead(want, results, version)
+        self.validate_as_nonhead(want, out, version)
 
         return out
 
-- 
2.43.0


From 8a590082bc81cb374b56de148926ed6a54fd6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:08 +0000
Subject: [PATCH 36/52] fix: report unlisted payload files of read-only bags as
 validation errors

---
 multibag/access/bagit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 21b34ba..31d12ed 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -289,7 +289,9 @@ class ReadOnlyBag(_bagit.Bag):
         payload_dir = self._root.subfspath("data")
 
         for f in payload_dir.fs.walk.files():
-            yield "data/"+f.lstrip('/')
+            f = "data/"+f.lstrip('/')
+            self.normalized_filesystem_names[normalize_unicode(f)] = f
+            yield f
 
     def save(self, processes=1, manifests=False):
         """
-- 
2.43.0


From 3fa8b9636c1cfa0bfa43f4edc9c613eab8166d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:10 +0000
Subject: [PATCH 37/52] fix: skip blank lines and report malformed ones in the
 fetch list of read-only bags

---
 multibag/access/bagit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 31d12ed..2d324cb 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -328,7 +328,12 @@ class ReadOnlyBag(_bagit.Bag):
         if fetch_file_path.isfile():
             with open_text_file(fetch_file_path, 'r', encoding=self.encoding) as fetch_file:
                 for line in fetch_file:
-                    url, file_size, filename = line.strip().split(None, 2)
+                    if not line.strip():
+                        continue
+                    try:
+                        url, file_size, filename = line.strip().split(None, 2)
+                    except ValueError:
+                        raise BagError(_("Malformed line in fetch.txt: %s") % line.strip())
 
                     if self._path_is_dangerous(filename):
                         raise BagError(_('Path "%(payload_file)s" in "%(source_file)s" is unsafe') % {
-- 
2.43.0


From 1a55285bde90d65eaaed3a0593f6af82b7d8a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:13 +0000
Subject: [PATCH 38/52] fix: refuse manifest and fetch paths into siblings
 whose names start with the bag's

---
 multibag/access/bagit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2d324cb..427760b 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -560,8 +560,8 @@ class ReadOnlyBag(_bagit.Bag):
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
         bag_path = os.path.normpath(self.path)
-        common = os.path.commonprefix((bag_path, real_path))
-        return not (common == bag_path)
+        return real_path != bag_path and \
+               not real_path.startswith(bag_path.rstrip(os.sep) + os.sep)
 
 def _calc_hashes(args):
     # auto unpacking of sequences illegal in Python3
-- 
2.43.0


From 7c2fe6fb385d006f2bed6bc6e82f0bbc6bef821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:44 +0000
Subject: [PATCH 39/52] fix: skip a byte-order mark when reading text files of
 read-only bags

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 427760b..46615e7 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -259,7 +259,7 @@ class ReadOnlyBag(_bagit.Bag):
         """
         return self._root.fs.isdir(path)
 
-    def open_text_file(self, path, encoding='utf-8', errors='strict',
+    def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
         """
         open the file with the given path for reading and return a file 
-- 
2.43.0


From 1715c3f1fccedbdbe72b3733508f1576cd0a748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 40/52] fix: give clean paths when walking a read-only bag from
 a directory written with extra slashes

---
 multibag/access/extended.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index d1c12f6..6ba92e4 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -676,6 +676,7 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             start = ''
         if start.startswith('/'):
             raise ValueError("walk(): start must not be absolute: "+start)
+        start = re.sub(r'/+', '/', start).rstrip('/')
         if not start:
             root = self._root
         else:
-- 
2.43.0


From 69bb6b3b5e6d4350b12f4cf8acc28e5883c61e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 41/52] fix: keep paths into siblings whose names start with
 the bag's out of writable bags

---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 6ba92e4..1d587d3 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -261,8 +261,9 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
     def _canon_path(self, path):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
-        path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        bagdir = os.path.abspath(self._bagdir)
+        path = os.path.abspath(os.path.join(bagdir, path))
+        if path != bagdir and not path.startswith(bagdir.rstrip(os.sep) + os.sep):
             return None
         return path
 
-- 
2.43.0


From 5bf9df7a835f62d8cd75addb9db8a60748992383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 42/52] fix: do not walk out of a writable bag

---
 multibag/access/extended.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 1d587d3..923e2e6 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -415,7 +415,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.path.isabs(start):
             raise ValueError("walk(): start must not be absolute: "+start)
         root = os.path.join(self._bagdir, start).rstrip(os.sep)
-        if not os.path.isdir(root):
+        if not self.isdir(start):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
         for dir, subdirs, files in os.walk(root):
-- 
2.43.0


From ac7c587221f63e7a4cb4c43bd41ae97d0a1b751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 43/52] fix: raise an exception when a file of a writable bag
 cannot be replicated

---
 multibag/access/extended.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 923e2e6..b75919d 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -359,6 +359,10 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                                   parent)
             os.makedirs(parent)
 
+        if os.path.exists(destpath) and os.path.samefile(source, destpath):
+            # e.g. already replicated with a hard link
+            return
+
         if hardlink:
             try:
                 os.link(source, destpath)
@@ -367,7 +371,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
         if not hardlink:
             try:
@@ -376,7 +380,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.exception(msg)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From 853c05ce72777712302ce03ffee2637ff163dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:24 +0000
Subject: [PATCH 44/52] fix: replicate files of writable bags to below the
 destination however their path is written

---
 multibag/access/extended.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index b75919d..36e328a 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -340,6 +340,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
         
+        path = os.path.relpath(self._canon_path(path), os.path.abspath(self._bagdir))
         destpath = os.path.join(destdir, path)
         if self.isdir(path):
             if not os.path.isdir(destpath):
-- 
2.43.0


From e9b3c3b6e3a5bec3436db5ed416c6f4646e26617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:30 +0000
Subject: [PATCH 45/52] fix: name bags opened with a trailing slash or as the
 current directory

---
 multibag/access/bagit.py    | 6 ++----
 multibag/access/extended.py | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 46615e7..001afb9 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -642,10 +642,8 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
-        name = os.path.basename(location)
-        parent = os.path.dirname(location)
-        if not parent:
-            parent = "."
+        name = os.path.basename(os.path.abspath(location))
+        parent = os.path.dirname(os.path.abspath(location))
         fspath = Path(fs.osfs.OSFS(parent), name, "bag:")
 
     elif os.path.isfile(location):
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 36e328a..f776878 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -228,7 +228,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             kw = self._ctor_bind_args(args, kw)
             
             self._bagdir = kw['bagdir'].rstrip(os.sep)
-            self._bagname = os.path.basename(self._bagdir)
+            self._bagname = os.path.basename(os.path.abspath(self._bagdir))
             self._replwhl = True
             super(_ExtendedReadWritableMixin, self).__init__()
 
-- 
2.43.0


From ab90941bfe7f25f9cef2a295b66c4470198f31e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:34 +0000
Subject: [PATCH 46/52] fix: list a converted bag under its name if its path
 ends with a slash

---
 multibag/amend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7677f7b..db84990 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,8 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
-        mi = MemberInfo(bagname, pid, comment, *info)
+        mi = MemberInfo(self.bag.name, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
 
-- 
2.43.0


From 65dc6c9f101c9e8d616f13e9a2d709f96d83cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:35 +0000
Subject: [PATCH 47/52] fix: give no sizes when no files are to be made

---
 multibag/testing/mkdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multibag/testing/mkdata.py b/multibag/testing/mkdata.py
index 2890faa..753855a 100644
--- a/multibag/testing/mkdata.py
+++ b/multibag/testing/mkdata.py
@@ -376,6 +376,8 @@ class UniformSizeIterator(SizeIterator):
         nf = self.target_totalfiles
         if nf is None or nf < 0:
             raise RuntimeError("Need to set target_totalfiles")
+        if nf == 0:
+            return
         
         sz = int(math.floor(1.0 * tz / nf + 0.5))
         extra = tz - sz*nf
-- 
2.43.0


From c0015c9db75acb15099722e73ae9cedf3eff8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:43 +0000
Subject: [PATCH 48/52] fix: save a file lookup list for bags without payload
 files

---
 multibag/access/multibag.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 3dcb454..7ff2af2 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -587,6 +587,13 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
 
+        if self._filelu is None:
+            # the lookup list is to be saved even if no files get added
+            try:
+                self._cache_file_lookup()
+            except MissingMultibagFileError:
+                self._filelu = OrderedDict()
+
         for incl in include:
             # skip this include item if it explicitly excluded
             if incl in exclude:
-- 
2.43.0


From 455436bdb057ed135266ae8fa1946782d08af108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:18 +0000
Subject: [PATCH 49/52] fix: register files under clean paths when updating for
 a member

---
 multibag/access/multibag.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 7ff2af2..3d2c083 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -3,7 +3,7 @@ This module provides access to the informational content of a multibag
 aggregation.  In particular, it provides the read-only HeadBag class.
 """
 from __future__ import absolute_import
-import re, os, sys, io
+import re, os, sys, io, posixpath
 from collections import OrderedDict
 
 from .bagit import Bag, ReadOnlyBag, open_bag
@@ -323,6 +323,12 @@ class HeadBagReadMixin(ExtendedReadMixin):
             self._deleted = set(self.iter_deleted())
         return list(self._deleted)
 
+def _clean_path(path):
+    # return the path without repeated slashes, "." parts and the like; this is 
+    # empty for the root directory
+    path = posixpath.normpath(path)
+    return "" if path == "." else path
+
 class HeadBagUpdateMixin(HeadBagReadMixin):
     """
     an interface for updating the informational content in a head bag of a 
@@ -594,8 +600,10 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
             except MissingMultibagFileError:
                 self._filelu = OrderedDict()
 
+        exclude = [_clean_path(p) for p in exclude]
         for incl in include:
             # skip this include item if it explicitly excluded
+            incl = _clean_path(incl)
             if incl in exclude:
                 continue
             
@@ -611,7 +619,8 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                         skipped.add(d)
                         continue
                     for f in files:
-                        f = "/".join([d, f])
+                        if d:
+                            f = "/".join([d, f])
                         if f in exclude:
                             continue
                         self.add_file_lookup(f, member_name)
-- 
2.43.0


From fd50abdb4a6ff8b317e91c33acfc31046e015bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:38 +0000
Subject: [PATCH 50/52] fix: do not take the comment of a member bag without a
 URL for its URL

---
 multibag/validate/headbag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 23018f9..40bd53a 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -411,7 +411,8 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     found.add(last)
-                if len(parts) > 1 and len(parts[1]) > 0:
+                if len(parts) > 1 and len(parts[1]) > 0 and \
+                   not (parts[1]+' ').startswith('# '):
                     if not _is_absolute_url(parts[1]):
                         badurl.append(i)
 
-- 
2.43.0


From 9da824e4de7e6ad2d2d9d3fd4f3c1dddff4804c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:52 +0000
Subject: [PATCH 51/52] Revert 'fix: give no sizes when no files are to be
 made' (test helper module)

---
 multibag/testing/mkdata.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multibag/testing/mkdata.py b/multibag/testing/mkdata.py
index 753855a..2890faa 100644
--- a/multibag/testing/mkdata.py
+++ b/multibag/testing/mkdata.py
@@ -376,8 +376,6 @@ class UniformSizeIterator(SizeIterator):
         nf = self.target_totalfiles
         if nf is None or nf < 0:
             raise RuntimeError("Need to set target_totalfiles")
-        if nf == 0:
-            return
         
         sz = int(math.floor(1.0 * tz / nf + 0.5))
         extra = tz - sz*nf
-- 
2.43.0


From 2db55b1287e2ad7140c2a288b14837097de2fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:45 +0000
Subject: [PATCH 52/52] fix: keep the deletion list when splitting a head bag

The multibag tag files of the source were spread over the output bags like
any other tag files: its deletion list got lost unless it happened to end up
in the new head bag, and the checksums of the files that the new head bag
writes itself were those of the source's.
---
 multibag/split.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index 43921fe..ec587cd 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -247,8 +247,17 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
+        deleted = []
+        superseded = []
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
+            deleted = list(self.progenitor.iter_deleted())
+
+            # the new head bag gets its own version of these
+            superseded = [d + "/" + f
+                          for d in (self.progenitor.multibag_tag_dir, "multibag")
+                          for f in ("member-bags.tsv", "file-lookup.tsv",
+                                    "deleted.txt", "aggregation-info.txt")]
             try:
                 memberbags = self.progenitor.member_bag_names
             except MissingMultibagFileError:
@@ -288,6 +297,8 @@ class SplitPlan(object):
             payload_count = 0
             payload_size = 0
             for file in m['contents']:
+                if file in superseded:
+                    continue
 
                 if not self.progenitor.exists(file):
                     if logger:
@@ -395,6 +406,11 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
+                if deleted:
+                    with io.open(os.path.join(mbagdir, "deleted.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        for f in deleted:
+                            fd.write(u"%s\n" % f)
                 with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
                              'w', encoding=DEF_ENC) as fd:
                     with self.progenitor.open_text_file("bag-info.txt") as ifd:
-- 
2.43.0

