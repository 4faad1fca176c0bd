From 8f315c0e3a3a1ae65bb14af67b19b52047e07b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 01/77] fix: record runs that exit with no status, a message or
 a negative status

---
 capture/noworkflow/now/collection/prov_execution/execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index e6172fd..4a07f23 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -64,7 +64,8 @@ class Execution(object):
             exec(compiled, metascript.namespace)  # pylint: disable=exec-used
             sys.meta_path.remove(metascript.definition.finder)
         except SystemExit as ex:
-            self.force_msg = self.partial = ex.code > 0
+            # None and 0 mean success. Everything else is a failure
+            self.force_msg = self.partial = ex.code not in (None, 0)
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
                         "".format(ex.code))
 
-- 
2.43.0


From a87101b602080a76a973e507e35fa67a12456e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 02/77] fix: garbage collection accepts every engine and the
 aggressive option

---
 capture/noworkflow/now/cmd/cmd_gc.py                         | 2 +-
 capture/noworkflow/now/persistence/content/base.py           | 2 +-
 capture/noworkflow/now/persistence/content/git_system.py     | 4 ++--
 capture/noworkflow/now/persistence/content/plain_engine.py   | 2 +-
 capture/noworkflow/now/persistence/content/puregit_engine.py | 3 ---
 5 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_gc.py b/capture/noworkflow/now/cmd/cmd_gc.py
index ec4b037..0d587fc 100644
--- a/capture/noworkflow/now/cmd/cmd_gc.py
+++ b/capture/noworkflow/now/cmd/cmd_gc.py
@@ -32,4 +32,4 @@ class GC(Command):
     def execute(self, args):
         persistence_config.content_engine = args.content_engine
         persistence_config.connect_existing(args.dir or os.getcwd())
-        content.gc()
+        content.gc(args.aggressive)
diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index a14a8ce..5a2d1c8 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,7 +56,7 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
 
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 3d93ed7..b830d22 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -85,10 +85,10 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
 
 
 def garbage_collection(git_path, aggressive=False):
-    cmd = ["git gc", "--quiet"]
+    cmd = ["git", "gc", "--quiet"]
     if aggressive:
         cmd.append("--aggressive")
-    execute(cmd, cwd=git_path, shell=True)
+    execute(cmd, cwd=git_path)
 
 
 def count_loose_objects(git_path):
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index a7e0143..7c324c4 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -64,7 +64,7 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
 
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index d11b414..6a69e32 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -41,9 +41,6 @@ class PureGitEngine(GitContentDatabaseEngine):
         """Get content from the content database"""
         return git_system.get(content_hash, self.content_path)
  
-    def gc(self):
-        git_system.garbage_collection(self.content_path)
-
     def find_subhash(self, content_hash):
         """Find hash in database"""
         bytes_content_hash = content_hash.encode("utf-8")
-- 
2.43.0


From 60cd805e3398f30f266eb4c818321d1335279978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 03/77] fix: exchange code component columns and evaluation
 containers unchanged

---
 .../now/persistence/lightweight/bundle.py          |  3 ++-
 .../now/persistence/lightweight/code_component.py  |  2 +-
 .../now/persistence/lightweight/evaluation.py      | 14 ++++++++++----
 capture/noworkflow/now/utils/collab.py             |  3 ++-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/bundle.py b/capture/noworkflow/now/persistence/lightweight/bundle.py
index 52f7ac7..8779797 100644
--- a/capture/noworkflow/now/persistence/lightweight/bundle.py
+++ b/capture/noworkflow/now/persistence/lightweight/bundle.py
@@ -68,7 +68,8 @@ class BundleLW(BaseLW):
         self.dependencies=[DependencyLW(x["id"],x["trial_id"],x["dependent_activation_id"],x["dependent_id"],x["dependency_activation_id"],\
             x["dependency_id"],x["type"],x["reference"],x["collection_activation_id"],x["collection_id"],x["key"]) for x in data["dependencies"]]
         self.environmentAttrs=[EnvironmentAttrLW(x["id"],x["trial_id"],x["name"],x["value"]) for x in data["environmentAttrs"]]
-        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"]) for x in data["evaluations"]]
+        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"],\
+            x.get("member_container_activation_id"),x.get("member_container_id")) for x in data["evaluations"]]
         self.fileAccesses=[FileAccessLW(x["id"],x["trial_id"],x["name"],x["checkpoint"],x["mode"],x["buffering"],\
             x["content_hash_before"],x["content_hash_after"],x["activation_id"]) for x in data["fileAccesses"]]
         self.members=[MemberLW(x["id"],x["trial_id"],x["collection_activation_id"],x["collection_id"],x["member_activation_id"],\
diff --git a/capture/noworkflow/now/persistence/lightweight/code_component.py b/capture/noworkflow/now/persistence/lightweight/code_component.py
index 006709a..bf68380 100644
--- a/capture/noworkflow/now/persistence/lightweight/code_component.py
+++ b/capture/noworkflow/now/persistence/lightweight/code_component.py
@@ -57,6 +57,6 @@ class CodeComponentLW(BaseLW):
             'first_char_line': self.first_char_line,
             'first_char_column': self.first_char_column,
             'last_char_line': self.last_char_line,
-            'last_char_column': self.last_char_line,
+            'last_char_column': self.last_char_column,
             'container_id': self.container_id
         }
diff --git a/capture/noworkflow/now/persistence/lightweight/evaluation.py b/capture/noworkflow/now/persistence/lightweight/evaluation.py
index cc9dada..67d2c9a 100644
--- a/capture/noworkflow/now/persistence/lightweight/evaluation.py
+++ b/capture/noworkflow/now/persistence/lightweight/evaluation.py
@@ -20,7 +20,8 @@ class EvaluationLW(BaseLW):
     nullable = {"checkpoint"}
     model = Evaluation
 
-    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_):
+    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_,
+                 member_container_activation_id=None, member_container_id=None):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
         self.code_component_id = code_id
@@ -28,8 +29,11 @@ class EvaluationLW(BaseLW):
         self.checkpoint = -1 if not checkpoint else checkpoint
         self.repr = repr_
         self._same = None
-        self.member_container_activation_id = self.activation_id
-        self.member_container_id = id_
+        if member_container_id is None:
+            member_container_activation_id = self.activation_id
+            member_container_id = id_
+        self.member_container_activation_id = member_container_activation_id
+        self.member_container_id = member_container_id
         self.members = {}
 
     def same(self):
@@ -69,5 +73,7 @@ class EvaluationLW(BaseLW):
             'code_component_id': self.code_component_id,
             'activation_id': self.activation_id,
             'checkpoint': self.checkpoint,
-            'repr': self.repr
+            'repr': self.repr,
+            'member_container_activation_id': self.member_container_activation_id,
+            'member_container_id': self.member_container_id
         }
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 3d41167..d85b48a 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -110,7 +110,8 @@ def export_bundle(trialIds,usersIds=[]):
         [EnvironmentAttrLW(x.id,x.trial_id,x.name,x.value) for x in envToImport]
     )
     bundle.evaluations.extend(
-        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr) for x in evaluationToImport]
+        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr,\
+            x.member_container_activation_id,x.member_container_id) for x in evaluationToImport]
     )
     bundle.fileAccesses.extend(
         [FileAccessLW(x.id,x.trial_id,x.name,x.checkpoint,x.mode,x.buffering,\
-- 
2.43.0


From 9190154f4f8bea802b342874ebcae7215fb2f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 04/77] fix: exchange contents between repositories that use
 git engines

Only contents are listed (not the internal files, trees and commits of the
git repository), and received contents get a name and are committed, so that
workers of parallel engines are finished when the exchange is.
---
 capture/noworkflow/now/cmd/cmd_import.py               |  3 ++-
 capture/noworkflow/now/cmd/cmd_pull.py                 |  4 +++-
 capture/noworkflow/now/persistence/content/base.py     |  4 ++++
 .../now/persistence/content/dulwich_engine.py          |  9 +++++++++
 .../noworkflow/now/persistence/content/git_system.py   |  6 ++++++
 .../noworkflow/now/persistence/content/plain_engine.py | 10 +++++++++-
 .../now/persistence/content/puregit_engine.py          |  4 ++++
 .../noworkflow/now/persistence/content/pygit_engine.py |  8 ++++++++
 capture/noworkflow/now/persistence/content_database.py |  9 ---------
 capture/noworkflow/now/vis/views.py                    | 10 ++++++++--
 10 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_import.py b/capture/noworkflow/now/cmd/cmd_import.py
index e7b3b4a..6090819 100644
--- a/capture/noworkflow/now/cmd/cmd_import.py
+++ b/capture/noworkflow/now/cmd/cmd_import.py
@@ -51,10 +51,11 @@ class Import(Command):
         sourceFiles=self.sourceContent.listAll()
         
         [self.addFile(x) for x in sourceFiles if x not in targetFiles]
+        self.targetContent.commit_content("Import")
     
     def addFile(self,name):
         content=self.sourceContent.get(name)
-        self.targetContent.put(content)
+        self.targetContent.put(content, name)
 
     def populate(self,args):
         if not (args.source):  
diff --git a/capture/noworkflow/now/cmd/cmd_pull.py b/capture/noworkflow/now/cmd/cmd_pull.py
index 016de33..961fdea 100644
--- a/capture/noworkflow/now/cmd/cmd_pull.py
+++ b/capture/noworkflow/now/cmd/cmd_pull.py
@@ -71,7 +71,7 @@ class Pull(Command):
         print("Importing file: "+url)
         headers = {'Accept-Encoding': 'gzip'}
         response=requests.get(url, headers=headers)
-        content.put(response.content, None)
+        content.put(response.content, url.split("/")[-1])
 
     def importFiles(self,url):
         filesUrl=self.url+"/collab/files"
@@ -82,6 +82,8 @@ class Pull(Command):
         targetFiles=content.listAll()
         filesToImport=[x for x in sourceFiles if x not in targetFiles]
         [self.importFile(filesUrl+"/"+x) for x in filesToImport]
+        if filesToImport:
+            content.commit_content("Pull from "+self.url)
         
         return True
 
diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index 5a2d1c8..d030b17 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,6 +56,10 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
+    def listAll(self):
+        """List hashes of all contents in database"""
+        raise NotImplementedError("Implement in subclass")
+
     def gc(self, aggressive=False):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index fe13a10..1fd9d46 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -73,6 +73,15 @@ class DulwichEngine(GitContentDatabaseEngine):
         except KeyError:
             return None
 
+    def listAll(self):
+        """List hashes of all contents in database"""
+        with self.use_safe_open():
+            object_store = self.repo.object_store
+            return [
+                sha.decode("ascii") for sha in object_store
+                if isinstance(object_store[sha], Blob)
+            ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         with self.use_safe_open():
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index b830d22..8261f24 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -104,6 +104,12 @@ def all_objects(git_path):
     return []
 
 
+def all_blobs(git_path):
+    cmd = ["git", "cat-file", "--batch-all-objects", "--batch-check"]
+    lines = execute(cmd, cwd=git_path).decode().splitlines()
+    return [line.split()[0] for line in lines if line.split()[1] == "blob"]
+
+
 def show_ref(ref, git_path):
     cmd = ["git", "show-ref", ref]
     result = execute(cmd, cwd=git_path, default=b"").decode().strip()
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 7c324c4..368dc2f 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -39,7 +39,7 @@ class PlainEngine(ContentDatabaseEngine):
         """Return attributes for the do_put operation"""
         return (self.content_path, content)
 
-    def put(self, content, filename):  # pylint: disable=method-hidden
+    def put(self, content, filename="generic"):  # pylint: disable=method-hidden
         """Put content in the content database"""
         return self.do_put(*self.put_attr(content, filename))
 
@@ -64,6 +64,14 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
+    def listAll(self):
+        """List hashes of all contents in database"""
+        files = []
+        for dirpath, _, filenames in os.walk(self.content_path):
+            for name in filenames:
+                files.append(os.path.basename(dirpath) + name)
+        return files
+
     def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 6a69e32..4be4b14 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -53,6 +53,10 @@ class PureGitEngine(GitContentDatabaseEngine):
                 return obj
         return None
 
+    def listAll(self):
+        """List hashes of all contents in database"""
+        return git_system.all_blobs(self.content_path)
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         tree = git_system.write_tree(self.content_path)
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index e2a0671..30cfa91 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -12,6 +12,7 @@ from collections import defaultdict
 from pygit2 import init_repository
 from pygit2 import Repository
 from pygit2 import GIT_FILEMODE_BLOB, GIT_FILEMODE_TREE
+from pygit2 import Blob
 from pygit2 import Signature
 
 from .gitbase import GitContentDatabaseEngine
@@ -63,6 +64,13 @@ class PyGitEngine(GitContentDatabaseEngine):
         except KeyError:
             return None
 
+    def listAll(self):
+        """List hashes of all contents in database"""
+        return [
+            str(oid) for oid in self.repo
+            if isinstance(self.repo[oid], Blob)
+        ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         empty_tree = self.repo.TreeBuilder().write()
diff --git a/capture/noworkflow/now/persistence/content_database.py b/capture/noworkflow/now/persistence/content_database.py
index 4a61b37..1943dc3 100644
--- a/capture/noworkflow/now/persistence/content_database.py
+++ b/capture/noworkflow/now/persistence/content_database.py
@@ -82,12 +82,3 @@ class ContentDatabase(object):
         if self.content_database_engine is None:
             self.define_engine(config)
         self.content_database_engine.connect(config)
-    
-    def listAll(self):
-        files = []
-        for r,d, f in os.walk(self.__getattr__("content_path")):
-            for file in f:
-                fileName=os.path.basename(r)
-                fileName+=file
-                files.append(fileName)
-        return files
diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 95cecdf..ef3550e 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -9,6 +9,7 @@ from __future__ import (absolute_import, print_function,
 import os
 import io
 import json
+import threading
 
 from flask import render_template, jsonify, request, make_response, send_file,send_file, Response
 from io import BytesIO as IO
@@ -48,6 +49,9 @@ class WebServer(object):
 app = WebServer().app  # pylint: disable=invalid-name
 app.config['MAX_CONTENT_LENGTH'] = 1600 * 1024 * 1024
 
+# Received files are committed one request at a time
+receive_lock = threading.Lock()
+
 @app.after_request
 def add_header(req):
     """
@@ -241,8 +245,10 @@ def receiveFiles(expCode):
         
         zF=BytesIO(filedata)
         zipObj = ZipFile(zF, 'r')
-        for fName in zipObj.namelist():
-            content.put(zipObj.read(fName), fName)
+        with receive_lock:
+            for fName in zipObj.namelist():
+                content.put(zipObj.read(fName), fName)
+            content.commit_content("Push to experiment "+expCode)
 
         zipObj.close()
         zF.close()
-- 
2.43.0


From 56d48684b2b9c15d757bfd15a30033404c49a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 05/77] fix: find content by partial hash with the dulwich and
 puregit engines

---
 .../noworkflow/now/persistence/content/dulwich_engine.py | 4 +++-
 .../noworkflow/now/persistence/content/puregit_engine.py | 9 ++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 1fd9d46..3e4dfa6 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -67,7 +67,9 @@ class DulwichEngine(GitContentDatabaseEngine):
         """Find hash in git"""
         try:
             content_hash = content_hash.encode("utf-8")
-            result = scan_for_short_id(self.repo.object_store, content_hash)
+            result = scan_for_short_id(
+                self.repo.object_store, content_hash, Blob
+            )
             if result:
                 return result.id.decode("utf-8")
         except KeyError:
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 4be4b14..6af1737 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -43,13 +43,8 @@ class PureGitEngine(GitContentDatabaseEngine):
  
     def find_subhash(self, content_hash):
         """Find hash in database"""
-        bytes_content_hash = content_hash.encode("utf-8")
-        print(bytes_content_hash)
-        objects = git_system.all_objects(self.content_path)
-        print(objects)
-        for obj in objects:
-            print(obj)
-            if obj.startswith(bytes_content_hash):
+        for obj in git_system.all_blobs(self.content_path):
+            if obj.startswith(content_hash):
                 return obj
         return None
 
-- 
2.43.0


From 1626999ca90b3562ef0a82ff2ce43a685483a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 06/77] fix: store content atomically in the plain engine

---
 .../now/persistence/content/plain_engine.py       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 368dc2f..e860c2f 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -1,5 +1,6 @@
 import hashlib
 import os
+import threading
 from os.path import join, isdir, isfile
 
 from .base import ContentDatabaseEngine
@@ -27,12 +28,22 @@ class PlainEngine(ContentDatabaseEngine):
         """Perform put operation. This is used in the distributed wrapper"""
         content_hash = hashlib.sha1(content).hexdigest()
         content_dirname = join(content_path, content_hash[:2])
-        if not isdir(content_dirname):
+        try:
             os.makedirs(content_dirname)
+        except OSError:
+            # Existing directory, possibly created at the same time by others
+            if not isdir(content_dirname):
+                raise
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
-            with safeopen.std_open(content_filename, "wb") as content_file:
+            # Write aside and rename, so that an interruption never leaves a
+            # truncated file with the name of a complete content
+            temp_filename = "{}.{}-{}.tmp".format(
+                content_path, os.getpid(), threading.current_thread().ident
+            )
+            with safeopen.std_open(temp_filename, "wb") as content_file:
                 content_file.write(content)
+            os.rename(temp_filename, content_filename)
         return content_hash
 
     def put_attr(self, content, filename):
-- 
2.43.0


From 892fd577a98ac5541dd37a0356d6dada74ac9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 07/77] fix: capture every way of opening a file

Accept the file as keyword argument or path object, do not read directories
and devices to get their content, and record the mode and buffering that were
given together as positional arguments.
---
 .../collection/prov_execution/collector.py    | 55 +++++++++++--------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5553bb..dacca3f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -140,46 +140,55 @@ class Collector(object):
 
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
-        def open(name, *args, **kwargs):  # pylint: disable=redefined-builtin
+        if osopen:
+            parameters = ("path", "flags")
+        elif old_open is content.codecs_open:
+            parameters = ("filename", "mode", "encoding", "errors", "buffering")
+        else:
+            parameters = ("file", "mode", "buffering")
+
+        def open(*args, **kwargs):  # pylint: disable=redefined-builtin
             """Open file and add it to file_accesses"""
             if content.should_use_safe_open():
-                return old_open(name, *args, **kwargs)
-            if isinstance(name, int):
+                return old_open(*args, **kwargs)
+            values = dict(zip(parameters, args))
+            values.update(kwargs)
+            name = values.get(parameters[0])
+            if not isinstance(name, (str, bytes, os.PathLike)):
                 # ToDo: support file descriptor
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
+            name = os.fsdecode(name)
             activation = self.last_activation
             while activation and not activation.active:
                 activation = activation.parent
 
             if not activation:
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             # Create a file access object with default values
             file_access = self.file_accesses.add_object(
                 self.trial_id, name, self.get_time()
             )
-            if os.path.exists(name):
+            if os.path.isfile(name):
                 # Read previous content if file exists
                 with content.std_open(name, "rb") as fil:
                     file_access.content_hash_before = content.put(fil.read(), name)
             file_access.activation_id = activation.id
-            # Update with the informed keyword arguments (mode / buffering)
-            file_access.update(kwargs)
-            # Update with the informed positional arguments
-            if len(args) > 1:
-                file_access.buffering = args[1]
-            elif args:
-                mode = args[0]
-                if osopen:
-                    mode = ""
-                    for key, value in viewitems(OPEN_MODES):
-                        flag = getattr(os, key, 0)
-                        if args[0] & flag:
-                            value = value or "({})".format(key)
-                            mode += value
-
+            # Update with the informed arguments (mode / buffering)
+            if osopen:
+                mode = ""
+                for key, value in viewitems(OPEN_MODES):
+                    flag = getattr(os, key, 0)
+                    if values.get("flags", 0) & flag:
+                        value = value or "({})".format(key)
+                        mode += value
                 file_access.mode = mode
+            else:
+                file_access.update({
+                    key: values[key] for key in ("mode", "buffering")
+                    if key in values
+                })
             activation.file_accesses.append(file_access)
-            return old_open(name, *args, **kwargs)
+            return old_open(*args, **kwargs)
 
         return open
 
@@ -420,7 +429,7 @@ class Collector(object):
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-            if os.path.exists(file_access.name):
+            if os.path.isfile(file_access.name):
                 with content.std_open(file_access.name, "rb") as fil:
                     file_access.content_hash_after = content.put(fil.read(), file_access.name)
             file_access.done = True
-- 
2.43.0


From 6e06e6bf8f90ec31bae25178bdd85ed5aacdcf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 08/77] fix: record the content files have after the function
 that opened them

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index dacca3f..7686c00 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -159,6 +159,10 @@ class Collector(object):
                 return old_open(*args, **kwargs)
             name = os.fsdecode(name)
             activation = self.last_activation
+            if activation.func is open:
+                # Calling open is an activation too, but it ends before the
+                # file is used. The access belongs to its caller
+                activation = activation.parent
             while activation and not activation.active:
                 activation = activation.parent
 
-- 
2.43.0


From 85362a4da6fcb4fbcaed2b1a010f9986854a3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 09/77] fix: serve scripts, files and annotations with the
 current Flask

---
 capture/noworkflow/now/vis/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index ef3550e..382a7d0 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -173,7 +173,7 @@ def getExtendedAnnotationContent(id):
     extention=annt.annotationFormat
     if(extention=="plainText"):
         extention="txt"
-    return send_file(IO(bytes(annt.annotation, 'utf-8')),mimetype='application/octet-stream',as_attachment=True,attachment_filename=id+"."+extention)
+    return send_file(IO(bytes(annt.annotation, 'utf-8')),mimetype='application/octet-stream',as_attachment=True,download_name=id+"."+extention)
 
 
 @app.route("/experiments/<expCode>/extendedAnnotation", methods=['Post'])
@@ -316,7 +316,7 @@ def dataflow(tid):
     display = DotDisplay(trial.dot.export_text(), format="pdf")
     return send_file(
         io.BytesIO(display.display_result()["application/pdf"]),
-        attachment_filename='flow.pdf',
+        download_name='flow.pdf',
         mimetype="application/pdf"
     )
 
@@ -326,7 +326,7 @@ def get_script(tid, script_hash, name):
     """Returns the executed script"""
     return send_file(
         io.BytesIO(content.get(script_hash)),
-        attachment_filename=name + '.py'
+        download_name=name + '.py'
     )
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
@@ -336,7 +336,7 @@ def get_file(file_hash, file_ext):
     name = file_hash + file_ext
     return send_file(
         io.BytesIO(content.get(file_hash)),
-        attachment_filename=name
+        download_name=name
     )
 
 @app.route("/experiments/<expCode>/trials/<tid>/<graph_mode>/<cache>.json")
-- 
2.43.0


From 9ba2eed54626a88242daaa9200894ca5d7d348c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 10/77] fix: answer experiment routes of activations and files
 and requests for unknown remotes

---
 capture/noworkflow/now/vis/views.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 382a7d0..f50b213 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -310,7 +310,7 @@ def trials(expId=None):
 #generate dafalowdataflow
 @app.route("/experiments/<expCode>/trials/<tid>/flow.pdf")
 @app.route("/trials/<tid>/flow.pdf")
-def dataflow(tid):
+def dataflow(tid, expCode=None):
     """Generates the dafalow of a trial """ 
     trial = Trial(tid)
     display = DotDisplay(trial.dot.export_text(), format="pdf")
@@ -322,7 +322,7 @@ def dataflow(tid):
 
 @app.route("/experiments/<expCode>/trials/<tid>/<script_hash>/<name>") 
 @app.route("/trials/<tid>/<script_hash>/<name>")    
-def get_script(tid, script_hash, name):
+def get_script(tid, script_hash, name, expCode=None):
     """Returns the executed script"""
     return send_file(
         io.BytesIO(content.get(script_hash)),
@@ -331,7 +331,7 @@ def get_script(tid, script_hash, name):
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
 @app.route("/trials/files/<file_hash>/<file_ext>")
-def get_file(file_hash, file_ext):
+def get_file(file_hash, file_ext, expCode=None):
     """Returns a file used in the trial"""
     name = file_hash + file_ext
     return send_file(
@@ -386,7 +386,7 @@ def file_accesses(tid,expCode=None):
 @app.route("/experiments/<expCode>/trials/<tid>/activations/<aid>")
 @app.route("/trials/<tid>/activations/<aid>.json")
 @app.route("/trials/<tid>/activations/<aid>")
-def activations(tid, aid):
+def activations(tid, aid, expCode=None):
     """Respond trial activation as text"""
     activation = Activation((tid, aid))
     global_evaluations = activation.filter_evaluations_by_type("global")
@@ -581,7 +581,7 @@ def add_remote(remote_name, remote_url):
 @app.route("/collab/remotes/edit/<remote_new_name>/<path:remote_url>")
 def edit_remote(remote_new_name, remote_url):
     remote_url_list = relational.session.query(Remote.m).filter(Remote.m.server_url == remote_url).all()
-    if(len(remote_url) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
+    if(len(remote_url_list) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
     remote = remote_url_list[0]
     remote.name = remote_new_name
     relational.session.commit()
@@ -590,7 +590,7 @@ def edit_remote(remote_new_name, remote_url):
 @app.route("/collab/remotes/delete/<path:remote_url>")
 def delete_remote(remote_url):
     remote_url_list = relational.session.query(Remote.m).filter(Remote.m.server_url == remote_url).all()
-    if(len(remote_url) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
+    if(len(remote_url_list) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
     remote = remote_url_list[0]
     if remote.used: remote.hide = True
     else: relational.session.delete(remote)
-- 
2.43.0


From 80c4ee281d785927593a811fb6e0607a991eeede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 11/77] fix: do not take files of sibling directories as files
 of the trial

---
 capture/noworkflow/now/persistence/models/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index f90df9c..b95e62a 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -386,7 +386,7 @@ class Trial(AlchemyProxy):
                 continue
             elif not os.path.isabs(path):
                 yield module
-            elif path.startswith(self.path):
+            elif path.startswith(os.path.join(self.path, "")):
                 yield module
 
     @property
@@ -632,7 +632,7 @@ class Trial(AlchemyProxy):
         def add(path, info):
             """Add file to dict"""
             if os.path.isabs(path):
-                if not path.startswith(self.path):
+                if not path.startswith(os.path.join(self.path, "")):
                     return
                 path = os.path.relpath(path, self.path)
             files[path] = info
-- 
2.43.0


From 9d19393e5fd8124a46f30f9f5d9d5a9af647f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 12/77] fix: backups keep their own path and modules

Restoring a backup wrote modules to a directory named after the project, with
the contents of the modules of another trial.
---
 capture/noworkflow/now/cmd/cmd_restore.py          | 2 +-
 capture/noworkflow/now/collection/metadata.py      | 3 ++-
 capture/noworkflow/now/persistence/models/trial.py | 7 +++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index a1b1e47..85ef0b8 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -189,7 +189,7 @@ class Restore(Command):
         self.trial = trial = metascript.trial = Trial(trial_ref=args.trial)
         metascript.trial_id = trial.id
         metascript.name = trial.script
-        metascript.path = trial.path
+        metascript.path = os.path.join(trial.path, trial.script)
 
         restore_files = trial.versioned_files(**skip_dict(args))
         if not args.file:
diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index c53e67c..0658949 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -234,7 +234,8 @@ class Metascript(object):
 
     def read_restore_args(self, args):
         """Read cmd line argument object for 'now restore'"""
-        self.bypass_modules = True
+        # Backups have their own modules
+        self.bypass_modules = False
         self.command = " ".join(sys.argv[1:])
 
         self.dir = args.dir
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index b95e62a..dbe0c36 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -1096,10 +1096,13 @@ class Trial(AlchemyProxy):
                 select([ttrial.c.id]).where(ttrial.c.start.in_(
                     select([func.max(ttrial.c.start)])
                     .select_from(ttrial)
-                    .where(is_none(ttrial.c.modules_inherited_from_trial_id))
+                    .where(
+                        is_none(ttrial.c.modules_inherited_from_trial_id) &
+                        (ttrial.c.status != "backup")
+                    )
                 ))
             )
-            cls.last_trial_id = str(_query)
+            cls.last_trial_id = _query
         an_id = session.execute(
             cls.last_trial_id).fetchone()
         if not an_id:
-- 
2.43.0


From 9081a2df823ef4a4e7df8abe7c1f7e8e1a272041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 13/77] fix: restore a file of a trial given by tag and of the
 last trial

---
 capture/noworkflow/now/cmd/cmd_restore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 85ef0b8..ab54b79 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -225,7 +225,8 @@ class Restore(Command):
 
             parsed = parser.parse_args(args.file)
 
-            restore = self.find_file(args.trial, parsed.path, parsed.id)
+            restore = self.find_file(
+                args.trial and trial.id, parsed.path, parsed.id)
             if not restore:
                 print_msg("File version not found!", self.print_msg)
             else:
@@ -261,7 +262,7 @@ class Restore(Command):
             if code_hash:
                 return path, code_hash
 
-        if tid and fid.isnumeric():
+        if fid.isnumeric():
             # Count accesses
             fid = int(fid)
             trial = Trial(tid)
-- 
2.43.0


From 076189313855c01c108eaa42de0bf84ef6834c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 14/77] fix: back up the script and every file that restoring
 overwrites

---
 capture/noworkflow/now/cmd/cmd_restore.py          | 14 +++++++++++++-
 capture/noworkflow/now/persistence/models/trial.py |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index ab54b79..68735c7 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -195,10 +195,22 @@ class Restore(Command):
         if not args.file:
             head = Trial.load_parent(trial.script, remove=False)
 
+            # Compare the files of the head, and existing files that the head
+            # does not know and that would be overwritten
             last_files = head.versioned_files(**skip_dict(args))
+            for path, info in viewitems(restore_files):
+                if path not in last_files and file_hash(path) is not None:
+                    last_files[path] = dict(info)
             match, new_files = self.find_differences(last_files)
             if not match:
-                self.create_backup(metascript, new_files, args)
+                # The backup has all files of the head, even if skipped. The
+                # script comes first, because it is the main block
+                backup_files = {}
+                for path, info in viewitems(head.versioned_files()):
+                    backup_files[path] = new_files.pop(path, None) or dict(
+                        info, code_hash=file_hash(path))
+                backup_files.update(new_files)
+                self.create_backup(metascript, backup_files, args)
 
             for path, info in viewitems(restore_files):
                 self.restore(path, info["code_hash"], trial.id,
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index dbe0c36..0ddf858 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -635,6 +635,8 @@ class Trial(AlchemyProxy):
                 if not path.startswith(os.path.join(self.path, "")):
                     return
                 path = os.path.relpath(path, self.path)
+            if path == self.script and info["type"] != "script":
+                return
             files[path] = info
 
         if script:
-- 
2.43.0


From 57bf329d3a125b24784e57c39753c4be67680bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 15/77] fix: count only the accesses of the requested file when
 restoring it

---
 capture/noworkflow/now/persistence/models/trial.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index 0ddf858..804c5a5 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -695,18 +695,23 @@ class Trial(AlchemyProxy):
         [('file2.txt', [('checkpoint', ...), ('code_hash', None), ('type', 'access')]),
          ('file2.txt', [('checkpoint', ...), ('code_hash', 'def'), ('type', 'access')])]
         """
-        if not path or self.script.endswith(path):
+        def match(name):
+            """Check if name refers to path"""
+            return not path or os.path.join(os.sep, name).endswith(
+                os.path.join(os.sep, path))
+
+        if match(self.script):
             yield self.script, {"code_hash": self.code_hash, "type": "script"}
         # pylint: disable=not-an-iterable
         for module in self.local_modules:
-            if not path or module.path.endswith(path):
+            if match(module.path):
                 yield module.path, {
                     "code_hash": module.code_hash,
                     "type": "module",
                     "name": module.name
                 }
         for faccess in list(self.file_accesses):
-            if not path or faccess.name.endswith(path):
+            if match(faccess.name):
                 yield faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
-- 
2.43.0


From e27c1ee2dbb134591548588e59761fa54cb665f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 16/77] fix: capture accesses to objects without dict or
 length, and decorators that return objects

---
 .../collection/prov_execution/collector.py    | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7686c00..2d7dcff 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -12,6 +12,10 @@ import time
 import inspect
 
 from collections import OrderedDict
+try:
+    from collections.abc import Mapping
+except ImportError:
+    from collections import Mapping
 from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
@@ -132,7 +136,11 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
-        return repr_fn(value)
+        try:
+            return repr_fn(value)
+        except Exception:  # pylint: disable=broad-except
+            # The object may not be ready (e.g., during its __init__)
+            return object.__repr__(value)
 
     def as_is(self, value):
         """Return value without any processing"""
@@ -232,7 +240,7 @@ class Collector(object):
                 if hasattr(accessor, '__get__'):
                     # ToDo: accessor provenance
                     return False
-            if vindex in vcontainer.__dict__:
+            if vindex in getattr(vcontainer, "__dict__", {}):
                 # In instance
                 if isinstance(vcontainer, type):
                     accessor = vcontainer.__dict__[vindex]
@@ -243,8 +251,10 @@ class Collector(object):
             same = collection.same()
             cls_eval = (
                 same.members.get(".__class__")
-                or self.shared_types[cls_value]
+                or self.shared_types.get(cls_value)
             )
+            if cls_eval is None:
+                return False
             in_class = self.simple_member_lookup(
                 cls_eval, addr, value, depa, source=collection
             )
@@ -255,6 +265,16 @@ class Collector(object):
         else:
             return self.simple_member_lookup(collection, addr, value, depa)
 
+    def item_addr(self, vcontainer, vindex):
+        """Return address of item. Negative indexes of sequences count from
+        the end"""
+        # pylint: disable=no-self-use
+        if (isinstance(vindex, int) and vindex < 0
+                and hasattr(vcontainer, "__len__")
+                and not isinstance(vcontainer, Mapping)):
+            vindex = len(vcontainer) + vindex
+        return "[{}]".format(vindex)
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -272,10 +292,7 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
-                addr = "[{}]".format(nvindex)
+                addr = self.item_addr(vcontainer, vindex)
                 value = vcontainer[vindex]
                 if not activation.active:
                     return value
@@ -361,10 +378,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
-                addr = "[{}]".format(nvindex)
+                addr = self.item_addr(vcontainer, vindex)
                 vcontainer[vindex] = value
             elif access == ".":
                 setattr(vcontainer, vindex, value)
@@ -1422,7 +1436,11 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            function_def.original_def = original_def
+            try:
+                function_def.original_def = original_def
+            except AttributeError:
+                # Decorators may return any object (e.g., property)
+                pass
             return function_def
         return dec
 
-- 
2.43.0


From 44cf9a580f99e7d6be378090de088b320ed45ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 17/77] fix: capture context managers without target and
 indirect calls with fewer parameters

---
 .../now/collection/prov_execution/collector.py         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 2d7dcff..208517e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1352,7 +1352,7 @@ class Collector(object):
                         future.dependencies[0].replace(activation.dependencies[1])
                     
                     find_bound_self = None
-                    if function_def.__name__ == "__enter__":
+                    if function_def.__name__ == "__enter__" and activation.assignments:
                         # ToDo: check the proper __enter__ assignment
                         find_bound_self = activation.assignments[-1].dependency
                     if function_def.__name__ == "__init__":
@@ -1383,7 +1383,7 @@ class Collector(object):
                             activation.assignments[-1].dependency.dependencies.extend(
                                 self.last_activation.dependencies[-1].dependencies
                             )
-                        except AttributeError:
+                        except (AttributeError, IndexError):
                             pass
                     if is_augassign:
                         activation.dependencies.pop()
@@ -1617,14 +1617,16 @@ class Collector(object):
 
         # Match args
         for arg in arguments:
+            if last_unfilled >= len(parameter_order):
+                # Indirect call: there are arguments of the original call
+                break
             if arg is None:
                 param = parameter_order[last_unfilled]
                 param.filled = True
                 last_unfilled += 1
             elif arg.arg == "*":
                 new_args.extend(arg.value)
-                for _ in range(len(arg.value)):
-                    param = parameter_order[last_unfilled]
+                for param in parameter_order[last_unfilled:][:len(arg.value)]:
                     match(arg, param)
                     if param.is_vararg:
                         break
-- 
2.43.0


From 5a5a1da7d9fa4a399975928b08fe6e11501a533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 18/77] fix: collect the file accesses of captured modules

---
 .../now/collection/prov_deployment/py3module.py  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_deployment/py3module.py b/capture/noworkflow/now/collection/prov_deployment/py3module.py
index 2024d2c..8254318 100644
--- a/capture/noworkflow/now/collection/prov_deployment/py3module.py
+++ b/capture/noworkflow/now/collection/prov_deployment/py3module.py
@@ -5,6 +5,7 @@
 """Python 3 Import Hook"""
 
 import inspect
+import os
 from functools import wraps
 from importlib.machinery import PathFinder, SourceFileLoader
 from importlib.abc import Loader
@@ -144,23 +145,30 @@ def create_source_loader(metascript, loader):
             with content.use_safe_open():
                 source_path = loader.get_filename(module.__name__)
                 required = 2
-                required -= int(source_path.startswith(metascript.dir))
+                required -= int(
+                    source_path.startswith(os.path.join(metascript.dir, ""))
+                )
                 create_module = not metascript.bypass_modules
+                captured = metascript.context >= required
+                transformed = False
 
-                if metascript.context >= required:
+                if captured:
                     code, id_, transformed = metascript.definition.collect(
                         None, source_path, "exec"
                     )
-                    exec(code, module.__dict__)
                     create_module = True # Override bypass_modules
                 else:
                     if create_module:
-                        transformed = False
                         id_ = metascript.definition.create_code_block(
                             None, source_path, "module", False, True
                         )[1]
                     loader.exec_module(module)
 
+            if captured:
+                # The module is captured: collect its file accesses
+                exec(code, module.__dict__)
+
+            with content.use_safe_open():
                 if create_module:
                     # To get version, the module must execute first
                     metascript.deployment.add_module(
-- 
2.43.0


From f8d29ffe4967fceb4e0e4d3c228deaa9ff179b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 19/77] fix: do not execute modules to back them up

---
 capture/noworkflow/now/cmd/cmd_restore.py | 46 ++++++++++++-----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 68735c7..6e8cb00 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -7,11 +7,13 @@ from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
 import argparse
+import ast
 import os
 import sys
 import time
 
 from datetime import datetime
+from types import ModuleType
 from future.utils import viewitems
 
 from ..collection.metadata import Metascript
@@ -19,7 +21,6 @@ from ..persistence.models import Trial, Module, FileAccess, Tag
 from ..persistence.models import CodeComponent, CodeBlock, Argument
 from ..persistence import persistence_config, content
 from ..utils.io import print_msg
-from ..utils.cross_version import PY34, PY35, PY2
 
 from .command import Command
 
@@ -82,26 +83,9 @@ class Restore(Command):
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
-                version = None
-                try:
-                    if PY35:
-                        import importlib.util
-                        spec = importlib.util.spec_from_file_location(
-                            info["name"], path
-                        )
-                        module = importlib.util.module_from_spec(spec)
-                        spec.loader.exec_module(module)
-                    elif PY34:
-                        from importlib.machinery import SourceFileLoader
-                        module = SourceFileLoader(
-                            info["name"], path
-                        ).load_module()
-                    elif PY2:
-                        import imp
-                        module = imp.load_source(info["name"], path)
-                    version = metascript.deployment.get_version(module)
-                except Exception:
-                    pass
+                version = metascript.deployment.get_version(
+                    declared_module(info["name"], path)
+                )
                 metascript.deployment.add_module(
                     info["name"], version, path, cid, False, None
                 )
@@ -299,6 +283,26 @@ def time_str(arg):
     return None
 
 
+def declared_module(name, path):
+    """Return module with the constants declared in path, without running it"""
+    module = ModuleType(str(name))
+    try:
+        with content.std_open(path, "rb") as fil:
+            tree = ast.parse(fil.read())
+        for stmt in tree.body:
+            if isinstance(stmt, ast.Assign):
+                for target in stmt.targets:
+                    if isinstance(target, ast.Name):
+                        try:
+                            value = ast.literal_eval(stmt.value)
+                        except ValueError:
+                            continue
+                        setattr(module, target.id, value)
+    except (OSError, SyntaxError, ValueError):
+        pass
+    return module
+
+
 def file_hash(path):
     """Return hash of file in path or None"""
     abs_path = os.path.join(persistence_config.base_path, path)
-- 
2.43.0


From cceb766028ef6c51b9ed05a9e5bf773bbbcf3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 20/77] fix: store scripts and modules byte by byte, whatever
 their encoding

---
 .../now/collection/prov_definition/definition.py           | 7 +++++--
 capture/noworkflow/now/ipython/magics/now_restore.py       | 6 +++++-
 capture/noworkflow/now/models/code_display.py              | 6 +++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index 98946d1..fcd9295 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -48,10 +48,11 @@ class Definition(object):
     def create_code_block(self, code, path, type_, binary, load):
         """Create code block for script/module"""
         # pylint: disable=too-many-arguments
+        source = None
         if load:
             try:
                 with content.std_open(path, "rb") as script_file:
-                    code = script_file.read()
+                    code = source = script_file.read()
                     if not binary:
                         code = pyposast.native_decode_source(code)
             except UnicodeError:
@@ -80,8 +81,10 @@ class Definition(object):
             "w",
             1, 0, len(lines), len(lines[-1]), -1
         )
+        # Store the file as it is, without decoding it
+        code_hash = None if source is None else content.put(source, path)
         self.metascript.code_blocks_store.add(
-            id_, self.metascript.trial_id, code, binary, None, path
+            id_, self.metascript.trial_id, code, binary, None, path, code_hash
         )
         return code, id_
 
diff --git a/capture/noworkflow/now/ipython/magics/now_restore.py b/capture/noworkflow/now/ipython/magics/now_restore.py
index 8c85ccb..6cc2c13 100644
--- a/capture/noworkflow/now/ipython/magics/now_restore.py
+++ b/capture/noworkflow/now/ipython/magics/now_restore.py
@@ -6,6 +6,8 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
+import pyposast
+
 from ...cmd import Restore
 from ...persistence import content
 
@@ -46,4 +48,6 @@ class NowRestore(IpythonCommandMagic, Restore):
         _, args = self.arguments(func, line)
         self.args_file, self.trial = args.file, None
         Restore.execute(self, args)
-        return content.get(self.trial.code_hash).decode("utf-8")
+        return pyposast.native_decode_source(
+            content.get(self.trial.code_hash)
+        )
diff --git a/capture/noworkflow/now/models/code_display.py b/capture/noworkflow/now/models/code_display.py
index 0aeae4c..6c99781 100644
--- a/capture/noworkflow/now/models/code_display.py
+++ b/capture/noworkflow/now/models/code_display.py
@@ -6,6 +6,8 @@
 
 import time
 
+import pyposast
+
 from future.utils import viewvalues
 
 from ..persistence import content
@@ -26,7 +28,9 @@ class CodeDisplay(object):
                 comp.id: comp
                 for comp in block.all_components
             }
-            self.code = content.get(block.code_hash).decode("utf-8")
+            self.code = pyposast.native_decode_source(
+                content.get(block.code_hash)
+            )
 
     def __getitem__(self, item):
         code = self.code.split('\n')
-- 
2.43.0


From 7a5ab2cc3abdf36c021d8528692774b509fc6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 21/77] fix: record one access per codecs.open

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 208517e..cb3b740 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -200,6 +200,10 @@ class Collector(object):
                     if key in values
                 })
             activation.file_accesses.append(file_access)
+            if old_open is content.codecs_open:
+                # It uses the builtin open, but it is a single access
+                with content.use_safe_open():
+                    return old_open(*args, **kwargs)
             return old_open(*args, **kwargs)
 
         return open
-- 
2.43.0


From 1e758b9b390ad34856d5fff891ace76df5d11e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:42 +0000
Subject: [PATCH 22/77] fix: show the history of a store without trials

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index c30d8d3..f81dc98 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -402,7 +402,7 @@ class HistoryGraph(Graph):
         display(bundle, raw=True)
 
     def __repr__(self):
-        width = max(len(s) for s in self.history.scripts)
+        width = max([len(s) for s in self.history.scripts] or [0])
         history = self.history_data()
         nodes = history["nodes"]
 
-- 
2.43.0


From 530ead661227f1305f075acb5faf9c0d0530790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 23/77] fix: record the mode of files opened for reading with
 os.open

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index cb3b740..1074186 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -190,7 +190,11 @@ class Collector(object):
                 mode = ""
                 for key, value in viewitems(OPEN_MODES):
                     flag = getattr(os, key, 0)
-                    if values.get("flags", 0) & flag:
+                    flags = values.get("flags", 0)
+                    if flags & flag or (
+                            # This mode is the absence of the other two
+                            key == "O_RDONLY" and
+                            not flags & (os.O_WRONLY | os.O_RDWR)):
                         value = value or "({})".format(key)
                         mode += value
                 file_access.mode = mode
-- 
2.43.0


From d165360a7312d48f01a8c2b1363f0de672df7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 24/77] fix: complete a provenance database whose creation was
 interrupted

---
 capture/noworkflow/now/persistence/relational_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index 5be2d34..a6399f2 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -59,7 +59,8 @@ class RelationalDatabase(object):
 
         if new_db:
             print_msg("creating provenance database")
-            self.base.metadata.create_all(self.engine)
+        # An interrupted creation is completed
+        self.base.metadata.create_all(self.engine)
 
     def make_session(self):
         """Create thread safe session"""
-- 
2.43.0


From 492a71c9cd07d73fdf543579e0643bc44bffecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 25/77] fix: read contents back as bytes with the dulwich
 engine

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 3e4dfa6..a0744c6 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -60,7 +60,7 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             return_data = self.repo.__getitem__(
                 content_hash.encode()
-            ).as_pretty_string()
+            ).data
             return return_data
 
     def find_subhash(self, content_hash):
-- 
2.43.0


From c6b32644f4c95b1263490605fe81c7ee0d4f883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 26/77] fix: let functions run at exit after the run is stored

---
 .../now/collection/prov_execution/collector.py     |  7 ++++++-
 .../now/collection/prov_execution/execution.py     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 1074186..ff5313f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -102,6 +102,8 @@ class Collector(object):
             self.trial_id, "<now>", None, None
         )
         self.first_activation.depth = 0
+        # Functions may still be called after the script (e.g., by atexit)
+        self.first_activation.dependencies.append(DependencyAware())
         self.last_activation = self.first_activation
         self.future_activation = []
         self.shared_types = {}
@@ -1354,7 +1356,10 @@ class Collector(object):
                         assign = activation.assignments[-1]
                         future.dependencies[0].replace(assign.dependency.clone(mode="argument", kind="argument"))
                         activation.dependencies.insert(-1, assign.dependency)
-                    elif function_def.__name__ in activation.dependencies[-2].maybe_activation:
+                    elif (
+                            len(activation.dependencies) > 1 and
+                            function_def.__name__ in activation.dependencies[-2].maybe_activation
+                    ):
                         future.dependencies[0].replace(activation.dependencies[-2].clone(mode="argument", kind="argument"))
                     elif len(activation.dependencies) > 1:
                         future.dependencies[0].replace(activation.dependencies[1])
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index 4a07f23..f498f33 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -49,6 +49,18 @@ class Execution(object):
             self.collector, builtin, self.metascript
         )
 
+    def restore_open(self):
+        """Stop collecting file accesses. The files that are opened after the
+        execution (e.g., by atexit functions) do not belong to the trial"""
+        builtin = self.metascript.namespace["__builtins__"]
+        try:
+            builtin["open"] = content.std_open
+        except TypeError:
+            builtin.open = content.std_open
+        io.open = content.io_open
+        codecs.open = content.codecs_open
+        os.open = content.os_open
+
     @meta_profiler("execution")
     def collect_provenance(self):
         """Collect execution provenance"""
@@ -81,6 +93,8 @@ class Execution(object):
             self.force_msg = self.partial = False
             self.msg = ("the execution of trial {} finished successfully"
                         "".format(metascript.trial_id))
+        finally:
+            self.restore_open()
 
     @meta_profiler("storage")
     def store_provenance(self):
-- 
2.43.0


From 0f5f80edd9bf14af1b3eae0f6d6a41e7b792fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 27/77] fix: commit contents with puregit when git has no
 identity

---
 capture/noworkflow/now/persistence/content/git_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 8261f24..d5d85c3 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -81,6 +81,7 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
     if author:
         env = env.copy()
         env["GIT_AUTHOR_NAME"], env["GIT_AUTHOR_EMAIL"] = author
+        env["GIT_COMMITTER_NAME"], env["GIT_COMMITTER_EMAIL"] = author
     return execute(cmd, cwd=git_path, env=env).decode().replace("\n", "")
 
 
-- 
2.43.0


From 4609ff0eeab209fcfd724c6ad470e5d571572af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:13 +0000
Subject: [PATCH 28/77] fix: create git content repositories atomically

---
 .../now/persistence/content/dulwich_engine.py |  8 ++++++--
 .../now/persistence/content/gitbase.py        | 19 +++++++++++++++++++
 .../now/persistence/content/puregit_engine.py |  6 +++++-
 .../now/persistence/content/pygit_engine.py   |  6 +++++-
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index a0744c6..26daa8d 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -26,8 +26,7 @@ class DulwichEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not os.path.isdir(self.content_path):
-            os.makedirs(self.content_path)
-            Repo.init_bare(self.content_path)
+            self.init_content_path()
             self.repo = Repo(self.content_path)
             self.create_initial_commit()
         else:
@@ -84,6 +83,11 @@ class DulwichEngine(GitContentDatabaseEngine):
                 if isinstance(object_store[sha], Blob)
             ]
 
+    def init_repository(self, path):
+        """Create an empty bare git repository"""
+        os.makedirs(path)
+        Repo.init_bare(path)
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         with self.use_safe_open():
diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index eb224d0..93dac91 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -1,5 +1,6 @@
 import os
 import hashlib
+import shutil
 
 from collections import Counter
 
@@ -29,6 +30,20 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self.content_path = os.path.join(config.provenance_path, GIT_DATABASE_DIR)
         self.base_path = os.path.abspath(config.base_path)
 
+    def init_content_path(self):
+        """Create the git repository aside and rename it, so that an interruption
+        never leaves an incomplete repository in its place"""
+        temp_path = "{}.{}.tmp".format(self.content_path, os.getpid())
+        with self.use_safe_open():
+            self.init_repository(temp_path)
+            try:
+                os.rename(temp_path, self.content_path)
+            except OSError:
+                # Existing repository, possibly created at the same time by others
+                if not os.path.isdir(self.content_path):
+                    raise
+                shutil.rmtree(temp_path)
+
     def gc(self, aggressive=False):
         git_system.garbage_collection(self.content_path, aggressive)
 
@@ -96,6 +111,10 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             dirname = os.path.dirname(dirname)
         return trees[original]
 
+    def init_repository(self, path):
+        """Create an empty bare git repository"""
+        raise NotImplementedError("Implement in subclass")
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         raise NotImplementedError("Implement in subclass")
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 6af1737..6f97a24 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -15,7 +15,7 @@ class PureGitEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            git_system.init(self.content_path)
+            self.init_content_path()
             self.create_initial_commit()
 
     @staticmethod
@@ -52,6 +52,10 @@ class PureGitEngine(GitContentDatabaseEngine):
         """List hashes of all contents in database"""
         return git_system.all_blobs(self.content_path)
 
+    def init_repository(self, path):
+        """Create an empty bare git repository"""
+        git_system.init(path)
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         tree = git_system.write_tree(self.content_path)
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index 30cfa91..21d083d 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -27,7 +27,7 @@ class PyGitEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            init_repository(self.content_path, bare=True)
+            self.init_content_path()
             self.repo = Repository(self.content_path)
             self.create_initial_commit()
         else:
@@ -71,6 +71,10 @@ class PyGitEngine(GitContentDatabaseEngine):
             if isinstance(self.repo[oid], Blob)
         ]
 
+    def init_repository(self, path):
+        """Create an empty bare git repository"""
+        init_repository(path, bare=True)
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         empty_tree = self.repo.TreeBuilder().write()
-- 
2.43.0


From 3b8044cccc8c5a0dd35e024a7cbe63d24e2cc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 29/77] fix: store contents whose storage was interrupted with
 the dulwich engine

---
 .../noworkflow/now/persistence/content/dulwich_engine.py   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 26daa8d..a609145 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -4,6 +4,7 @@ import time
 import io
 
 from dulwich import file
+from dulwich.file import FileLocked
 from dulwich.repo import Repo
 from dulwich.objects import Tree
 from dulwich.objects import Blob
@@ -39,7 +40,11 @@ class DulwichEngine(GitContentDatabaseEngine):
             object_store = Repo(content_path).object_store
             blob = Blob.from_string(content)
             with lock:
-                object_store.add_object(blob)
+                try:
+                    object_store.add_object(blob)
+                except FileLocked:
+                    # Lock of an interrupted storage. A pack does not use it
+                    object_store.add_objects([(blob, None)])
             result = object_hashes[filename] = blob.id.decode("ascii")
             return result
 
-- 
2.43.0


From 3b167088ca19098a4c819c6380ba2c8fd0b10032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:59 +0000
Subject: [PATCH 30/77] fix: collect garbage without removing contents that
 were not committed

---
 capture/noworkflow/now/persistence/content/git_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index d5d85c3..0ef0077 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -86,7 +86,8 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
 
 
 def garbage_collection(git_path, aggressive=False):
-    cmd = ["git", "gc", "--quiet"]
+    # Contents that were not committed (e.g., from interrupted trials) are still used
+    cmd = ["git", "gc", "--quiet", "--no-prune"]
     if aggressive:
         cmd.append("--aggressive")
     execute(cmd, cwd=git_path)
-- 
2.43.0


From 30c01328fa070f9d020eb22e5369f7c4627ba170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 31/77] fix: commit contents whatever the name of the file

---
 capture/noworkflow/now/persistence/content/git_system.py | 2 +-
 capture/noworkflow/now/persistence/content/gitbase.py    | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 0ef0077..c17e7de 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -45,7 +45,7 @@ def get(content_hash, git_path):
 
 
 def update_index(mode, content_hash, filename, git_path):
-    cmd = ["git", "update-index", "--add", "--cacheinfo", mode, content_hash, filename]
+    cmd = ["git", "update-index", "--add", "--replace", "--cacheinfo", mode, content_hash, filename]
     return execute(cmd, cwd=git_path)
 
 
diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 93dac91..20f9d65 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -88,6 +88,12 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             if rest.startswith("/"):
                 rest = rest[1:]
             filename = os.path.join("noworkflow_root", drive, rest)
+        # Git trees do not accept undecodable names nor git directories
+        filename = filename.encode("utf-8", "backslashreplace").decode("utf-8")
+        filename = os.sep.join(
+            "noworkflow_" + part if part.lower().startswith((".git", "git~")) else part
+            for part in filename.split(os.sep)
+        )
         result = self._increment(filename)
         if len(result) > self._max_filename_size:
             filename = os.path.join("noworkflow_long", os.path.basename(filename))
-- 
2.43.0


From 4e78c37f14663aed9322a2dae84af1c9cd82a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 32/77] fix: find contents after collecting garbage with the
 dulwich engine

---
 .../noworkflow/now/persistence/content/dulwich_engine.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index a609145..57426c4 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -93,6 +93,12 @@ class DulwichEngine(GitContentDatabaseEngine):
         os.makedirs(path)
         Repo.init_bare(path)
 
+    def gc(self, aggressive=False):
+        """Collect garbage from database"""
+        super(DulwichEngine, self).gc(aggressive)
+        # The opened packs may not exist anymore
+        self.repo = Repo(self.content_path)
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         with self.use_safe_open():
-- 
2.43.0


From c9e8dc4c092a7cfb76282e4f67b87ab0ee6bdbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 33/77] fix: create the plain content directory while others
 create it

---
 capture/noworkflow/now/persistence/content/plain_engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index e860c2f..8ba0221 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -17,7 +17,12 @@ class PlainEngine(ContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            os.makedirs(self.content_path)
+            try:
+                os.makedirs(self.content_path)
+            except OSError:
+                # Possibly created at the same time by others
+                if not isdir(self.content_path):
+                    raise
 
     def set_path(self, config):
         """Set content path"""
-- 
2.43.0


From bbadde486622170b2414d30e4205d7dc6c0b7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:40 +0000
Subject: [PATCH 34/77] fix: find the items of dict displays that have text
 keys

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ff5313f..04cc2e9 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -283,6 +283,9 @@ class Collector(object):
                 and hasattr(vcontainer, "__len__")
                 and not isinstance(vcontainer, Mapping)):
             vindex = len(vcontainer) + vindex
+        if isinstance(vindex, str):
+            # The items of dict displays have the same address
+            return "[{!r}]".format(vindex)
         return "[{}]".format(vindex)
 
     def __getitem__(self, index):
-- 
2.43.0


From be5a8ae480c7db1d258d0662547fa520807739b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:40 +0000
Subject: [PATCH 35/77] fix: do not let calls depend on pass, break and
 continue statements

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 04cc2e9..14e6dc9 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -552,7 +552,8 @@ class Collector(object):
     def collect_break_continue_pass(self, activation, pass_id, exc_handler, mode="dependency"):
         """Capture 'break', 'continue' or 'pass' statements"""
         if activation.active:
-            self.eval_dep(activation, pass_id, None, mode)
+            # No value depends on the statement
+            self.evaluate_depa(activation, pass_id, None, None)
 
     def operation(self, activation, code_id, exc_handler):
         """Capture operation before"""
-- 
2.43.0


From 86be537ea179f62a98f65abc7a92447fb1458856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 36/77] fix: transform if statements without raising exceptions
 inside the script

---
 .../prov_definition/transformer_stmt.py       | 99 +++++++------------
 .../collection/prov_execution/collector.py    | 18 +++-
 .../now/persistence/lightweight/activation.py |  4 +-
 3 files changed, 53 insertions(+), 68 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9688db8..3c191bc 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -884,7 +884,7 @@ class RewriteAST(ast.NodeTransformer):
                 <now>.collect_exception(<act>, <exc>)
                 raise
             finally:
-                <now>.remove_condition(<act>)
+                <now>.finish_if(<act>)
         """
         # pylint: disable=invalid-name
         while_id = self.create_ast_component(node, Component.WHILE)
@@ -926,7 +926,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]), new_node)
             ], [], [
                 ast_copy(ast.Expr(noworkflow(
-                    'remove_condition', [activation()]
+                    'finish_if', [activation()]
                 )), new_node)
             ], new_node), new_node)
 
@@ -939,82 +939,55 @@ class RewriteAST(ast.NodeTransformer):
                 ...2
             else:
                 ...3
-        Into: # Replaces If to avoid creating unnecessary nested blocks
+        Into:
             try:
-                raise (
-                    <now>.condition_exceptions[0]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[1]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[2]()
-                )
-            except <now>.condition_exceptions[0]:
-                ...1
-            except <now>.condition_exceptions[1]:
-                ...2
-            except <now>.condition_exceptions[2]:
-                ...3
+                <now>.start_if(<act>)
+                if <now>.condition(<act>, <exc>)(<act>, |x|):
+                    ...1
+                elif <now>.condition(<act>, <exc>)(<act>, |y|):
+                    ...2
+                else:
+                    ...3
             finally:
-                <now>.remove_condition(__now_activation__)
+                <now>.finish_if(<act>)
         """
         # pylint: disable=invalid-name
-        handlers = []
-        def access_if(ifnod, exc_id):
-            """Create ifexp considering elif"""
+        def access_if(ifnod):
+            """Create if considering elif"""
             if_id = self.create_ast_component(ifnod, Component.IF)
             self.create_composition(if_id, *self.composition_edge)
-            subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id)), L()
-            )
-            else_subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id + 1)), L()
-            )
-            handlers.append(ast_copy(ast.ExceptHandler(
-                subscript, None,
-                self.process_body(ifnod.body, if_id)
-            ), ifnod))
-            if_result = call(subscript, [])
-
-            else_block = None
-            if not ifnod.orelse:
-                else_block = [ast.Pass()]
-            elif len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
+            new_node = copy(ifnod)
+            new_node.body = self.process_body(ifnod.body, if_id)
+
+            if len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
                 self.composition_edge = (if_id, Component.M_ORELSE, 0)
-                else_result = access_if(ifnod.orelse[0], exc_id + 1)
-            else:
-                else_block = self.process_body(
+                new_node.orelse = [access_if(ifnod.orelse[0])]
+            elif ifnod.orelse:
+                new_node.orelse = self.process_body(
                     ifnod.orelse, if_id, attr=Component.M_ORELSE
                 )
 
-            if else_block is not None:
-                handlers.append(ast_copy(ast.ExceptHandler(
-                    else_subscript, None, else_block
-                ), ifnod))
-                else_result = call(else_subscript, [])
-
             self.composition_edge = (if_id, Component.S_TEST)
-            return ast_copy(ast.IfExp(
-                double_noworkflow(
-                    'condition',
-                    [
-                        activation(),
-                        ast.Num(self.current_exc_handler)
-                    ], [
-                        activation(),
-                        self.capture(ifnod.test, mode=Dependency.CONDITION)
-                    ]
-                ),
-                if_result,
-                else_result
+            new_node.test = ast_copy(double_noworkflow(
+                'condition',
+                [
+                    activation(),
+                    ast.Num(self.current_exc_handler)
+                ], [
+                    activation(),
+                    self.capture(ifnod.test, mode=Dependency.CONDITION)
+                ]
             ), ifnod)
+            return new_node
 
         return ast_copy(try_def([
-            ast_copy(raise_(access_if(node, 0)), node)
-        ], handlers, [], [
             ast_copy(ast.Expr(noworkflow(
-                'remove_condition', [activation()]
+                'start_if', [activation()]
+            )), node),
+            access_if(node)
+        ], [], [], [
+            ast_copy(ast.Expr(noworkflow(
+                'finish_if', [activation()]
             )), node)
         ], node), node)
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 14e6dc9..427164b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -31,7 +31,7 @@ from ...utils.cross_version import cross_print, PY38
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import ConditionExceptions, WithContext
+from .structures import WithContext
 
 NOW_UNSET = "<now_unset>"
 
@@ -115,7 +115,6 @@ class Collector(object):
         self.Ellipsis = Ellipsis  # pylint: disable=invalid-name
         self.old_next = next
 
-        self.condition_exceptions = ConditionExceptions()
 
         # attribute<->self dependency
         self.current_attr = None
@@ -1841,9 +1840,19 @@ class Collector(object):
         # pylint: disable=no-self-use
         return value
 
+    def start_if(self, activation):
+        """Start statement that adds conditions"""
+        # pylint: disable=no-self-use
+        activation.condition_levels.append(len(activation.conditions))
+
+    def finish_if(self, activation):
+        """Remove all the conditions that the statement added"""
+        # pylint: disable=no-self-use
+        del activation.conditions[activation.condition_levels.pop():]
+
     def prepare_while(self, activation, exc_handler):
         """Prepare while, by adding empty condition"""
-        # pylint: disable=no-self-use
+        self.start_if(activation)
         activation.conditions.append(DependencyAware(
             exc_handler=exc_handler
         ))
@@ -1852,6 +1861,7 @@ class Collector(object):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
         value = "<<<noWorkflow>>>"
+        self.start_if(activation)
         try:
             activation.dependencies.append(DependencyAware(
                 exc_handler=exc_handler,
@@ -1866,7 +1876,7 @@ class Collector(object):
             depa = activation.dependencies.pop()
             if activation.active and value != "<<<noWorkflow>>>":
                 self.eval_dep(activation, code_id, value, mode, depa)
-            self.remove_condition(activation)
+            self.finish_if(activation)
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 8fe6c61..197161f 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -46,7 +46,7 @@ class ActivationLW(BaseLW):
     __slots__, attributes = define_attrs(
         ["trial_id", "id", "name", "start_checkpoint", "code_block_trial_id",
          "code_block_id"],
-        ["file_accesses", "context", "conditions", "permanent_conditions",
+        ["file_accesses", "context", "conditions", "condition_levels", "permanent_conditions",
          "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
          "bound_dependency", "func_evaluation", "iscell"]
@@ -86,6 +86,8 @@ class ActivationLW(BaseLW):
 
         # Track conditional dependencies
         self.conditions = []
+        # Number of conditions outside each statement that adds conditions
+        self.condition_levels = []
         self.permanent_conditions = []
 
         # Active collection
-- 
2.43.0


From 1de277108af0073d75e60875b817be1c5a7a78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:15 +0000
Subject: [PATCH 37/77] fix: evaluate the default values, decorators and
 annotations of functions once

---
 .../prov_definition/transformer_expr.py       |  3 ++
 .../prov_definition/transformer_stmt.py       | 32 +++++++++++++++++--
 .../collection/prov_execution/collector.py    |  9 ++++++
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 0a6cc99..57cd3b4 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -271,6 +271,9 @@ class RewriteDependencies(ast.NodeTransformer):
             param('__now_default_dependencies__'),
         ] + new_node.args.args
         new_node.args.defaults = [none() for _ in new_node.args.defaults]
+        new_node.args.kw_defaults = [
+            arg and none() for arg in getattr(new_node.args, 'kw_defaults', [])
+        ]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 3c191bc..0519190 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -225,6 +225,30 @@ class RewriteAST(ast.NodeTransformer):
             ] + post_body
             return ast.fix_missing_locations(ast_copy(cls(body), new_node))
 
+    def original_def(self, stmt):
+        """Create uncaptured function that evaluates nothing when it is defined
+
+        The decorators, default values and annotations belong to the captured
+        function
+        """
+        # pylint: disable=no-self-use
+        old_fd = deepcopy(stmt)
+        old_fd.name = "__now_original_" + stmt.name
+        old_fd.decorator_list = []
+        old_fd.returns = None
+        old_args = old_fd.args
+        old_args.defaults = [
+            ast_copy(none(), default) for default in old_args.defaults
+        ]
+        old_args.kw_defaults = [
+            default and ast_copy(none(), default)
+            for default in getattr(old_args, 'kw_defaults', [])
+        ]
+        for arg in ast.walk(old_args):
+            if hasattr(arg, 'annotation'):
+                arg.annotation = None
+        return old_fd
+
     def process_body(self, body, container_id, index=0, attr=Component.M_BODY):
         """Process statement list"""
         new_body = []
@@ -237,9 +261,7 @@ class RewriteAST(ast.NodeTransformer):
             elif PY36 and isinstance(stmt, ast.AnnAssign):
                 self.visit_annassign(new_body, stmt)
             elif isinstance(stmt, ast.FunctionDef) or (PY36 and isinstance(stmt, ast.AsyncFunctionDef)):
-                old_fd = deepcopy(stmt)
-                old_fd.name = "__now_original_" + stmt.name
-                new_body.append(old_fd) 
+                new_body.append(self.original_def(stmt))
                 new_body.append(self.visit(stmt))
             elif isinstance(stmt, ast.Break):
                 self.visit_break(new_body, stmt)
@@ -460,6 +482,10 @@ class RewriteAST(ast.NodeTransformer):
             new_node.args.defaults = [
                 ast_copy(none(), arg) for arg in new_node.args.defaults
             ]
+            new_node.args.kw_defaults = [
+                arg and ast_copy(none(), arg)
+                for arg in getattr(new_node.args, 'kw_defaults', [])
+            ]
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
                 returns=maybe(new_node, 'returns'), cls=cls
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 427164b..742e0d6 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1432,6 +1432,15 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
+            if default_values[1]:
+                code = function_def.__code__
+                names = code.co_varnames[code.co_argcount:][:code.co_kwonlyargcount]
+                kwdefaults = function_def.__kwdefaults__ or {}
+                kwdefaults.update(
+                    (name, value)
+                    for name, value in zip(names, default_values[1])
+                    if name in kwdefaults
+                )
             closure_activation.dependencies.append(DependencyAware(
                 exc_handler=defaults.exc_handler,
                 code_id=block_id,
-- 
2.43.0


From e8f6c4a43fd9a09da4f4a7d37546a94987bab6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 38/77] fix: keep the dependencies of calls that handle
 exceptions

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 742e0d6..28804ee 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1236,6 +1236,9 @@ class Collector(object):
             )
         else:
             activation = self.dry_activation(future.activation)
+        for depa in future.dependencies:
+            # Exceptions that are handled inside the call do not delete it
+            depa.exc_handler = float('inf')
         activation.dependencies.extend(future.dependencies)
         activation.bound_dependency = future.bound_dependency
         activation.func_evaluation = future.func_evaluation
-- 
2.43.0


From 44d500ce5406ca4b48185ce75aaf48f521dfee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 39/77] fix: do not lose exceptions raised inside nested
 conditional expressions

---
 .../noworkflow/now/collection/prov_execution/collector.py  | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 28804ee..6e895b7 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1872,7 +1872,6 @@ class Collector(object):
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = "<<<noWorkflow>>>"
         self.start_if(activation)
         try:
             activation.dependencies.append(DependencyAware(
@@ -1880,14 +1879,14 @@ class Collector(object):
                 code_id=code_id
             ))
             value = if_lambda()
+            depa = activation.dependencies.pop()
+            if activation.active:
+                self.eval_dep(activation, code_id, value, mode, depa)
             return value
         except:
             self.collect_exception(activation, exc_handler)
             raise
         finally:
-            depa = activation.dependencies.pop()
-            if activation.active and value != "<<<noWorkflow>>>":
-                self.eval_dep(activation, code_id, value, mode, depa)
             self.finish_if(activation)
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
-- 
2.43.0


From 505b120c4f3024740697bcbd946eb8451323a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 40/77] fix: capture displays with starred values, mappings and
 named expressions

---
 .../collection/prov_definition/transformer_expr.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 57cd3b4..cf3931d 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -78,6 +78,8 @@ class RewriteDependencies(ast.NodeTransformer):
 
     def _itemize(self, item, ctx, set_key):
         """Create List/Tuple/Set Item"""
+        if not hasattr(item, 'name'):
+            item.name = pyposast.extract_code(self.rewriter.lcode, item)
         citem = ast_copy(self.rewriter.capture(item, mode=Dependency.ITEM), item)
         if ctx.startswith('r'):
             citem_component_id = self.rewriter._ast_num_from_component_id(
@@ -366,6 +368,13 @@ class RewriteDependencies(ast.NodeTransformer):
         new_keys, new_values = [], []
         for index, (key, value) in enumerate(zip(node.keys, node.values)):
             self.composition_edge = (dict_code_component, Component.S_KEY_VALUE, index)
+            if key is None:
+                # {**mapping}
+                new_keys.append(None)
+                new_values.append(self.rewriter.capture(
+                    value, mode=Dependency.DEPENDENCY
+                ))
+                continue
             new_key, new_value = self._dict_itemize(key, value)
             new_keys.append(new_key)
             new_values.append(new_value)
@@ -1169,6 +1178,9 @@ class RewriteDependencies(ast.NodeTransformer):
 
         new_node = copy(node)
         new_node.value = self.visit(node.value)
+        if context(node).startswith('r'):
+            # The value of a display (e.g., [*f()]) is not a target
+            return new_node
         new_node.target_expr = ast.Tuple([
             new_node.value.target_expr,
             ast.Str('starred')
-- 
2.43.0


From 6343d55dee9467de256e347866630dbfcdb7f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 41/77] fix: do not leave dependencies of lambdas behind

---
 .../now/collection/prov_execution/collector.py         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 6e895b7..9ccebac 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1444,10 +1444,12 @@ class Collector(object):
                     for name, value in zip(names, default_values[1])
                     if name in kwdefaults
                 )
-            closure_activation.dependencies.append(DependencyAware(
-                exc_handler=defaults.exc_handler,
-                code_id=block_id,
-            ))
+            if mode == "decorate":
+                # collect_function_def consumes it. Lambdas do not have it
+                closure_activation.dependencies.append(DependencyAware(
+                    exc_handler=defaults.exc_handler,
+                    code_id=block_id,
+                ))
             if closure_activation.active:
                 self.eval_dep(
                     closure_activation, block_id, new_function_def, mode
-- 
2.43.0


From 2fdf30f4784899e5ffd17d2450a74320398ab4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 42/77] fix: recognize calls of functions renamed by decorators

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 9ccebac..386d4d4 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1348,7 +1348,8 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
-                if activation.active and activation.name != function_def.__name__: # White box after black box call
+                if activation.active and activation.name not in (
+                        function_def.__name__, new_function_def.__name__): # White box after black box call
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
-- 
2.43.0


From 75b8333bedfae756ce3b91017acc615e48c7ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 43/77] fix: forget calls whose arguments raised exceptions

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 386d4d4..d6acdb5 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1227,6 +1227,7 @@ class Collector(object):
     def _call(self, *args, **kwargs):
         """Capture call activation"""        
         future = self.future_activation.pop()
+        pending_calls = len(self.future_activation)
         parent_activation = future.activation
         parent_depa = parent_activation.dependencies.pop()
         if future.activation.active:
@@ -1253,6 +1254,8 @@ class Collector(object):
             self.collect_exception(activation)
             raise
         finally:
+            # Forget calls whose arguments raised exceptions inside this one
+            del self.future_activation[pending_calls:]
             # Find value in activation result
             reference = None
             for depa in activation.dependencies:
-- 
2.43.0


From 83b2c69787d3ef56cdc0d2582ed927ac44e9ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:57 +0000
Subject: [PATCH 44/77] fix: accept iterators as starred arguments

---
 .../now/collection/prov_execution/collector.py           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d6acdb5..494ba3a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1659,8 +1659,13 @@ class Collector(object):
                 param.filled = True
                 last_unfilled += 1
             elif arg.arg == "*":
-                new_args.extend(arg.value)
-                for param in parameter_order[last_unfilled:][:len(arg.value)]:
+                if isinstance(arg.value, (list, tuple, str, dict)):
+                    values = list(arg.value)
+                else:
+                    # The call consumed the iterator
+                    values = original_args[len(new_args):]
+                new_args.extend(values)
+                for param in parameter_order[last_unfilled:][:len(values)]:
                     match(arg, param)
                     if param.is_vararg:
                         break
-- 
2.43.0


From 06ded8c3b499beb6647813259bbd9bb563830929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:37 +0000
Subject: [PATCH 45/77] fix: create classes once, with their own bases and
 metaclass

---
 .../prov_definition/transformer_stmt.py       | 11 ++++-----
 .../collection/prov_execution/collector.py    | 24 +++++--------------
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 0519190..7976558 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -506,8 +506,8 @@ class RewriteAST(ast.NodeTransformer):
         Into:
         @<now>.collect_class_def(<act>, 'c')
         @<now>.decorator(__now_activation__)(|dec|)
-        @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
-        class c(object):
+        @<now>.class_def(<act>, <block_id>, <exc>)(<mode>)
+        class c(|object|, metaclass=|meta|):
             __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
             ...
         """
@@ -546,16 +546,15 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Num(old_exc_handler)
                 ], [
                     ast.Str(Dependency.DECORATE),
-                    ast.Tuple(bases, L()),
                 ]
             ), new_node)
 
+            keywords = None
             if hasattr(new_node, 'keywords'): # Python 3
                 keywords = []
                 for index, keyword in enumerate(new_node.keywords):
                     self.composition_edge = (class_id, Component.M_KEYWORDS, index)
                     keywords.append(rewriter.process_call_keyword(keyword))
-                class_def_fn.keywords = keywords
 
             decorators.append(class_def_fn)
             old_body = node.body
@@ -579,8 +578,8 @@ class RewriteAST(ast.NodeTransformer):
             ] + self.process_body(old_body, class_id)
 
             result = ast_copy(class_def(
-                node.name, node.bases, body, decorators,
-                keywords=maybe(node, 'keywords')
+                node.name, bases, body, decorators,
+                keywords=keywords
             ), node)
             return result
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 494ba3a..6968468 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1497,24 +1497,12 @@ class Collector(object):
         ))
         return self._class_def
 
-    def _class_def(self, mode, bases=(object,), metaclass=type, **kwargs):
-        """Decorate class definition with then new activation.
-        Collect arguments and match to parameters.
-        """
-        def dec(cls):
-            """Decorate class definition. Based on six.add_metaclass"""
-            orig_vars = cls.__dict__.copy()
-            slots = orig_vars.get('__slots__')
-            if slots is not None:
-                if isinstance(slots, str):
-                    slots = [slots]
-                for slots_var in slots:
-                    orig_vars.pop(slots_var)
-            orig_vars.pop('__dict__', None)
-            orig_vars.pop('__weakref__', None)
-            class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
-
-            activation = orig_vars['__now_activation__']
+    def _class_def(self, mode):
+        """Decorate class definition with then new activation."""
+        def dec(class_def):
+            """Decorate class definition"""
+            # The activation that start_class created
+            activation = self.last_activation
             evaluation = activation.evaluation
             closure_activation = activation.closure
             block_id = activation.code_block_id
-- 
2.43.0


From eab735dcf7322aab5d1060d68bf675d104bbb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:20 +0000
Subject: [PATCH 46/77] fix: keep docstrings of captured functions and scripts

---
 .../collection/prov_definition/transformer_stmt.py   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 7976558..960be2a 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -170,6 +170,7 @@ class RewriteAST(ast.NodeTransformer):
                 index += 1
 
             new_node.body = new_node.body[index:]
+            docstring = [] if future_imports else self.docstring(node)
 
             old_body = self.process_body(
                 new_node.body, self.container_id, index
@@ -192,7 +193,7 @@ class RewriteAST(ast.NodeTransformer):
             iscell = none()
             if self.cell is not None:
                 iscell = name = ast.Str(self.cell)
-            body = future_imports + [
+            body = docstring + future_imports + [
                 ast_copy(ast.Assign(
                     [ast.Name('__now_result__', S())],
                     none()
@@ -225,6 +226,13 @@ class RewriteAST(ast.NodeTransformer):
             ] + post_body
             return ast.fix_missing_locations(ast_copy(cls(body), new_node))
 
+    def docstring(self, node):
+        """Return list with the statement that defines the docstring of node"""
+        # pylint: disable=no-self-use
+        if ast.get_docstring(node, clean=False) is None:
+            return []
+        return [deepcopy(node.body[0])]
+
     def original_def(self, stmt):
         """Create uncaptured function that evaluates nothing when it is defined
 
@@ -459,7 +467,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
-            body = [
+            body = self.docstring(node) + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
                     ast.Name('__now_function_def__', L()),
-- 
2.43.0


From 548d068fa5bdce32590db47e1450c269742129a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:58 +0000
Subject: [PATCH 47/77] fix: capture functions with positional-only parameters

---
 .../prov_definition/transformer_expr.py       |  9 +------
 .../prov_definition/transformer_stmt.py       | 25 ++++++++++++-------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index cf3931d..22ece18 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -264,14 +264,7 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
-        new_node.args.args = [
-            param('__now_activation__'),
-            param('__now_function_def__'),
-            param('__now_args__'),
-            param('__now_kwargs__'),
-            param('__now_default_values__'),
-            param('__now_default_dependencies__'),
-        ] + new_node.args.args
+        rewriter.add_now_parameters(new_node.args)
         new_node.args.defaults = [none() for _ in new_node.args.defaults]
         new_node.args.kw_defaults = [
             arg and none() for arg in getattr(new_node.args, 'kw_defaults', [])
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 960be2a..e8ebb1b 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -370,7 +370,8 @@ class RewriteAST(ast.NodeTransformer):
         self.create_composition(arguments_id, *self.composition_edge)
 
         arg_list = []
-        for index, arg in enumerate(arguments.args):
+        positional = getattr(arguments, 'posonlyargs', []) + arguments.args
+        for index, arg in enumerate(positional):
             self.composition_edge = (arguments_id, Component.M_ARGS, index)
             arg_list.append(self.process_arg(arg, arguments))
         args = ast.List(arg_list, L())
@@ -407,6 +408,19 @@ class RewriteAST(ast.NodeTransformer):
             defaults, kw_defaults
         ], L())
 
+    def add_now_parameters(self, arguments):
+        """Add parameters that captured functions receive before the others"""
+        # pylint: disable=no-self-use
+        field = 'posonlyargs' if maybe(arguments, 'posonlyargs') else 'args'
+        setattr(arguments, field, [
+            param('__now_activation__'),
+            param('__now_function_def__'),
+            param('__now_args__'),
+            param('__now_kwargs__'),
+            param('__now_default_values__'),
+            param('__now_default_dependencies__'),
+        ] + getattr(arguments, field))
+
     def visit_FunctionDef(self, node, cls=ast.FunctionDef, typ=Component.FUNCTION_DEF):
         """Visit Function Definition
         Transform:
@@ -479,14 +493,7 @@ class RewriteAST(ast.NodeTransformer):
                 ])), new_node)
             ] + self.process_body(new_node.body, func_id)
 
-            new_node.args.args = [
-                param('__now_activation__'),
-                param('__now_function_def__'),
-                param('__now_args__'),
-                param('__now_kwargs__'),
-                param('__now_default_values__'),
-                param('__now_default_dependencies__'),
-            ] + new_node.args.args
+            self.add_now_parameters(new_node.args)
             new_node.args.defaults = [
                 ast_copy(none(), arg) for arg in new_node.args.defaults
             ]
-- 
2.43.0


From 7520f38dec4210abfb8e92387993547b5351d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 48/77] fix: allow methods to use super without arguments

---
 .../prov_definition/transformer_expr.py           |  9 +++++++++
 .../prov_definition/transformer_stmt.py           | 15 +++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 22ece18..e9bb851 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -899,6 +899,15 @@ class RewriteDependencies(ast.NodeTransformer):
             self.composition_edge = (id_, Component.S_KWARGS)
             kwarg = self.process_kwargs(node.kwargs)
 
+        if (isinstance(old_func, ast.Name) and old_func.id == 'super'
+                and not args and not keywords
+                and rewriter.class_name and rewriter.first_param):
+            # The collector calls super. It is not a method of the class
+            args = [
+                ast_copy(ast.Name('__class__', L()), node),
+                ast_copy(ast.Name(rewriter.first_param, L()), node),
+            ]
+
         return ast_copy(call(func, args, keywords, star, kwarg), node)
 
     def visit_Repr(self, node):
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index e8ebb1b..5754b39 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -53,6 +53,10 @@ class RewriteAST(ast.NodeTransformer):
         self.current_exc_handler = 0
         self.cell = cell
         self.composition_edge = None
+        # Name of the innermost class, and first parameter of the innermost
+        # method or function defined in it
+        self.class_name = None
+        self.first_param = None
 
     # data
 
@@ -491,7 +495,11 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Name('__now_default_dependencies__', L()),
                     parameters,
                 ])), new_node)
-            ] + self.process_body(new_node.body, func_id)
+            ]
+            positional = maybe(node.args, 'posonlyargs') or node.args.args
+            first_param = positional[0].arg if PY3 and positional else None
+            with temporary(self, 'first_param', first_param):
+                body += self.process_body(new_node.body, func_id)
 
             self.add_now_parameters(new_node.args)
             new_node.args.defaults = [
@@ -590,7 +598,10 @@ class RewriteAST(ast.NodeTransformer):
                         ast.Num(class_id)
                     ])
                 ), new_node),
-            ] + self.process_body(old_body, class_id)
+            ]
+            with temporary(self, 'class_name', node.name), \
+                    temporary(self, 'first_param', None):
+                body += self.process_body(old_body, class_id)
 
             result = ast_copy(class_def(
                 node.name, bases, body, decorators,
-- 
2.43.0


From 15596365cb7cd193986a00b54227b40a721c0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 49/77] fix: access private names of classes as their methods
 do

---
 .../now/collection/prov_definition/transformer_expr.py     | 2 +-
 .../now/collection/prov_definition/transformer_stmt.py     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index e9bb851..03ae6b2 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1086,7 +1086,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     activation(),
                     ast.Num(attribute_component),
                     self.rewriter.capture(node.value, mode=Dependency.VALUE),
-                    ast.Str(node.attr),
+                    ast.Str(self.rewriter.mangle(node.attr)),
                     ast.Str('.'),
                     ast.Str(mode),
                 ], L()),
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 5754b39..62f23d8 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -230,6 +230,13 @@ class RewriteAST(ast.NodeTransformer):
             ] + post_body
             return ast.fix_missing_locations(ast_copy(cls(body), new_node))
 
+    def mangle(self, attr):
+        """Return attr as the class that accesses it knows it"""
+        name = (self.class_name or '').lstrip('_')
+        if not name or not attr.startswith('__') or attr.endswith('__'):
+            return attr
+        return '_{}{}'.format(name, attr)
+
     def docstring(self, node):
         """Return list with the statement that defines the docstring of node"""
         # pylint: disable=no-self-use
-- 
2.43.0


From 42acb105db954bf3021e1961ee2fb8f2becfc3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 50/77] fix: create nested classes under the class that defines
 them

---
 .../now/collection/prov_definition/transformer_stmt.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 62f23d8..d542c58 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -538,7 +538,8 @@ class RewriteAST(ast.NodeTransformer):
         @<now>.decorator(__now_activation__)(|dec|)
         @<now>.class_def(<act>, <block_id>, <exc>)(<mode>)
         class c(|object|, metaclass=|meta|):
-            __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
+            __now_activation__ = <now>.start_class(
+                <now>.last_activation, 'c', <block_id>)
             ...
         """
         # pylint: disable=invalid-name
@@ -600,7 +601,7 @@ class RewriteAST(ast.NodeTransformer):
                 ast_copy(ast.Assign(
                     [ast.Name('__now_activation__', S())],
                     noworkflow('start_class', [
-                        activation(), 
+                        now_attribute('last_activation'),
                         ast.Str(new_node.name), 
                         ast.Num(class_id)
                     ])
-- 
2.43.0


From fbca58430070cd29cde8d6e0e215e47e501aca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:26 +0000
Subject: [PATCH 51/77] fix: access variables of class bodies as the class does

---
 .../prov_definition/transformer_expr.py       | 64 +++++++++++++++++--
 .../prov_definition/transformer_stmt.py       |  8 ++-
 .../collection/prov_execution/collector.py    | 17 +++++
 3 files changed, 83 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 03ae6b2..b9004d2 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -9,10 +9,11 @@ Collect definition provenance during the transformations"""
 import ast
 import sys
 from copy import copy
+from functools import partial
 
 import pyposast
 
-from .ast_helpers import ast_copy
+from .ast_helpers import ast_copy, temporary
 
 from .ast_elements import L, S, context, none, call, param, true
 from .ast_elements import noworkflow, double_noworkflow
@@ -271,6 +272,8 @@ class RewriteDependencies(ast.NodeTransformer):
         ]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
+        with temporary(rewriter, 'class_scope', False):
+            body = rewriter.capture(node.body, mode=Dependency.USE)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
             activation(),
             ast.Name('__now_function_def__', L()),
@@ -287,7 +290,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     ast.Num(rewriter.current_exc_handler)
                 ], [
                     activation(),
-                    rewriter.capture(node.body, mode=Dependency.USE)
+                    body
                 ]
             )
         ]), new_node.body)
@@ -328,8 +331,23 @@ class RewriteDependencies(ast.NodeTransformer):
             self.composition_edge = (id_, Component.S_ORELSE)
             new_node.orelse = self.rewriter.capture(new_node.orelse, mode=Dependency.USE)
 
-            lambda_node = nlambda(body=new_node)
+            if self.rewriter.class_scope:
+                # Functions cannot access variables of class bodies
+                return ast_copy(double_noworkflow(
+                    'class_ifexp',
+                    [
+                        activation(),
+                        ast.Num(id_),
+                        ast.Num(self.rewriter.current_exc_handler),
+                    ], [
+                        activation(),
+                        ast.Num(id_),
+                        new_node,
+                        ast.Str(self.mode)
+                    ]
+                ), node)
 
+            lambda_node = nlambda(body=new_node)
 
             return ast_copy(noworkflow(
                 'ifexp',
@@ -420,6 +438,11 @@ class RewriteDependencies(ast.NodeTransformer):
         new_node.target = self.rewriter.capture(new_node.target)
 
         self.composition_edge = (id_, Component.S_ITER)
+        class_scope = getattr(node, 'class_scope', False)
+        with temporary(self.rewriter, 'class_scope', class_scope):
+            iterable = self.rewriter.capture(
+                new_node.iter, mode=Dependency.DEPENDENCY
+            )
         new_node.iter = ast_copy(double_noworkflow(
             'loop',
             [
@@ -428,9 +451,14 @@ class RewriteDependencies(ast.NodeTransformer):
                 ast.Num(self.rewriter.current_exc_handler)
             ], [
                 activation(),
-                self.rewriter.capture(new_node.iter, mode=Dependency.DEPENDENCY)
+                iterable
             ]
         ), new_node.iter)
+        if class_scope:
+            node.now_iter = new_node.iter
+            new_node.iter = ast_copy(
+                ast.Name('__now_iter__', L()), new_node.iter
+            )
 
         ifs = []
         ifs.append(ast_copy(noworkflow('assign', [
@@ -465,6 +493,26 @@ class RewriteDependencies(ast.NodeTransformer):
         new_node.ifs = ifs
         return new_node
 
+    def class_comprehension(self, visit, node):
+        """Visit comprehension in class body
+        It can only access variables of the class in its first iterable
+        Transform:
+            |[x for x in l]|
+        Into:
+            (lambda __now_activation__, __now_iter__:
+                |[x for x in __now_iter__]|
+            )(<act>, <now>.loop(<act>, #, <exc>)(<act>, |l|))
+        """
+        node.generators[0].class_scope = True
+        with temporary(self.rewriter, 'class_scope', False):
+            lambda_node = nlambda(body=visit(node))
+        lambda_node.args.args = [
+            param('__now_activation__'), param('__now_iter__')
+        ]
+        return ast_copy(call(ast_copy(lambda_node, node), [
+            activation(), node.generators[0].now_iter
+        ]), node)
+
     def visit_ListComp(self, node, comp='list', set_key=None, result=None):
         """Visit ListComp
         Transform:
@@ -487,6 +535,11 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>)(<act>, 2, |w|)
             ], <mode>)
         """
+        if self.rewriter.class_scope:
+            return self.class_comprehension(partial(
+                self.visit_ListComp,
+                comp=comp, set_key=set_key, result=result
+            ), node)
 
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
@@ -570,6 +623,9 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>)(<act>, 1, |y|)
             }, <mode>)
         """
+        if self.rewriter.class_scope:
+            return self.class_comprehension(self.visit_DictComp, node)
+
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
             node, Component.DICTCOMP, 'r'
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index d542c58..25700e1 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -57,6 +57,8 @@ class RewriteAST(ast.NodeTransformer):
         # method or function defined in it
         self.class_name = None
         self.first_param = None
+        # True for expressions that can access variables of a class body
+        self.class_scope = False
 
     # data
 
@@ -505,7 +507,8 @@ class RewriteAST(ast.NodeTransformer):
             ]
             positional = maybe(node.args, 'posonlyargs') or node.args.args
             first_param = positional[0].arg if PY3 and positional else None
-            with temporary(self, 'first_param', first_param):
+            with temporary(self, 'first_param', first_param), \
+                    temporary(self, 'class_scope', False):
                 body += self.process_body(new_node.body, func_id)
 
             self.add_now_parameters(new_node.args)
@@ -608,7 +611,8 @@ class RewriteAST(ast.NodeTransformer):
                 ), new_node),
             ]
             with temporary(self, 'class_name', node.name), \
-                    temporary(self, 'first_param', None):
+                    temporary(self, 'first_param', None), \
+                    temporary(self, 'class_scope', True):
                 body += self.process_body(old_body, class_id)
 
             result = ast_copy(class_def(
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 6968468..103ca76 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1888,6 +1888,23 @@ class Collector(object):
         finally:
             self.finish_if(activation)
 
+    def class_ifexp(self, activation, code_id, exc_handler):
+        """Collect ifexp in class body before"""
+        self.start_if(activation)
+        activation.dependencies.append(DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id
+        ))
+        return self._class_ifexp
+
+    def _class_ifexp(self, activation, code_id, value, mode):
+        """Collect ifexp in class body after"""
+        depa = activation.dependencies.pop()
+        if activation.active:
+            self.eval_dep(activation, code_id, value, mode, depa)
+        self.finish_if(activation)
+        return value
+
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
         return self.call(activation, code_id, exc_handler, repr, mode)
-- 
2.43.0


From 482a5bdefaca61d6282457c528f2aa76ea1803c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 52/77] fix: keep type parameters of functions and classes

---
 .../collection/prov_definition/ast_elements.py   | 16 ++++++++++++----
 .../prov_definition/transformer_stmt.py          |  6 ++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 251cda7..6951cda 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -154,16 +154,23 @@ def param(value, annotation=None):
     return ast.Name(value, P())
 
 
-def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef):     # pylint: disable=too-many-arguments
+def with_type_params(node, type_params):
+    """Add type params to definition, for versions that support them"""
+    if type_params:
+        node.type_params = type_params
+    return node
+
+
+def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef, type_params=None):     # pylint: disable=too-many-arguments
     """Create function definition"""
     constructor = [name, args, body, decs]
     if PY3:
         constructor.append(returns)
 
-    return cls(*constructor)
+    return with_type_params(cls(*constructor), type_params)
 
 
-def class_def(name, bases, body, decorators, keywords=None):
+def class_def(name, bases, body, decorators, keywords=None, type_params=None):
     """Create class definition"""
     constructor = [name, bases]
     if PY3:
@@ -171,7 +178,8 @@ def class_def(name, bases, body, decorators, keywords=None):
     constructor.append(body)
     constructor.append(decorators)
 
-    return ast.ClassDef(*constructor)
+    return with_type_params(ast.ClassDef(*constructor), type_params)
+
 
 def try_def(body, handlers, orelse, finalbody, node=None):
     """Create try block"""
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 25700e1..695f220 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -521,7 +521,8 @@ class RewriteAST(ast.NodeTransformer):
             ]
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
-                returns=maybe(new_node, 'returns'), cls=cls
+                returns=maybe(new_node, 'returns'), cls=cls,
+                type_params=maybe(new_node, 'type_params')
             ), new_node)
 
     def visit_AsyncFunctionDef(self, node):
@@ -617,7 +618,8 @@ class RewriteAST(ast.NodeTransformer):
 
             result = ast_copy(class_def(
                 node.name, bases, body, decorators,
-                keywords=keywords
+                keywords=keywords,
+                type_params=maybe(new_node, 'type_params')
             ), node)
             return result
 
-- 
2.43.0


From a23873f1b328cb9340eda8d844e28602de61f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 53/77] fix: iterate on sets and dictionaries without using
 indexes

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 103ca76..fba5673 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1042,6 +1042,9 @@ class Collector(object):
         new_eva = None
         val = NOW_UNSET
         sub = []
+        if isinstance(value, (dict, set, frozenset)):
+            # The elements of these iterables do not have indexes
+            return clone_depa, None
         if len(dep.sub_dependencies) > index:
             new_dep = dep.sub_dependencies[index]
             val = new_dep.value
-- 
2.43.0


From 782285f51c1a6124c9d22d8615201425785d5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 54/77] fix: create classes whose metaclasses are captured

---
 .../now/collection/prov_execution/collector.py           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index fba5673..e2a0838 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1393,8 +1393,13 @@ class Collector(object):
                         else:
                             future.bound_dependency = True
                     if function_def.__name__ in ("__new__", "__call__"):
-                        future.bound_dependency = Dependency(
-                            activation.func_evaluation, activation.func, "bound"
+                        # Class definitions may call the ones of metaclasses
+                        future.bound_dependency = (
+                            activation.func_evaluation is None or
+                            Dependency(
+                                activation.func_evaluation,
+                                activation.func, "bound"
+                            )
                         )
                     if function_def.__name__ in {
                         '__getattr__', '__getattribute__', '__setattr__',
-- 
2.43.0


From 8bd1d268f72e4c92eeb52751fefeb8f137e8ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 55/77] fix: capture asynchronous generators and comprehensions

---
 .../now/collection/prov_definition/transformer_expr.py   | 9 +++++----
 .../now/collection/prov_execution/collector.py           | 8 +++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index b9004d2..0a39f96 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -424,10 +424,11 @@ class RewriteDependencies(ast.NodeTransformer):
 
     def visit_generator(self, node, code_id=-1, count=0):
         """Visit comprehension"""
-        # ToDo: consider node.is_async
         id_ = self.rewriter.create_ast_component(node, Component.COMPREHENSION)
         self.create_composition(id_, *self.composition_edge)
-
+        if getattr(node, 'is_async', False):
+            # ToDo: collect asynchronous iterations
+            return node
 
         new_node = copy(node)
         new_node.target = copy(node.target)
@@ -557,7 +558,7 @@ class RewriteDependencies(ast.NodeTransformer):
         total = 0
         for index, gen in enumerate(new_node.generators):
             self.composition_edge = (list_code_component, Component.M_GENERATORS, index)
-            if gen.ifs:
+            if gen.ifs and not getattr(gen, 'is_async', False):
                 total += 1
             gens.append(self.visit_generator(
                 gen, code_id=list_code_component, count=total
@@ -636,7 +637,7 @@ class RewriteDependencies(ast.NodeTransformer):
         total = 0
         for index, gen in enumerate(node.generators):
             self.composition_edge = (list_code_component, Component.M_GENERATORS, index)
-            if gen.ifs:
+            if gen.ifs and not getattr(gen, 'is_async', False):
                 total += 1
             gens.append(self.visit_generator(
                 gen, code_id=list_code_component, count=total
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e2a0838..81563fb 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -19,6 +19,7 @@ except ImportError:
 from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
+import types
 from types import GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
@@ -33,6 +34,11 @@ from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
 from .structures import WithContext
 
+
+GENERATOR_TYPES = (GeneratorType,)
+if hasattr(types, 'AsyncGeneratorType'):
+    GENERATOR_TYPES += (types.AsyncGeneratorType,)
+
 NOW_UNSET = "<now_unset>"
 
 OPEN_MODES = {
@@ -1441,7 +1447,7 @@ class Collector(object):
                     self.make_dependencies(activation, evaluation, depa)
                     bound_dependency.mode = old_mode
                     
-                if isinstance(result, GeneratorType):
+                if isinstance(result, GENERATOR_TYPES):
                     activation.generator = Generator()
                     activation.generator.value = result
                 return result
-- 
2.43.0


From e11a8fce5f552f0cff560d66b167d308844cfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:09 +0000
Subject: [PATCH 56/77] fix: define the attributes that scripts have as main
 modules

---
 capture/noworkflow/now/collection/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index 0658949..63b3d08 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -145,6 +145,12 @@ class Metascript(object):
         """Clear namespace dict"""
         if erase:
             self.namespace.clear()
+            self.namespace.update({
+                "__doc__": None,
+                "__package__": None,
+                "__spec__": None,
+                "__annotations__": {},
+            })
         self.namespace.update({
             "__name__": "__main__",
             "__file__": self.path,
-- 
2.43.0


From 79fc2bbd8e6cc89b00df14d9d4c2812c3cb503df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 57/77] fix: go back to the caller of calls beyond the depth
 limit

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 81563fb..889e738 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -436,6 +436,7 @@ class Collector(object):
             exc_handler=float('inf'), # do not delete
         ))
         activation.parent = act
+        activation.last_activation = self.last_activation
         self.last_activation = activation
         return activation
 
-- 
2.43.0


From fc5fc2768203e36b2857e750d55ed6475d6e8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 58/77] fix: keep items of comprehensions beyond the depth
 limit

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 889e738..6c06d84 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1159,7 +1159,7 @@ class Collector(object):
     def assign(self, activation, assign, target_expr, back=1):
         """Create dependencies"""
         if not activation.active:
-            return 0
+            return 1
         ldepa = []
         _, _, depa = assign
         if isinstance(depa, list):
-- 
2.43.0


From 3c9b8bf3ec8073871c6f04d11b927743633a7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 59/77] fix: discard the dependencies of accesses beyond the
 depth limit

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 6c06d84..95fe335 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -313,6 +313,7 @@ class Collector(object):
                 addr = self.item_addr(vcontainer, vindex)
                 value = vcontainer[vindex]
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     collection = value_dep.evaluation
@@ -322,6 +323,7 @@ class Collector(object):
                 addr = ".{}".format(vindex)
                 value = getattr(vcontainer, vindex)
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     self.full_member_lookup(
-- 
2.43.0


From 690d16ad8562329a88ae482fa297f91b7187eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 60/77] fix: separate the calls made beyond the depth limit

---
 .../now/collection/prov_execution/collector.py           | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 95fe335..109cc08 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1363,6 +1363,15 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
+                func = activation.func
+                if not activation.active and getattr(
+                        func, '__func__', func) is not new_function_def:
+                    # Call inside a call that is not captured
+                    self.dry_activation(activation).func = new_function_def
+                    try:
+                        return new_function_def(*args, **kwargs)
+                    finally:
+                        self.last_activation = activation
                 if activation.active and activation.name not in (
                         function_def.__name__, new_function_def.__name__): # White box after black box call
                     is_augassign = function_def.__name__ in {
-- 
2.43.0


From 220cb159d39d841299870df36d151b4552a6767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 61/77] fix: finish runs of scripts that end with any exception

---
 capture/noworkflow/now/collection/prov_execution/execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index f498f33..40c42ed 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -81,7 +81,7 @@ class Execution(object):
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
                         "".format(ex.code))
 
-        except Exception as exc:  # pylint: disable=broad-except
+        except BaseException as exc:  # pylint: disable=broad-except
             # ToDo #77: exceptions should be registered as return from the
             # activation and stored in the database. We are currently ignoring
             # all the activation tree when exceptions are raised.
-- 
2.43.0


From 5ce94fbdd17739ca2bba628f90dd3813533cfb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:59 +0000
Subject: [PATCH 62/77] fix: iterate on generators of elements without truth
 values

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 109cc08..270915a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1815,7 +1815,7 @@ class Collector(object):
                 bind = False
                 if len(depa.dependencies) == 1:
                     gen_dep = depa.dependencies[0]
-                    bind = gen_dep.value == element
+                    bind = gen_dep.value is element
                 clone_depa, found = self.sub_dependency(
                     dep, value, index, clone_depa
                 )
-- 
2.43.0


From ae90f50b47c632a9bd274c7c90dcc7759fa2765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:30 +0000
Subject: [PATCH 63/77] fix: store dependencies of generators assigned to many
 targets

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 270915a..d135a23 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1105,7 +1105,7 @@ class Collector(object):
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
                     self.create_dependencies_id(
-                        activation, dep.evaluation.id, new_depa
+                        activation.id, dep.evaluation.id, new_depa
                     )
                     return new_depa.clone(mode="assign"), idep.evaluation
                     #return self.sub_dependency(dep, value, index, clone_depa)
-- 
2.43.0


From f2f7a29efb8c2234f5fba18ad2152f55ed1e2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:30 +0000
Subject: [PATCH 64/77] fix: end the processes that store content when a run
 fails

---
 capture/noworkflow/now/cmd/cmd_run.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/cmd/cmd_run.py b/capture/noworkflow/now/cmd/cmd_run.py
index ed01e83..2f86d2e 100644
--- a/capture/noworkflow/now/cmd/cmd_run.py
+++ b/capture/noworkflow/now/cmd/cmd_run.py
@@ -71,6 +71,8 @@ def run(metascript, args=None):
         metaprofiler.meta_profiler.save()
         content.commit_content(metascript.message or "Trial {}".format(metascript.trial_id))
     finally:
+        # The processes that store content must end even if the run fails
+        content.close()
         metascript.create_last()
 
 class Run(Command):
-- 
2.43.0


From c0e315c6183c6bcb8647af89622b30150799e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:48 +0000
Subject: [PATCH 65/77] fix: assign any iterable to many targets

---
 .../collection/prov_execution/collector.py    | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d135a23..2728f73 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1101,6 +1101,8 @@ class Collector(object):
                 gens = assign.generators[id(value)]
                 def custom_dependency(index):
                     """Propagate dependencies"""
+                    if index >= len(gens):
+                        return clone_depa, None
                     _, _, _, idep = gens[index]
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
@@ -1122,38 +1124,35 @@ class Collector(object):
     def assign_multiple_apply(self, activation, assign, target_info, custom, back):
         """Create dependencies for assignment to tuple/list"""
         # pylint: disable=too-many-locals
-        assign_value = assign.value
         subcomps = target_info
         # Assign until starred
         starred = None
-        delta = 0
         for index, subcomp in enumerate(subcomps):
             if subcomp[-1] == "starred":
                 starred = index
                 break
             val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
             adepa, _ = custom(index)
-            delta += self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
 
         if starred is None:
-            return delta
+            return 1
 
+        # The assigned value may be any iterable
         star = subcomps[starred][0]
-        rdelta = -1
+        new_value = self.value_from_target_expr(activation, assign, star, back + 1)
+        size = len(subcomps) - 1 + len(new_value)
+
         for index in range(len(subcomps) - 1, starred, -1):
             subcomp = subcomps[index]
             val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
-            new_index = len(assign_value) + rdelta
-            adepa, _ = custom(new_index)
-            rdelta -= self.assign(
-                activation, assign.sub(val, adepa), subcomp, back + 1)
+            adepa, _ = custom(size - len(subcomps) + index)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
 
         # ToDo: treat it as a plain slice
-        new_value = assign_value[delta:rdelta + 1]
-
         depas = [
             custom(index)[0]
-            for index in range(delta, len(assign_value) + rdelta + 1)
+            for index in range(starred, starred + len(new_value))
         ]
 
         return self.assign(activation, assign.sub(new_value, depas), star, back + 1)
-- 
2.43.0


From 4617f8e599ace41011171e71bafa19f26e409524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:12 +0000
Subject: [PATCH 66/77] fix: keep every item that a generator yields to an
 assignment

---
 capture/noworkflow/now/collection/prov_execution/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1e3610e..d833ced 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -56,7 +56,7 @@ class Assign(namedtuple("Assign", "checkpoint value dependency")):
             self.accesses[code_id] = access
 
         for obj_id, generator in other.generators.items():
-            self.generators[obj_id] = generator
+            self.generators[obj_id].extend(generator)
 
 
 class ConditionExceptions(object):
-- 
2.43.0


From fd2bdca2ed4790760b5c6db7a0c2e554b28dafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:26 +0000
Subject: [PATCH 67/77] fix: report calls that do not match the parameters as
 the interpreter does

---
 .../collection/prov_execution/collector.py    | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 2728f73..dbecff0 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1348,6 +1348,23 @@ class Collector(object):
         ))
         return self._function_def
 
+    def without_capture_parameters(self, function_def):
+        """Return function with the parameters of the script only and no body.
+        Use it to raise the error of a call that does not match them
+        """
+        code = function_def.__code__
+        count = code.co_varnames.index('__now_default_dependencies__') + 1
+        function = FunctionType(code.replace(
+            co_argcount=code.co_argcount - count,
+            co_posonlyargcount=max(code.co_posonlyargcount - count, 0),
+            co_nlocals=code.co_nlocals - count,
+            co_varnames=code.co_varnames[count:],
+        ), function_def.__globals__, function_def.__name__,
+            function_def.__defaults__, function_def.__closure__)
+        function.__kwdefaults__ = function_def.__kwdefaults__
+        function.__qualname__ = function_def.__qualname__
+        return function
+
     def _function_def(self, closure_activation, block_id, default_values, mode):
         """Decorate function definition with then new activation.
         Collect arguments and match to parameters.
@@ -1443,9 +1460,18 @@ class Collector(object):
                 #if activation.active:
                 #    self._match_arguments(function_def, activation, arguments, defaults, args)
                 
-                result = function_def(
-                    activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
-                )
+                matched = True
+                try:
+                    result = function_def(
+                        activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
+                    )
+                except TypeError:
+                    # The function did not start if there is no other frame
+                    matched = sys.exc_info()[2].tb_next is not None
+                    if matched:
+                        raise
+                if not matched:
+                    self.without_capture_parameters(function_def)(*args, **kwargs)
                 bound_dependency = activation.bound_dependency
                 if function_def.__name__ == "__init__" and bound_dependency:
                     old_mode = bound_dependency.mode
-- 
2.43.0


From d4c29aeb9ae7fffcc43da11cd35fd1e153e44408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:26 +0000
Subject: [PATCH 68/77] fix: record the values that parameters receive

---
 .../collection/prov_execution/collector.py    | 148 +++++++++++++-----
 1 file changed, 109 insertions(+), 39 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index dbecff0..71fea62 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -20,9 +20,9 @@ from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
 import types
-from types import GeneratorType
+from types import FunctionType, GeneratorType
 
-from future.utils import viewvalues, viewkeys, viewitems, exec_
+from future.utils import viewvalues, viewitems, exec_
 
 from ...persistence import content
 from ...persistence.models import Trial
@@ -1625,7 +1625,10 @@ class Collector(object):
 
         # Create parameters
         parameters = OrderedDict()
-        len_positional = len(args) - len(defaults)
+        kwdefaults = getattr(function_def, "__kwdefaults__", None) or {}
+        code = function_def.__code__
+        kwnames = code.co_varnames[code.co_argcount:] if kwonlyargs else ()
+        len_positional = len(args) - (len(defaults) - len(kwdefaults))
         for pos, arg in enumerate(args):
             param = parameters[arg[0]] = Parameter(*arg)
             if pos >= len_positional:
@@ -1633,8 +1636,12 @@ class Collector(object):
         if vararg:
             parameters[vararg[0]] = Parameter(*vararg, is_vararg=True)
         if kwonlyargs:
-            for arg in kwonlyargs:
-                parameters[arg[0]] = Parameter(*arg)
+            kwdefault = len(defaults) - len(kwdefaults)
+            for arg, name in zip(kwonlyargs, kwnames):
+                param = parameters[arg[0]] = Parameter(*arg)
+                if name in kwdefaults:
+                    param.default = defaults[kwdefault]
+                    kwdefault += 1
         if kwarg:
             parameters[kwarg[0]] = Parameter(*kwarg)
 
@@ -1674,22 +1681,61 @@ class Collector(object):
         if function_def.__name__ in {'__setitem__'} and self.current_assign_dep and len(arguments) == 2:
             arguments.append(self.current_assign_dep)
         
-        def match(arg, param):
-            """Create dependency"""
-            arg.mode = "argument"
-            if arg is bound_dependency and new_bind:
-                evaluation = bound_dependency.evaluation
-            else: 
-                depa = DependencyAware()
-                depa.add(arg)
-                evaluation = self.evaluate_depa(
-                    activation, param.code_id, arg.value, time, depa
-                )
+        matches = OrderedDict()
+
+        def match(arg, param, addr=None, key=None):
+            """Match argument to parameter. A parameter may match many arguments
+            addr: the parameter receives this member of the argument
+            key: the argument is this member of the parameter
+            """
+            matches.setdefault(param.name, []).append((arg, addr, key))
+
+        def create_parameter(param, args):
+            """Create parameter evaluation that depends on its arguments"""
+            for arg, _, _ in args:
+                arg.mode = "argument"
+            if args[0][0] is bound_dependency and new_bind:
+                activation.context[param.name] = bound_dependency.evaluation
+                return
+            depa = DependencyAware()
+            parts = []
+            for arg, addr, key in args:
+                value, part = param.value, None
+                if key is not None:
+                    try:
+                        value = value[key]
+                    except (IndexError, KeyError):
+                        # Indirect call: there are arguments of the original call
+                        value = NOW_UNSET
+                if arg not in depa.dependencies:
+                    depa.add(arg)
+                if addr is not None:
+                    part = arg.evaluation.same().members.get(addr)
+                    if part is not None:
+                        depa.add(Dependency(
+                            part, value, "access", arg.evaluation, addr
+                        ))
+                elif arg.value is value:
+                    part = arg.evaluation
+                if key is not None and part is not None:
+                    parts.append(("[{!r}]".format(key), part))
+            evaluation = self.evaluate_depa(
+                activation, param.code_id, param.value, time, depa
+            )
+            for arg, _, _ in args:
                 arg.mode = "argument"
+            same = evaluation.same()
+            for addr, part in parts:
+                same.members[addr] = part
+                self.members.add_object(
+                    self.trial_id, same.activation_id, same.id,
+                    part.activation_id, part.id, addr, time, "Put"
+                )
             activation.context[param.name] = evaluation
 
         # Match args
-        for arg in arguments:
+        varargs = 0
+        for pos, arg in enumerate(arguments):
             if last_unfilled >= len(parameter_order):
                 # Indirect call: there are arguments of the original call
                 break
@@ -1698,23 +1744,38 @@ class Collector(object):
                 param.filled = True
                 last_unfilled += 1
             elif arg.arg == "*":
-                if isinstance(arg.value, (list, tuple, str, dict)):
+                if type(arg.value) in (list, tuple, str, dict):
                     values = list(arg.value)
                 else:
                     # The call consumed the iterator
-                    values = original_args[len(new_args):]
+                    others = sum(
+                        other is None or other.arg != "*"
+                        for other in arguments[pos + 1:]
+                    )
+                    values = original_args[len(new_args):len(original_args) - others]
                 new_args.extend(values)
-                for param in parameter_order[last_unfilled:][:len(values)]:
-                    match(arg, param)
-                    if param.is_vararg:
+                for index in range(len(values)):
+                    if last_unfilled >= len(parameter_order):
                         break
-                    param.filled = True
-                    last_unfilled += 1
+                    param = parameter_order[last_unfilled]
+                    addr = None
+                    if type(arg.value) in (list, tuple):
+                        addr = "[{}]".format(index)
+                    if param.is_vararg:
+                        match(arg, param, addr, varargs)
+                        varargs += 1
+                    else:
+                        match(arg, param, addr)
+                        param.filled = True
+                        last_unfilled += 1
             else:
                 new_args.append(arg.value)
                 param = parameter_order[last_unfilled]
-                match(arg, param)
-                if not param.is_vararg:
+                if param.is_vararg:
+                    match(arg, param, None, varargs)
+                    varargs += 1
+                else:
+                    match(arg, param)
                     param.filled = True
                     last_unfilled += 1
                 if (((function_def.__name__ == "__enter__") or (function_def.__name__ == "__exit__")) 
@@ -1727,24 +1788,29 @@ class Collector(object):
 
         # Match keywords
         for keyword in keywords:
-            param = None
             if keyword.arg in parameters:
-                key = keyword.arg
-                param = parameters[key]
-            elif kwarg:
-                key = kwarg[0]
-                param = parameters[key]
-            if param is not None:
+                param = parameters[keyword.arg]
                 match(keyword, param)
-                new_kwargs[key] = keyword.value
+                new_kwargs[keyword.arg] = keyword.value
                 param.filled = True
             elif keyword.arg == "**":
-                for key in viewkeys(keyword.value):
+                if type(keyword.value) is dict:
+                    keys = list(keyword.value)
+                else:
+                    # Only the call reads the mapping
+                    explicit = {other.arg for other in keywords}
+                    keys = [key for key in original_kwargs if key not in explicit]
+                for key in keys:
+                    addr = "[{!r}]".format(key)
+                    new_kwargs[key] = keyword.value
                     if key in parameters:
-                        param = parameters[key]
-                        match(keyword, param)
-                        new_kwargs[key] = keyword.value
-                        param.filled = True
+                        match(keyword, parameters[key], addr)
+                        parameters[key].filled = True
+                    elif kwarg:
+                        match(keyword, parameters[kwarg[0]], addr, key)
+            elif kwarg:
+                match(keyword, parameters[kwarg[0]], None, keyword.arg)
+                new_kwargs[keyword.arg] = keyword.value
 
         # Default parameters
         for param in viewvalues(parameters):
@@ -1752,6 +1818,10 @@ class Collector(object):
                 match(param.default, param)
                 new_kwargs[param.name] = param.default.value
 
+        # Create evaluations
+        for name, args in viewitems(matches):
+            create_parameter(parameters[name], args)
+
         # Missing arguments
         for param in viewvalues(parameters):
             if param.name not in activation.context:
-- 
2.43.0


From 2f9fe831ebee712a40fe82b7db6fec77b3ac36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:43 +0000
Subject: [PATCH 69/77] fix: store any object whose storage was interrupted
 with the dulwich engine

---
 .../now/persistence/content/dulwich_engine.py | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 57426c4..81ffe3a 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -16,6 +16,16 @@ from .gitbase import GitContentDatabaseEngine
 from .parallel import create_distributed, create_pool, create_threading, NullLock
 from . import safeopen
 
+def add_object(object_store, obj):
+    """Add object to the object store, even if its storage was interrupted
+    before or occurs at the same time in other process"""
+    try:
+        object_store.add_object(obj)
+    except FileLocked:
+        # A pack does not use the lock of the object
+        object_store.add_objects([(obj, None)])
+
+
 class DulwichEngine(GitContentDatabaseEngine):
 
     def __init__(self, config):
@@ -40,11 +50,7 @@ class DulwichEngine(GitContentDatabaseEngine):
             object_store = Repo(content_path).object_store
             blob = Blob.from_string(content)
             with lock:
-                try:
-                    object_store.add_object(blob)
-                except FileLocked:
-                    # Lock of an interrupted storage. A pack does not use it
-                    object_store.add_objects([(blob, None)])
+                add_object(object_store, blob)
             result = object_hashes[filename] = blob.id.decode("ascii")
             return result
 
@@ -104,7 +110,7 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             object_store = self.repo.object_store
             empty_tree = Tree()
-            object_store.add_object(empty_tree)
+            add_object(object_store, empty_tree)
             self.create_commit_object(self._initial_message, empty_tree.id)
 
     def create_commit_object(self, message, tree):
@@ -127,7 +133,7 @@ class DulwichEngine(GitContentDatabaseEngine):
             commit.encoding = self._commit_encoding.encode()
             commit.message = message.encode()
 
-            self.repo.object_store.add_object(commit)
+            add_object(self.repo.object_store, commit)
             self.repo.refs[
                 self._commit_ref.encode("utf-8")
             ] = commit.id
@@ -149,7 +155,7 @@ class DulwichEngine(GitContentDatabaseEngine):
     def write_tree(self, tree):
         """Write tree to git directory"""
         with self.restore_open(): 
-            self.repo.object_store.add_object(tree)
+            add_object(self.repo.object_store, tree)
             return tree.id
 
 
-- 
2.43.0


From 721107b4b1e2084de6e24f16b581e5b701058a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:15 +0000
Subject: [PATCH 70/77] fix: store contents before the rows that refer to them

---
 capture/noworkflow/now/cmd/cmd_restore.py     |  1 +
 .../collection/prov_definition/definition.py  |  2 ++
 .../collection/prov_execution/collector.py    |  2 ++
 .../now/persistence/content/base.py           |  4 ++++
 .../now/persistence/content/parallel.py       | 20 ++++++++++++++++++-
 5 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 6e8cb00..9587775 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -98,6 +98,7 @@ class Restore(Command):
 
 
         partial = True
+        content.flush()
         Trial.fast_update(tid, metascript.main_id, datetime.now(), "backup")
         CodeComponent.store(metascript.code_components_store, partial)
         CodeBlock.store(metascript.code_blocks_store, partial)
diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index fcd9295..d6915a9 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -41,6 +41,8 @@ class Definition(object):
         metascript = self.metascript
         # Remove after save
         partial = True
+        # Rows refer to contents: contents must be stored first
+        content.flush()
         metascript.code_components_store.do_store(partial)
         metascript.code_blocks_store.do_store(partial)
         metascript.compositions_store.do_store(partial)
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 71fea62..8aff99b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -2166,6 +2166,8 @@ class Collector(object):
         metascript = self.metascript
         tid = metascript.trial_id
 
+        # Rows refer to contents: contents must be stored first
+        content.flush()
         metascript.code_components_store.do_store(partial)
         metascript.evaluations_store.do_store(partial)
         metascript.activations_store.do_store(partial)
diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index d030b17..e8cada5 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -68,6 +68,10 @@ class ContentDatabaseEngine(object):
         """Commit content"""
         raise NotImplementedError("Implement in subclass")
 
+    def flush(self):
+        """Wait until the contents that were put are stored"""
+        pass  # engines store contents during the put by default
+
     def close(self):
         """Close connection"""
         pass  # do nothing by default
diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 61b1579..7b48254 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -62,6 +62,11 @@ def create_distributed(cls, name=None):
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
+        def flush(self):
+            """Wait until the processes store the contents"""
+            if self.processes_started:
+                self.tasks.join()
+
         def close(self):
             """Join and close processes"""
             if self.processes_started:
@@ -86,6 +91,7 @@ def create_pool(cls, name=None):
         def __init__(self, config):
             super(ProcessingPool, self).__init__(config)
             self.pool = None
+            self.results = []
             self.manager = Manager()
             self.object_hashes = self.manager.dict()
             self.processes_started = False
@@ -103,10 +109,18 @@ def create_pool(cls, name=None):
             if not self.processes_started:
                 self.start_processes()
 
-            self.pool.apply_async(self.do_put, self.put_attr(content, filename))
+            self.results.append(self.pool.apply_async(
+                self.do_put, self.put_attr(content, filename)
+            ))
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
+        def flush(self):
+            """Wait until the processes store the contents"""
+            for result in self.results:
+                result.wait()
+            self.results = []
+
         def close(self):
             """Join and close processes"""
             if self.processes_started:
@@ -136,6 +150,10 @@ def create_threading(cls, name=None):
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
+        def flush(self):
+            """Wait until the threads store the contents"""
+            self.close()
+
         def close(self):
             """Join and close threads"""
             for t in self.persistence_threads:
-- 
2.43.0


From fab5dd6d12158da1e5ad5163c2393b292a803d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:46 +0000
Subject: [PATCH 71/77] fix: match calls in graphs only when all their
 sub-calls match

---
 capture/noworkflow/now/models/graphs/trial_graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 8f92d0c..6f4e867 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -258,8 +258,7 @@ class NoMatchSummarization(LineNameSummarization):
 
     def insert_sequence(self, call, last):
         """Inser last caller and comma to caller"""
-        if not last.children:
-            self.nodes[last.parent_index].repr += last.repr + ","
+        self.nodes[last.parent_index].repr += last.repr + ","
         return super(NoMatchSummarization, self).insert_sequence(call, last)
 
 
-- 
2.43.0


From a996827c39e07495b5a09e022cad18293fd89b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:46 +0000
Subject: [PATCH 72/77] fix: draw calls made by generators under the generators

---
 .../now/models/graphs/trial_graph.py          | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 6f4e867..ebcc615 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -21,6 +21,28 @@ from .structures import Graph
 Node = DotDict  # pylint: disable=invalid-name
 
 
+def preorder_traversal(activations):
+    """Return activations in preorder
+
+    Activations are ordered by their start, but a generator may call functions
+    after its caller calls other functions
+    """
+    activations = list(activations)
+    ids = {activation.id for activation in activations}
+    children = defaultdict(list)
+    for activation in activations:
+        caller_id = activation.caller_id
+        children[caller_id if caller_id in ids else None].append(activation)
+
+    result = []
+    stack = children[None][::-1]
+    while stack:
+        activation = stack.pop()
+        result.append(activation)
+        stack.extend(reversed(children[activation.id]))
+    return result
+
+
 class Summarization(object):
     """Summarization algorithm
 
@@ -149,7 +171,7 @@ class Summarization(object):
             self.add_edge(last, node, 'call')
         else:
             self.merge(node, call)
-            node.caller_id = max(node.caller_id, call.caller_id)
+            node.caller_id = call.caller_id
         return node
 
     def insert_return(self, last):
@@ -175,7 +197,7 @@ class Summarization(object):
             node = self.insert_node(call, self.nodes[last.parent_index], match)
         else:
             self.merge(node, call)
-            node.caller_id = max(node.caller_id, call.caller_id)
+            node.caller_id = call.caller_id
         self.add_edge(last, node, 'sequence')
         return node
 
@@ -418,22 +440,26 @@ class TrialGraph(Graph):
     @cache("tree")
     def tree(self):
         """Convert tree structure into dict tree structure"""
-        return self.result(TreeSummarization(self.trial.activations))
+        return self.result(TreeSummarization(
+            preorder_traversal(self.trial.activations)))
 
     @cache("no_match")
     def no_match(self):
         """Convert tree structure into dict graph without node matchings"""
-        return self.result(NoMatchSummarization(self.trial.activations))
+        return self.result(NoMatchSummarization(
+            preorder_traversal(self.trial.activations)))
 
     @cache("exact_match")
     def exact_match(self):
         """Convert tree structure into dict graph and match equal calls"""
-        return self.result(StructureSummarization(self.trial.activations))
+        return self.result(StructureSummarization(
+            preorder_traversal(self.trial.activations)))
 
     @cache("namespace_match")
     def namespace_match(self):
         """Convert tree structure into dict graph and match namespaces"""
-        return self.result(LineNameSummarization(self.trial.activations))
+        return self.result(LineNameSummarization(
+            preorder_traversal(self.trial.activations)))
 
     @cache("definition_tree")
     def definition_tree(self):
-- 
2.43.0


From a21c10e81b539e4693eb7d4e856bb61d1e97c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:47 +0000
Subject: [PATCH 73/77] fix: wait for the content of cached graphs and ignore
 unreadable ones

---
 capture/noworkflow/now/models/graphs/structures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/structures.py b/capture/noworkflow/now/models/graphs/structures.py
index 726335f..ee086be 100644
--- a/capture/noworkflow/now/models/graphs/structures.py
+++ b/capture/noworkflow/now/models/graphs/structures.py
@@ -64,17 +64,20 @@ def prepare_cache(get_type):
                                 continue
                             cache_session.close()                                # pylint: disable=no-member
                             return result
-                    except (ValueError, exc.SQLAlchemyError):
+                    except Exception:                                            # pylint: disable=broad-except
+                        # Missing or unreadable cache
                         traceback.print_exc()
                         print_msg("Couldn't load graph cache", True)
                 start = time.time()
                 graph = func(self, *args, **kwargs)
                 duration = time.time() - start
                 try:
+                    content_hash = content.put(pickle.dumps(graph), name)
+                    # Wait until the content is stored
+                    content.close()
                     GraphCache.remove(*information, session=cache_session)
                     GraphCache.create(
-                        typ, name, duration, attributes,
-                        content.put(pickle.dumps(graph), name),
+                        typ, name, duration, attributes, content_hash,
                         session=cache_session, commit=True
                     )
                 except exc.SQLAlchemyError:
-- 
2.43.0


From df875a8ed48b288b1017ba4fbcfab17560ae4c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:47 +0000
Subject: [PATCH 74/77] fix: show the current trials in the history of a store
 that changes

---
 .../now/models/graphs/history_graph.py         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index f81dc98..5398a6f 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -48,11 +48,13 @@ class HistoryGraph(Graph):
         edges -- list of edges dicts with keys source and target as node index
         """
 
+        # Other processes may change trials after this session loads them
+        relational.session.expire_all()
         key = (
             self.history.script, self.history.status, self.history.summarize,
-            Trial.count(None,self.history.expId)
+            self._state()
         )
-        
+
         if self.use_cache and key in self.cache:
             return self.cache[key]
 
@@ -81,6 +83,18 @@ class HistoryGraph(Graph):
 
         return result
 
+    def _state(self):
+        """Return everything that the graph presents. Used as cache key"""
+        return (
+            tuple(
+                (trial.id, trial.script, trial.status, trial.parent_id,
+                 trial.str_start, trial.str_finish)
+                for trial in Trial.reverse_trials(
+                    MAXTRIALS, None, self.history.expId)
+            ),
+            tuple((tag.trial_id, tag.name) for tag in Tag.auto_tags()),
+        )
+
     def graph(self):
         """Return history_data as a dict graph"""
         result = self.history_data()
-- 
2.43.0


From 974e5399816e941f67d380bff0c93e5f9a2ce9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:47 +0000
Subject: [PATCH 75/77] fix: replace each item of a diff once

---
 capture/noworkflow/now/models/diff.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/models/diff.py b/capture/noworkflow/now/models/diff.py
index 79fb984..184f33f 100644
--- a/capture/noworkflow/now/models/diff.py
+++ b/capture/noworkflow/now/models/diff.py
@@ -132,11 +132,13 @@ def diff_set(before, after, create_replaced=True):
 
     removed_by_name = {}
     for element_removed in removed:
-        removed_by_name[element_removed.name] = element_removed
+        removed_by_name.setdefault(
+            element_removed.name, []).append(element_removed)
     for element_added in added:
-        element_removed = removed_by_name.get(element_added.name)
-        if element_removed and create_replaced:
-            replaced.add((element_removed, element_added))
+        same_name = removed_by_name.get(element_added.name)
+        if same_name and create_replaced:
+            # Each element is replaced once
+            replaced.add((same_name.pop(), element_added))
     if create_replaced:
         for (element_removed, element_added) in replaced:
             removed.discard(element_removed)
-- 
2.43.0


From 0b9f5825924f1e3fc6a3265bc260b83bcd37dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:47 +0000
Subject: [PATCH 76/77] fix: export texts that are not literals and line breaks
 as atoms

---
 capture/noworkflow/now/utils/prolog.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/utils/prolog.py b/capture/noworkflow/now/utils/prolog.py
index cdc3a01..f139218 100644
--- a/capture/noworkflow/now/utils/prolog.py
+++ b/capture/noworkflow/now/utils/prolog.py
@@ -113,13 +113,17 @@ class PrologRepr(PrologAttribute):
         value = self.value(obj)
         if not isinstance(value, str):
             value = repr(value)
-        value = value.replace("\\", "\\\\")
+        # Remove prefix and quotes of literals
+        literal = value
+        if literal[:1] in ascii_letters and literal[1:2] in ('"', "'"):
+            literal = literal[1:]
+        if (len(literal) > 1 and literal[0] in ('"', "'") and
+                literal[-1] == literal[0]):
+            value = literal[1:-1]
 
-        if len(value) > 1:
-            if value[0] in ascii_letters and value[1] in ('"', "'"):
-                value = value[1:]
-            if value[0] in ('"', "'") and value[-1] == value[0]:
-                value = value[1:-1]
+        value = value.replace("\\", "\\\\")
+        # Quoted atoms do not have line breaks
+        value = value.replace("\n", "\\n").replace("\r", "\\r")
 
         return "'{}'".format(value.replace("'", "''"))
 
-- 
2.43.0


From 60dce1c1b21a0cc8f148d60ed2b29058b4d0f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:47 +0000
Subject: [PATCH 77/77] fix: export modules that were not transformed and have
 no full path

---
 capture/noworkflow/now/persistence/models/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/module.py b/capture/noworkflow/now/persistence/models/module.py
index 3268443..28d3ed2 100644
--- a/capture/noworkflow/now/persistence/models/module.py
+++ b/capture/noworkflow/now/persistence/models/module.py
@@ -10,7 +10,7 @@ from sqlalchemy import Column, Integer, String, Text, Boolean, select, bindparam
 from sqlalchemy import PrimaryKeyConstraint, ForeignKeyConstraint
 
 from ...utils.prolog import PrologDescription, PrologTrial, PrologRepr
-from ...utils.prolog import PrologAttribute, PrologNullableRepr
+from ...utils.prolog import PrologAttribute, PrologNullableRepr, PrologBoolean
 
 from .. import relational
 
@@ -81,8 +81,8 @@ class Module(AlchemyProxy):
         PrologNullableRepr("version"),
         PrologRepr("path"),
         PrologNullableRepr("code_block_id", link="code_block.id"),
-        PrologAttribute("transformed"),
-        PrologRepr("fullpath"),
+        PrologBoolean("transformed"),
+        PrologNullableRepr("fullpath"),
     ), description=(
         "informs that in a given trial (*TrialId*),\n"
         "a module with *Id* and *Name* at *Version*,\n"
-- 
2.43.0

