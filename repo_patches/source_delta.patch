From 46de97d2165c9fdbc34ff68301835adc6be322e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 01/47] fix: take_snapshot works again (np.int64_ does not
 exist; keys() is a live view)

---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..9747b1c 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -300,8 +300,8 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    copy_keys = list(kwds.keys())
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
-- 
2.43.0


From e65031898ee37371c2ca526b092c5ce467c63e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 02/47] fix: frame lookup accepts trajectories whose time
 column is float, as the readers produce

---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9747b1c..37bda16 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -264,7 +264,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -306,7 +306,7 @@ def take_snapshot(trajects, frame, schema):
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](int(frame - first_frame))
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From fe0d9edabae1b9e4afe2e7211dd3b7532b47ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 03/47] fix: trajectories_in_frame accepts an empty trajectory
 list

---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 37bda16..e02c893 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -255,8 +255,8 @@ def trajectories_in_frame(trajects, frame_num,
     traj_nums = the indices of active trajectories in ``trajects``.
     """
     if start_times is None or end_times is None:
-        start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
-        start_times, end_times = map(np.array, zip(*start_end))
+        start_times = np.array([tr.time()[0] for tr in trajects])
+        end_times = np.array([tr.time()[-1] for tr in trajects])
     
     end_frm = (frame_num + 1) if segs else frame_num
     cands = (frame_num >= start_times) & (end_frm <= end_times)
-- 
2.43.0


From 9a8b1caad8bcfc588c041af1dc0c561e91740ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 04/47] fix: Sequence is iterable under Python 3

---
 flowtracks/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..d0dedc5 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -220,6 +220,8 @@ class Sequence(object):
         
         return frame, next_frame
     
+    __next__ = next # Python 3 iterator protocol.
+    
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
         Iterate over frames, for each frame call a function that generates a
-- 
2.43.0


From 0aed537e54113e15a4fe16fcaee9349316cbc8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 05/47] fix: an abandoned subrange iteration of a Sequence does
 not shrink the next full one

---
 flowtracks/sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index d0dedc5..b9c0713 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -160,8 +160,8 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
+        # A subrange counts for one iteration, even if it is abandoned midway.
+        self._act_rng = self.__dict__.get('_sub_rng', self._rng)
         
         self._frame = self._act_rng[0]
         
@@ -190,12 +190,12 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
+        self._sub_rng = (first, last)
         return self
     
     def next(self):
+        self.__dict__.pop('_sub_rng', None)
         if self._frame == self._act_rng[1]:
-            del self._act_rng
             raise StopIteration
         
         frame = Frame()
-- 
2.43.0


From 76cba35633d1db26b0bd48603cc1bca72f5af53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 06/47] fix: Sequence iteration works after
 tracer_trajectories() was called directly

---
 flowtracks/sequence.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index b9c0713..e602d85 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -168,8 +168,6 @@ class Sequence(object):
         # Make sure the particle trajectory cache is populated.
         self.particle_trajectories()
         self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
         
         # Make sure the tracers cache is populated:
         self.tracer_trajectories()
-- 
2.43.0


From e71b1ffb73c9d8b0dcff075876106bce7e2618d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 07/47] fix: a saved Sequence configuration can be read back
 (default minimal length, more than one % in a file name)

---
 flowtracks/sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index e602d85..dc42464 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -303,8 +303,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(self._minlen))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
@@ -347,7 +347,7 @@ def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     # Same goes for traj_min_len
     if parser.has_option("Scene", "trajectory minimal length"):
         if traj_min_len is None:
-            traj_min_len = parser.getint("Scene", "trajectory minimal length")
+            traj_min_len = parser.getfloat("Scene", "trajectory minimal length")
     else:
         if traj_min_len is None:
             traj_min_len = 0
-- 
2.43.0


From 66931d523f4c7f48be6fff7045329d142d60becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 08/47] fix: HDF writers store scalar properties as scalar
 columns (current numpy takes a field shape of 1 as (1,))

---
 flowtracks/io.py         | 6 +++---
 flowtracks/trajectory.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..1175ce1 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -706,7 +706,7 @@ def save_particles_table(filename, trajects, trim=None):
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
-            fields = [('trajid', int, 1)] + [(field,) + desc \
+            fields = [('trajid', int)] + [(field,) + desc \
                 for field, desc in traj.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
@@ -755,7 +755,7 @@ def save_frames_hdf(filename, frames):
         # First frame creates the table:
         if table is None:
             # Format of records in a frame array:
-            fields = [('time', int, 1)] + [(field,) + desc \
+            fields = [('time', int)] + [(field,) + desc \
                 for field, desc in frame.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
@@ -788,7 +788,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index e02c893..1a1ad89 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -101,13 +101,13 @@ class ParticleSet(object):
     def ext_schema(self):
         """
         Extended schema. Like :meth:`schema` but the values of the returned 
-        dictionary are a tuple (type, shape). The shape is scalar, so it only 
-        supports 1D or 0D items.
+        dictionary are a tuple (type, shape). The shape is scalar for 1D items
+        and () for 0D items, others are not supported.
         """
         schm = {}
         for propname in self._check_attr:
             prop = self.__dict__['_' + propname]
-            shape = prop.shape[-1] if prop.ndim > 1 else 1
+            shape = prop.shape[-1] if prop.ndim > 1 else ()
             schm[propname] = (prop.dtype.type, shape)
             
         return schm
-- 
2.43.0


From cbbff56c601b688187d511e09a117fbd1f56c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 09/47] fix: save_particles_table(trim=0) saves whole
 trajectories

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 1175ce1..f761f78 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -689,7 +689,7 @@ def save_particles_table(filename, trajects, trim=None):
     filename - name of output PyTables HDF5 file to create. The 'h5' extension
         is recommended so that infer_format() knows what to do with it.
     trajects - a list of Trajectory objects to save.
-    trim - if None, remove this many time points from each end of each 
+    trim - if not None, remove this many time points from each end of each 
         trajectory before saving.
     """
     table = None
@@ -718,7 +718,7 @@ def save_particles_table(filename, trajects, trim=None):
             if trim is None:
                 arr[k] = v
             else:
-                arr[k] = v[trim:-trim]
+                arr[k] = v[trim:len(v) - trim]
         
         table.append(arr)
         bounds_tab.append([
-- 
2.43.0


From 1219a8c322c8ab60dcb4cca16922c163d6ff3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 10/47] fix: trajectories(iter_allowed=True) works under Python
 3

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index f761f78..fe7bfdc 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -15,7 +15,7 @@ The rest of the content of this module is composed of readers and writers for
 the various formats. They are documented here alongside the main entry points,
 so that users may access them directly if needed.
 """
-import os, os.path, re, itertools as itr
+import os, os.path, re
 from configparser import ConfigParser
 from io import StringIO
 
@@ -514,7 +514,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From 326237d095c2efaec007f63810149a5b48bdeff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 11/47] fix: trajectories() includes the last frame for HDF and
 acc files too, in any directory order

---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index fe7bfdc..ebc8e98 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -231,7 +231,7 @@ def trajectories_acc(fname, first=None, last=None):
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
+        if last is not None and frame > last: continue
         
         table = np.loadtxt(os.path.join(dirname, fname),
             usecols=(0,1,2,3,4,5,6,7,8,33))
@@ -502,7 +502,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
+        # Scene ranges exclude the last frame, here it is included.
+        scene = Scene(fname, (first, None if last is None else last + 1))
         it = scene.iter_trajectories()
         if iter_allowed:
             traj = it
-- 
2.43.0


From 13c601872798a06db424d4ab0a5690310d4d1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 12/47] fix: xuap files, which have more columns than used, can
 be read again

---
 flowtracks/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index ebc8e98..ee307c8 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -42,7 +42,11 @@ class FramesIterator(object):
         """
         self._frmix = 0
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip, 
+                usecols=range(ncols)))
+        
+        # Extra columns (e.g. the 15th in xuap files) are not used.
+        ncols = sum(int(np.prod(fmt[name].shape)) for name in fmt.names)
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
-- 
2.43.0


From da5c7244b445423e93063a461cb580f5b5aacc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 13/47] fix: frame files are matched by their whole name, and
 may be in the current directory

---
 flowtracks/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index ee307c8..6fafc4a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -49,12 +49,13 @@ class FramesIterator(object):
         ncols = sum(int(np.prod(fmt[name].shape)) for name in fmt.names)
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = re.compile(
+            re.escape(basename).replace('%d', r'(\d+)', 1) + '$')
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or '.'):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
@@ -227,9 +228,10 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = re.compile(
+        re.escape(basename).replace('%d', r'(\d+)', 1) + '$')
     
-    for fname in os.listdir(dirname):
+    for fname in os.listdir(dirname or '.'):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
-- 
2.43.0


From 7cd8861a0a9612a1eb27786c6adb9b416fdcd6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 14/47] fix: integer columns written as floats in xuap files
 are readable with current numpy

---
 flowtracks/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 6fafc4a..e020c8e 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -42,12 +42,16 @@ class FramesIterator(object):
         """
         self._frmix = 0
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip, 
-                usecols=range(ncols)))
+            np.loadtxt(fname_tmpl % fix, dtype=read_fmt, skiprows=skip, 
+                usecols=range(ncols))).astype(fmt)
         
         # Extra columns (e.g. the 15th in xuap files) are not used.
         ncols = sum(int(np.prod(fmt[name].shape)) for name in fmt.names)
         
+        # Integers may be written as '1.0' (xuap), so read all as floats first.
+        read_fmt = np.dtype(
+            [(name, 'f8', fmt[name].shape) for name in fmt.names])
+        
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(
             re.escape(basename).replace('%d', r'(\d+)', 1) + '$')
-- 
2.43.0


From b772ed2bb742f437c8f29c9f18dc4fb7269b9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 15/47] fix: Scene.collect with a selection works without a
 frame range

---
 flowtracks/scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..a4713db 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,9 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = []
+        if self._frame_limit != '':
+            conds.append(self._frame_limit)
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From baea2b19e9b53dcc5a373aced0b9f42bc6c51182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 16/47] fix: Scene frame arrays accept an extra condition

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index a4713db..6665131 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From f5f6ed624f024db0a727835f6258ab04a92679f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 17/47] fix: selection ranges are not rounded to 6 digits

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 6665131..8a83dbe 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From 4a93c144668b04945c149c73d5becacd9f9fd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 18/47] fix: an abandoned DualScene iteration restores the
 frame range

---
 flowtracks/scene.py | 58 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 8a83dbe..01bb068 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -425,17 +425,19 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for particles, tracers in zip(
-            self._particles.iter_frames(), self._tracers.iter_frames()):
-            frame = Frame()
-            frame.tracers = tracers
-            frame.particles = particles
-            yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for particles, tracers in zip(
+                self._particles.iter_frames(), self._tracers.iter_frames()):
+                frame = Frame()
+                frame.tracers = tracers
+                frame.particles = particles
+                yield frame
+        
+        # restore original frame range, even if iteration is abandoned.
+        finally:
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -457,22 +459,24 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for part_frames, tracer_frames in zip(
-            self._particles.iter_segments(), self._tracers.iter_segments()):
-            frame = Frame()
-            frame.tracers = tracer_frames[0]
-            frame.particles = part_frames[0]
-            
-            next_frame = Frame()
-            next_frame.tracers = tracer_frames[1]
-            next_frame.particles = part_frames[1]
-            
-            yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for part_frames, tracer_frames in zip(
+                self._particles.iter_segments(), self._tracers.iter_segments()):
+                frame = Frame()
+                frame.tracers = tracer_frames[0]
+                frame.particles = part_frames[0]
+                
+                next_frame = Frame()
+                next_frame.tracers = tracer_frames[1]
+                next_frame.particles = part_frames[1]
+                
+                yield frame, next_frame
+        
+        # restore original frame range, even if iteration is abandoned.
+        finally:
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From 219da428af5b5e3352af2921221803cd838642f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:54 +0000
Subject: [PATCH 19/47] fix: analysis() stores trajid and time as scalar
 columns under current numpy

---
 flowtracks/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..1036eb2 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -114,7 +114,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
     # Structure the output file:
-    descr = [('trajid', int, 1), ('time', int, 1)]
+    descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
         descr.extend(analyser.descr())
     descr = np.dtype(descr)
-- 
2.43.0


From ef4dad103e107a21e49b2a5a031363dc53757da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 20/47] fix: AnalysedScene.collect works under Python 3

---
 flowtracks/an_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..08518ce 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
-- 
2.43.0


From 022cfd6efd4b22f5eafe2786e2e9b6e0c2451b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 21/47] fix: particle_pairs returns pairs in the order they
 were requested

---
 flowtracks/pairs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..26df4e8 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -68,7 +68,11 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
         pair_ixs = np.argmin(dists_sq, axis=1)
-        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
+        
+        # The snapshot is ordered by trajectory, the request needn't be.
+        req_ixs = np.argmax(
+            trajids[coord_locator][:,None] == prim_parts.trajid(), axis=1)
+        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)[req_ixs]
         pair_time[coord_locator] = frame_num # later transformed.
     
     # Transform frame numbers back into time index in the output array.
-- 
2.43.0


From 75099f578dbb707c8df30493cdab67bacd4d805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 22/47] fix: particle_pairs accepts trajectories whose time
 column is float

---
 flowtracks/pairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 26df4e8..0276bc6 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -81,6 +81,6 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        pair_time[pair_trids == trid] -= int(traj.time(0))
         
     return pair_trids, pair_time
-- 
2.43.0


From 598de64fd32360314acb49b8e441b629873128ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 23/47] fix: savitzky_golay works under numpy 2 (np.mat was
 removed)

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..aa10408 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,7 +64,7 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b).A
     m_pos = m[0]
     m_vel = m[1] * fps
-- 
2.43.0


From 35854612d480e2d8d9e5be163066853357380f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 24/47] fix: savitzky_golay accepts polynomial orders below 3

---
 flowtracks/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index aa10408..539701e 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -66,6 +66,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     # precompute coefficients
     b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b).A
+    # Derivatives above the polynomial order are 0.
+    m = np.vstack((m, np.zeros((max(3 - order, 0), window_size))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From e7cccf579c94b90da891ed6f71fe85e0a780c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 25/47] fix: smoothing a smoothed trajectory does not keep its
 old vel_pp

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 539701e..e44984a 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,7 +60,7 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-- 
2.43.0


From dc6141db4a022e04345a1cc36842d4cbff1c46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 26/47] fix: excluded tracers are never selected as neighbours

---
 flowtracks/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..11112a1 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -69,6 +69,9 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        
+        # Excluded tracers are not used even when there are not enough others.
+        use_parts[np.isinf(dists)] = False
 
     else:
         use_parts = dists < radius
@@ -580,7 +583,8 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            pt_dists = dists[pt, use_parts[pt]]
+            ndists[pt, :len(pt_dists)] = pt_dists
         
         return ndists
     
-- 
2.43.0


From 1a15361ba6558e17c00799ff2ad2dadd79065056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 27/47] fix: replacing an interpolant's data drops the cache of
 the old data

---
 flowtracks/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 11112a1..04f6a3d 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -323,6 +323,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
-- 
2.43.0


From 7565d5e75fc03e7aa8a51b75aa73918ad4f3b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 28/47] fix: missing neighbours contribute 0, not uninitialized
 memory; data need not be 3D

---
 flowtracks/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 04f6a3d..dd8e994 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -379,7 +379,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -417,8 +417,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -735,7 +735,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From 934fa08cbd889094ebdeebb5ff7537f07c5a393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 29/47] fix: trim_points trims everything that is kept per
 interpolation point

---
 flowtracks/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index dd8e994..f4d2f1a 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -338,6 +338,12 @@ class GeneralInterpolant(object):
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        if self.__matched_data is not None:
+            self.__matched_data = self.__matched_data[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
-- 
2.43.0


From 238345b5adcb21f3973faf010181d9ca750d6312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 30/47] fix: IDW weights follow new field positions

---
 flowtracks/interpolation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index f4d2f1a..d808799 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -674,6 +674,12 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _forego_laziness(self):
+        """
+        The weights depend on the neighbours, so always go with them.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
@@ -685,6 +691,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
         which - a boolean array, length is number of current particle list
             (as given in set_scene), True to trim a point, False to keep.
         """
+        self.current_active_neighbs() # ensures weights exist.
         GeneralInterpolant.trim_points(self, which)
         self.__weights = self.__weights[~which]
         
-- 
2.43.0


From 809e1eb34ca9f8aa34085f4c1c6b4f3d3cbe0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 31/47] fix: companions of interpolation points do not change
 RBF inter-tracer distances

---
 flowtracks/interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index d808799..b98ce7a 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -393,8 +393,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -522,7 +521,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From 02b4e31219d413f756a52004526185ff78c25b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 32/47] fix: rbf and corrfun interpolation of a recorded scene
 works (neighbour indices are not a mask)

---
 flowtracks/interpolation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index b98ce7a..3baa657 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -472,12 +472,20 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # The interpolation functions look at all tracers, not the k nearest.
+        num_tracers = self.__tracers.shape[0]
+        dists = np.zeros((act_neighbs.shape[0], num_tracers))
+        use_parts = np.zeros(dists.shape, dtype=bool)
+        pts, cols = np.nonzero(act_neighbs < num_tracers)
+        dists[pts, act_neighbs[pts, cols]] = self.__dists[pts, cols]
+        use_parts[pts, act_neighbs[pts, cols]] = True
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
-- 
2.43.0


From b84012b7a35431419ec28c9925b8d42a423be29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 33/47] fix: InverseDistanceWeighter is callable, as documented

---
 flowtracks/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 3baa657..b278bcc 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -737,7 +737,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
         vel_interp - an (m,3) array with the interpolated value at the position
             of each particle, [m/s].
         """
-        raise NotImplementedError()
+        scratch = InverseDistanceWeighter(
+            self._neighbs, self._radius, self._par)
+        scratch.set_scene(tracer_pos, interp_points, data, companionship)
+        return scratch.interpolate()
         
     def _meth_interp(self, act_neighbs=None):
         """
-- 
2.43.0


From 0a58c56f76120e45700b4d96e8d0b4a0886e664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 34/47] fix: the finite-difference Jacobian excludes
 companions, as the interpolation does

---
 flowtracks/interpolation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index b278bcc..11a3555 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -561,11 +561,14 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data,
+            self.__comp)
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data,
+            self.__comp)
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data,
+            self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From 5e744f8621a377a7be099296ac930a270df99288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 35/47] fix: a saved interpolant configuration can be read back

---
 flowtracks/interpolation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 11a3555..620fc2b 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -616,7 +616,8 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        if self.radius() is not None:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
         cfg.set('Interpolant', 'param', str(self._par))
         cfg.set('Interpolant', 'method', self._method)
@@ -825,6 +826,9 @@ def read_interpolant(conf_fname):
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        if parser.get('Interpolant', 'method') == 'corrfun':
+            kwds['param'] = parser.get('Interpolant', 'param') # a file name
+        else:
+            kwds['param'] = parser.getfloat('Interpolant', 'param')
     
     return interpolant(parser.get('Interpolant', 'method'), **kwds)
-- 
2.43.0


From 53aa3826bddb3dc25f91223dc43baf804bf2c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 36/47] fix: a companion that is not the tracer in the same
 position is dropped besides it

---
 flowtracks/interpolation.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 620fc2b..98a9082 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -361,16 +361,22 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
+        extra = 1 if comp is None else 2
         dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+            interp_pts, self._neighbs + extra, distance_upper_bound=self._upb)
+        
+        # A companion may be found besides a tracer in the same position, so 
+        # drop one neighbour for each, the farthest if there's none to drop.
         keep = dists > 0.
+        keep[np.all(keep, axis=1), -1] = False
+        dists = dists[keep].reshape(-1, keep.shape[1] - 1)
+        active_neighbs = active_neighbs[keep].reshape(-1, keep.shape[1] - 1)
         
         if comp is not None:
-            keep &= active_neighbs != comp[:, None]
-        
-        keep[np.all(keep, axis=1), -1] = False
-        dists = dists[keep].reshape(-1, self._neighbs)
-        active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
+            keep = active_neighbs != comp[:, None]
+            keep[np.all(keep, axis=1), -1] = False
+            dists = dists[keep].reshape(-1, keep.shape[1] - 1)
+            active_neighbs = active_neighbs[keep].reshape(-1, keep.shape[1] - 1)
         
         return dists, active_neighbs
         
-- 
2.43.0


From 51ec9a55827901ab2b27a46a6459e86e82e19e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 37/47] fix: points may be trimmed in a frame with no tracers

---
 flowtracks/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 98a9082..c527b3a 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -708,6 +708,9 @@ class InverseDistanceWeighter(GeneralInterpolant):
         which - a boolean array, length is number of current particle list
             (as given in set_scene), True to trim a point, False to keep.
         """
+        if len(self.field_positions()) == 0:
+            return GeneralInterpolant.trim_points(self, which)
+        
         self.current_active_neighbs() # ensures weights exist.
         GeneralInterpolant.trim_points(self, which)
         self.__weights = self.__weights[~which]
-- 
2.43.0


From 196132b3de5cf4ad253bf65f64dc14076d322e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 38/47] fix: analyse_fhdf.py --param is the interpolation
 parameter, not the radius

---
 scripts/analyse_fhdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..a8b7fed 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,10 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    param = args.param
+    if param is not None and args.method != 'corrfun':
+        param = float(param)
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 8044bd7a27af1ca6f4ad359608583c8ad8a26198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 39/47] fix: collect_particles_generic returns an empty table
 of the documented shape for an empty frame

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e020c8e..86964d2 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -599,7 +599,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
-- 
2.43.0


From 7eebb03f79cdb92b0a27ba93b7b84c239b565123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 40/47] fix: trajectories with no points in the requested range
 are left out also for a minimal length of 0

---
 flowtracks/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 86964d2..b9139ab 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -523,6 +523,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     if filter_needed:
         if traj_min_len is None:
             traj_min_len = 2
+        # Those with no point in range are not trajectories.
+        traj_min_len = max(traj_min_len, 1)
         
         if iter_allowed:
             traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
-- 
2.43.0


From 03269bcc0f454c8d602f81cb67738ca5296c7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 41/47] fix: frames with a single particle are read from
 concatenated ptv_is files

---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index b9139ab..2241ea9 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -103,7 +103,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
-- 
2.43.0


From cedd43b367945dbdc2bdf3a22e470a3b6315d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 42/47] fix: trajAcc files with a single row are readable

---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2241ea9..2cd1d17 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -161,7 +161,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -245,7 +246,7 @@ def trajectories_acc(fname, first=None, last=None):
         if last is not None and frame > last: continue
         
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From 7357146d82108db7c8cc730006ef81694eba3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 43/47] fix: collect_particles does not miss paths older than a
 frame with none long enough

---
 flowtracks/io.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2cd1d17..70fa842 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -173,10 +173,6 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
         selected.append(in_frame)
         cur_frame -= 1
     
-- 
2.43.0


From e6158af0b1005cdcdf355e180c5e2a4a13b972c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 44/47] fix: logarithmic PDF bins include the smallest and
 largest samples

---
 flowtracks/graphics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..0f762ae 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -36,6 +36,8 @@ def pdf_bins(data, num_bins, log_bins=False):
         data = data[data > 0] 
         minv = np.min(data)
         bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        # Rounding in the logarithm must not leave the extreme samples out.
+        bins[0], bins[-1] = minv, data.max()
     else:
         bins = num_bins
     
-- 
2.43.0


From a618ee77072170a25ad91a63f921e9747c1340ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 45/47] fix: a correlation-function file name with % survives
 saving the interpolant's configuration

---
 flowtracks/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index c527b3a..e2bac00 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -625,7 +625,8 @@ class GeneralInterpolant(object):
         if self.radius() is not None:
             cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        # Escape because of ConfigParser's 'magic variables' (corrfun file names).
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
-- 
2.43.0


From ac6c5cef71c09d79990284921158807a0c132e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 46/47] fix: mark_unique_rows of no rows gives no rows
 (collect_particles of a frame without segments raised IndexError)

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 1a1ad89..e2c009c 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -232,7 +232,7 @@ def mark_unique_rows(all_rows):
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-    uniq = np.r_[srt[0], srt[1:][diff]]
+    uniq = np.r_[srt[:1], srt[1:][diff]]
     uniq.sort()
         
     return uniq
-- 
2.43.0


From 044def63c9a39d0952a50c12127d858df6e4691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 47/47] fix: Matlab records of one point are read with a
 one-dimensional time

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 70fa842..1955334 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -209,7 +209,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = traj['t'].ravel()
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0

