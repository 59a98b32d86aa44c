From d664ec7536988d524cfa39bbf78bb1db292dd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:06 +0000
Subject: [PATCH 01/74] fix: read xuap files (float link columns, extra
 columns)

---
 flowtracks/io.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..b904b76 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -30,7 +30,7 @@ from .trajectory import Trajectory, mark_unique_rows, \
 
 
 class FramesIterator(object):
-    def __init__(self, fname_tmpl, fmt, skip, first=None, last=None):
+    def __init__(self, fname_tmpl, fmt, skip, first=None, last=None, cols=None):
         """
         Arguments:
         fname_tmpl - a template file name representing all ptv_is/xuap files in
@@ -39,10 +39,12 @@ class FramesIterator(object):
         skip - number of header lines to skip in each file.
         first, last - inclusive range of frames to read, rel. filename 
             numbering.
+        cols - the columns of the file that make up ``fmt``. Default is all.
         """
         self._frmix = 0
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip,
+                usecols=cols))
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
@@ -84,17 +86,19 @@ class FramesIterator(object):
         return self._frame_nums[curframenum], frame
         
 class SingleFileIterator(object):
-    def __init__(self, fname, fmt):
+    def __init__(self, fname, fmt, cols=None):
         """
         Arguments:
         fname - file name containing concatenated ptv_is frames, separated by
             empty line.
         fmt - a dtype object describing the table structure to be read.
+        cols - the columns of the file that make up ``fmt``. Default is all.
         skip - number of header lines to skip in each file.
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt,
+            usecols=cols)
     
     def __iter__(self):
         return self
@@ -272,13 +276,17 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     fname = os.path.expanduser(fname)
     
     if xuap:
-        fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8'),
+        # Link columns are floating-point text in xuap files. The files may have
+        # more columns than used here.
+        fmt = np.dtype([('prev', 'f8'), ('next', 'f8'), ('pos', '3f8'),
                         ('pos_int', '3f8'), ('vel', '3f8'), ('acc', '3f8')])
+        cols = range(14)
         skip = 0
         count_base = 1
         def_tr_len = 2
     else:
         fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8')])
+        cols = None
         skip = 1
         count_base = 0
         def_tr_len = 2
@@ -288,9 +296,9 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
 
     frames = []
     if re.search(r'%\d*?d', fname) is not None:
-        frm_iter = FramesIterator(fname, fmt, skip, first, last)
+        frm_iter = FramesIterator(fname, fmt, skip, first, last, cols)
     else:
-        frm_iter = SingleFileIterator(fname, fmt)
+        frm_iter = SingleFileIterator(fname, fmt, cols)
     
     # In the first frame, every particle starts a trajectory.
     frame_num, table = next(frm_iter)    
@@ -341,7 +349,7 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         
         has_history = (len(frames) > 0) and (frames[-1] is not None)
         if has_history:
-            prev_ix = table['prev'][cont] - count_base
+            prev_ix = (table['prev'][cont] - count_base).astype(np.int64)
             traj[cont] = frames[-1][:,-1][prev_ix]
         
         # Start new trajectories:
-- 
2.43.0


From d333e0b97a18f7e9b3da444d3b1dbd7826a59716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:06 +0000
Subject: [PATCH 02/74] fix: take_snapshot() used the nonexistent np.int64_

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..ed1dd70 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -301,7 +301,7 @@ def take_snapshot(trajects, frame, schema):
         for k, v in schema.items())
 
     copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
-- 
2.43.0


From 65f74168affa37b428b4c7abfa1a0417edc95bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:07 +0000
Subject: [PATCH 03/74] fix: take_snapshot() looked for a trajid property in
 trajectories

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index ed1dd70..9747b1c 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -300,7 +300,7 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
+    copy_keys = list(kwds.keys())
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-- 
2.43.0


From 945dbe77283679ed3471806166cd5d3cac4f9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:08 +0000
Subject: [PATCH 04/74] fix: find a frame in a trajectory by its time, not by
 distance from start

The distance is not an integer for trajectories read from ptv_is files, and
is the wrong index for trajectories with holes.
---
 flowtracks/trajectory.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9747b1c..da6679d 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -255,18 +255,21 @@ def trajectories_in_frame(trajects, frame_num,
     traj_nums = the indices of active trajectories in ``trajects``.
     """
     if start_times is None or end_times is None:
-        start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
-        start_times, end_times = map(np.array, zip(*start_end))
+        start_times = np.array([tr.time()[0] for tr in trajects])
+        end_times = np.array([tr.time()[-1] for tr in trajects])
     
     end_frm = (frame_num + 1) if segs else frame_num
     cands = (frame_num >= start_times) & (end_frm <= end_times)
+    
+    # Trajectories may have holes, i.e. not all frames between start and end.
+    for trix in np.nonzero(cands)[0]:
+        cands[trix] = np.isin([frame_num, end_frm], trajects[trix].time()).all()
     cand_nums = np.nonzero(cands)[0]
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
-        pos = np.array([trajects[trix].pos()[frm] \
-            for trix, frm in zip(cand_nums, frm_ixs)])
+        pos = np.array([trajects[trix].pos(trajects[trix].time() == frame_num)[0]
+            for trix in cand_nums])
         
         update_cands = np.zeros(pos.shape[0], dtype=np.bool)
         update_cands[mark_unique_rows(pos)] = True
@@ -304,9 +307,9 @@ def take_snapshot(trajects, frame, schema):
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-        first_frame = traj.time()[0]
+        frame_ix = np.nonzero(traj.time() == frame)[0][0]
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](frame_ix)
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From 2734bb0e8446d161a458ffb91964af6c9337ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:34 +0000
Subject: [PATCH 05/74] fix: saving scalar properties to HDF5 (fields had shape
 (1,))

---
 flowtracks/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index b904b76..c08d839 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -714,8 +714,8 @@ def save_particles_table(filename, trajects, trim=None):
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
-            fields = [('trajid', int, 1)] + [(field,) + desc \
-                for field, desc in traj.ext_schema().items()]
+            fields = [('trajid', int)] + [(field, arr.dtype, arr.shape[1:]) \
+                for field, arr in traj.as_dict().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
@@ -763,8 +763,8 @@ def save_frames_hdf(filename, frames):
         # First frame creates the table:
         if table is None:
             # Format of records in a frame array:
-            fields = [('time', int, 1)] + [(field,) + desc \
-                for field, desc in frame.ext_schema().items()]
+            fields = [('time', int)] + [(field, arr.dtype, arr.shape[1:]) \
+                for field, arr in frame.as_dict().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
         
@@ -796,7 +796,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
-- 
2.43.0


From 31a9927b230445a31c0f1ddaefd006931c0cae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:34 +0000
Subject: [PATCH 06/74] fix: save_particles_table() with trim=0

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index c08d839..dae24de 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -726,7 +726,7 @@ def save_particles_table(filename, trajects, trim=None):
             if trim is None:
                 arr[k] = v
             else:
-                arr[k] = v[trim:-trim]
+                arr[k] = v[trim:len(v) - trim]
         
         table.append(arr)
         bounds_tab.append([
-- 
2.43.0


From 9055f39aaa90f6545a1ad3affa95d3acab31a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:52 +0000
Subject: [PATCH 07/74] fix: scalar columns in analysis() tables (fields had
 shape (1,))

---
 flowtracks/analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..d8b855d 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -114,9 +114,11 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
     # Structure the output file:
-    descr = [('trajid', int, 1), ('time', int, 1)]
+    descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
-        descr.extend(analyser.descr())
+        # Items of length 1 are scalars.
+        descr.extend((name, dtype) if length == 1 else (name, dtype, length)
+            for name, dtype, length in analyser.descr())
     descr = np.dtype(descr)
     
     outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
@@ -135,7 +137,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
             this_descr = analyser.descr()
             
             for res, desc in zip(analysis, this_descr):
-                arr[desc[0]] = res
+                arr[desc[0]] = np.ravel(res) if desc[2] == 1 else res
         
         table.append(arr)
     
-- 
2.43.0


From 692f50f3ebfde43d0ccf8df1743eef04a2043e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:53 +0000
Subject: [PATCH 08/74] fix: AnalysedScene.collect() on Python 3 and with
 conditions on particle data

---
 flowtracks/an_scene.py | 6 +++---
 flowtracks/scene.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..e6fd468 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import tables, itertools as it, numpy as np
+import tables, numpy as np
 from .scene import read_dual_scene, gen_query_string
 from .trajectory import Trajectory
 
@@ -63,7 +63,7 @@ class AnalysedScene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join([query_string, cond])
+            query_string = ' & '.join([query_string, cond])
             
         for t in range(*self._scene.get_range()):
             yield t, self._table.read_where(query_string)
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..9024706 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = ' & '.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 9fcb774782031685b62f85e6b68df8811b0275ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:53 +0000
Subject: [PATCH 09/74] fix: Scene.collect() with conditions but no frame range

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 9024706..5a363a5 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,7 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = [self._frame_limit] if self._frame_limit != '' else []
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From f89e2505ec0a4f58277e060343877566e2650cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:53 +0000
Subject: [PATCH 10/74] fix: gen_query_string() rounded range limits to 6
 digits

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 5a363a5..560bb22 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From e14df83bfb587ef4de14175b36c041ae12a3eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:17 +0000
Subject: [PATCH 11/74] fix: Scene.iter_segments() gave the next frame's
 particles in another order

---
 flowtracks/scene.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 560bb22..b20d209 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -277,13 +277,14 @@ class Scene(object):
             # select only those from the two frames:
             in_arr = np.array([True if tr in trajids else False \
                 for tr in arr_trids])
-            in_next_arr = np.array([True if tr in trajids else False \
-                for tr in next_arr_trids])
             
             if len(in_arr) > 0:
                 arr = arr[in_arr]
-            if len(in_next_arr) > 0:
-                next_arr = next_arr[in_next_arr]
+            
+            # Rows of the two frames must match, so follow the first's order:
+            next_rows = dict((tr, row) for row, tr in enumerate(next_arr_trids))
+            next_arr = next_arr[np.array(
+                [next_rows[tr] for tr in arr['trajid']], dtype=np.int64)]
             
             # format as ParticleSnapshot.
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
-- 
2.43.0


From a25cb51f19e2f1eabc2c49b8ef11b55a58b24a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:19 +0000
Subject: [PATCH 12/74] fix: DualScene kept the temporary frame range when
 iteration stopped early

---
 flowtracks/scene.py | 58 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index b20d209..5d38233 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -424,17 +424,19 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for particles, tracers in zip(
-            self._particles.iter_frames(), self._tracers.iter_frames()):
-            frame = Frame()
-            frame.tracers = tracers
-            frame.particles = particles
-            yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for particles, tracers in zip(
+                self._particles.iter_frames(), self._tracers.iter_frames()):
+                frame = Frame()
+                frame.tracers = tracers
+                frame.particles = particles
+                yield frame
+        
+        # restore original frame range, also if not iterating to the end.
+        finally:
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -456,22 +458,24 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for part_frames, tracer_frames in zip(
-            self._particles.iter_segments(), self._tracers.iter_segments()):
-            frame = Frame()
-            frame.tracers = tracer_frames[0]
-            frame.particles = part_frames[0]
-            
-            next_frame = Frame()
-            next_frame.tracers = tracer_frames[1]
-            next_frame.particles = part_frames[1]
-            
-            yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for part_frames, tracer_frames in zip(
+                self._particles.iter_segments(), self._tracers.iter_segments()):
+                frame = Frame()
+                frame.tracers = tracer_frames[0]
+                frame.particles = part_frames[0]
+                
+                next_frame = Frame()
+                next_frame.tracers = tracer_frames[1]
+                next_frame.particles = part_frames[1]
+                
+                yield frame, next_frame
+        
+        # restore original frame range, also if not iterating to the end.
+        finally:
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From 3111f17773b320bcd46199e6604218f473b3afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 13/74] fix: Sequence was not an iterator on Python 3

---
 flowtracks/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..c78f301 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -220,6 +220,8 @@ class Sequence(object):
         
         return frame, next_frame
     
+    __next__ = next # Python 3
+    
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
         Iterate over frames, for each frame call a function that generates a
-- 
2.43.0


From 677de6e915974a96657ed3ce95d57d1fe770014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 14/74] fix: Sequence iteration after tracer_trajectories() had
 no tracer schema

---
 flowtracks/sequence.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index c78f301..51b33fd 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -168,8 +168,6 @@ class Sequence(object):
         # Make sure the particle trajectory cache is populated.
         self.particle_trajectories()
         self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
         
         # Make sure the tracers cache is populated:
         self.tracer_trajectories()
-- 
2.43.0


From 14763e4ea4e73b6ef8653e7c67d95ea3347b5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:04 +0000
Subject: [PATCH 15/74] fix: Sequence kept the subrange of an unfinished
 iter_subrange()

---
 flowtracks/sequence.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 51b33fd..eeddc64 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -5,6 +5,7 @@ from .io import trajectories, infer_format
 from .particle import Particle
 from .trajectory import take_snapshot, trajectories_in_frame, Frame
 from configparser import ConfigParser
+from copy import copy
 import numpy as np
 
 class Sequence(object):
@@ -33,6 +34,7 @@ class Sequence(object):
         self.frate = frate
         
         self._rng = frange
+        self._act_rng = frange # active range, see iter_subrange()
         self._ptmpl = part_tmpl
         self._trtmpl = tracer_tmpl
         self._smooth = smooth_tracers
@@ -160,9 +162,6 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
-        
         self._frame = self._act_rng[0]
         
         # Make sure the particle trajectory cache is populated.
@@ -188,12 +187,16 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
+        # Iterate over another object with the same (cached) trajectories, so that
+        # this one keeps its range even if the iteration is not finished.
+        self.particle_trajectories()
+        self.tracer_trajectories()
+        seq = copy(self)
+        seq._act_rng = (first, last)
+        return seq
     
     def next(self):
         if self._frame == self._act_rng[1]:
-            del self._act_rng
             raise StopIteration
         
         frame = Frame()
-- 
2.43.0


From 43bdf44cb9ae98dc673349e3b2d823194291626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 16/74] fix: read_sequence() failed on the saved config of a
 default Sequence

---
 flowtracks/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index eeddc64..206eea8 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -15,7 +15,7 @@ class Sequence(object):
     iteration and trajectory-mapping.
     """
     def __init__(self, frange, frate, particle, part_tmpl, tracer_tmpl,
-                 smooth_tracers=False, traj_min_len=0.):
+                 smooth_tracers=False, traj_min_len=0):
         """
         Arguments:
         frange - tuple, (first frame #, after last frame #)
-- 
2.43.0


From bb4e74c750d6312f4622017a81eecb01e8a1342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 17/74] fix: savitzky_golay() used the removed np.mat

---
 flowtracks/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..00a74cf 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,8 +64,8 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A
+    b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b)
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From a519ab216a372181649a8dafbc2d609d097037e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 18/74] fix: savitzky_golay() with polynomials of order below 3

---
 flowtracks/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 00a74cf..352f9b9 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -65,7 +65,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # precompute coefficients
     b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b)
+    m = np.zeros((max(order + 1, 4), window_size))
+    m[:order + 1] = np.linalg.pinv(b) # Higher derivatives are 0.
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 128e4f680037a4dd2dcdaa8aa821b44e0284aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:22 +0000
Subject: [PATCH 19/74] fix: savitzky_golay() on smoothed trajectories kept the
 old vel_pp

---
 flowtracks/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 352f9b9..d8f2573 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,8 +60,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
-        'trajid']
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 
+        'time', 'trajid']
     
     # precompute coefficients
     b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-- 
2.43.0


From e229ab0be669f0bb14cd76c50fb42d414a9f1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:40 +0000
Subject: [PATCH 20/74] fix: trajectories() with iter_allowed on Python 3

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index dae24de..22996b8 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -15,7 +15,7 @@ The rest of the content of this module is composed of readers and writers for
 the various formats. They are documented here alongside the main entry points,
 so that users may access them directly if needed.
 """
-import os, os.path, re, itertools as itr
+import os, os.path, re
 from configparser import ConfigParser
 from io import StringIO
 
@@ -522,7 +522,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From c2716692a75bc485a5a56556809cc86f18400598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:40 +0000
Subject: [PATCH 21/74] fix: trajectories() excluded the last frame of the
 range in HDF5 files

---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 22996b8..ae20342 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -510,7 +510,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
+        # Here the range is inclusive, for Scene it is not.
+        scene = Scene(fname, (first, None if last is None else last + 1))
         it = scene.iter_trajectories()
         if iter_allowed:
             traj = it
-- 
2.43.0


From 668ae7dcc62a5998a1296121d7794a5f2e38fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:40 +0000
Subject: [PATCH 22/74] fix: one-particle frames in single-file ptv_is data
 were ignored

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index ae20342..ed11936 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -97,8 +97,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt,
-            usecols=cols)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt, usecols=cols))
     
     def __iter__(self):
         return self
-- 
2.43.0


From 6465efb8fa58e444c37e55cc3d80b00a6364add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:40 +0000
Subject: [PATCH 23/74] fix: reading single-file ptv_is data stopped at the
 first empty frame

---
 flowtracks/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index ed11936..d6dc8a3 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -116,11 +116,11 @@ class SingleFileIterator(object):
         lines = []
         for line in self._f:
             if re.match(r'^\s*$', line):
-                break
+                break # Right away if the frame is empty.
             lines.append(line)
-        
-        if len(lines) == 0:
-            raise StopIteration # EOF
+        else:
+            if len(lines) == 0:
+                raise StopIteration # EOF
         
         str_tbl = StringIO("".join(lines))
         frame = self._read_frame(str_tbl)
-- 
2.43.0


From fbfe81dd1c5bf98f968d23613705f55fb6684d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:40 +0000
Subject: [PATCH 24/74] fix: single-file ptv_is data file was not closed

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index d6dc8a3..b3bac83 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -127,7 +127,7 @@ class SingleFileIterator(object):
         self._frmix += 1
         return curframenum, frame
     
-    def __def__(self):
+    def __del__(self):
         self._f.close()
     
 def collect_particles(fname_tmpl, frame, path_seg=False):
-- 
2.43.0


From 1e9d1bf460a0b047dcda5ab6ec698aa3c826daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 25/74] fix: other files in the directory were taken for frame
 files

---
 flowtracks/io.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index b3bac83..dad6166 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -28,6 +28,19 @@ from .particle import Particle
 from .trajectory import Trajectory, mark_unique_rows, \
     Frame, take_snapshot, trajectories_in_frame
 
+def frame_file_pattern(basename):
+    """
+    Generates a regular expression for the names of frame files, and no others.
+    
+    Arguments:
+    basename - a template file name, with exactly one '%d' representing the 
+        frame number.
+    
+    Returns:
+    the compiled expression, whose first group is the frame number.
+    """
+    return re.compile(
+        r'(\d+)'.join(re.escape(part) for part in basename.split('%d', 1)) + '$')
 
 class FramesIterator(object):
     def __init__(self, fname_tmpl, fmt, skip, first=None, last=None, cols=None):
@@ -47,7 +60,7 @@ class FramesIterator(object):
                 usecols=cols))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = frame_file_pattern(basename)
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
@@ -227,7 +240,7 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = frame_file_pattern(basename)
     
     for fname in os.listdir(dirname):
         match = is_data_file.match(fname)
-- 
2.43.0


From 190c99b745e6003e86b658f9cd9e90fc6e9e2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 26/74] fix: reading frame files from the current directory

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index dad6166..50256f8 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -65,7 +65,7 @@ class FramesIterator(object):
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or '.'):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
@@ -242,7 +242,7 @@ def trajectories_acc(fname, first=None, last=None):
     dirname, basename = os.path.split(os.path.expanduser(fname))
     is_data_file = frame_file_pattern(basename)
     
-    for fname in os.listdir(dirname):
+    for fname in os.listdir(dirname or '.'):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
-- 
2.43.0


From 4245302b387e07c7595ded3b69ffe0ae1b84b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 27/74] fix: trajectories_acc() depended on directory order and
 excluded the last frame

---
 flowtracks/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 50256f8..3f1f8f6 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -242,13 +242,14 @@ def trajectories_acc(fname, first=None, last=None):
     dirname, basename = os.path.split(os.path.expanduser(fname))
     is_data_file = frame_file_pattern(basename)
     
-    for fname in os.listdir(dirname or '.'):
-        match = is_data_file.match(fname)
-        if match is None: continue
+    # Files are listed in arbitrary order.
+    matches = filter(None, map(is_data_file.match, os.listdir(dirname or '.')))
+    for match in sorted(matches, key=lambda match: int(match.group(1))):
+        fname = match.group(0)
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
+        if last is not None and frame > last: break
         
         table = np.loadtxt(os.path.join(dirname, fname),
             usecols=(0,1,2,3,4,5,6,7,8,33))
-- 
2.43.0


From ea97d94d57c47d4319445e8272b0569ca05f4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 28/74] fix: reading trajAcc files with one line

---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3f1f8f6..c769b1c 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -168,7 +168,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -252,7 +253,7 @@ def trajectories_acc(fname, first=None, last=None):
         if last is not None and frame > last: break
         
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From f867ed6259aeb5345c61d99de57f230a22974279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 29/74] fix: collect_particles() stopped at the first file with
 no path long enough

Earlier files may still have one.
---
 flowtracks/io.py         | 4 ----
 flowtracks/trajectory.py | 3 +++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index c769b1c..244fb4a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -180,10 +180,6 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
         selected.append(in_frame)
         cur_frame -= 1
     
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index da6679d..ad67b5b 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -229,6 +229,9 @@ def mark_unique_rows(all_rows):
     an array with the indices of rows to take from the input such that in the
     result, the first 3 columns form a unique combination.
     """
+    if len(all_rows) == 0:
+        return np.empty(0, dtype=np.int64)
+    
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-- 
2.43.0


From cf965717d6c0b784719665aa26a36b47e980ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 30/74] fix: wrong shape of empty result from
 collect_particles_generic()

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 244fb4a..2e799b7 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -608,7 +608,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
-- 
2.43.0


From 176d24f98353b635f6d546c71b4673266bf50936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 31/74] fix: particle_pairs() mixed up pairs of particles in
 the same frame

Also fix it for trajectories with float time, trajectories with holes and sets
of different properties.
---
 flowtracks/pairs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..848faa4 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -62,12 +62,17 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             pair_time[coord_locator] = -1
             continue
             
-        sec_parts = take_snapshot(sec_in_frame, frame_num, schema)
+        sec_parts = take_snapshot(sec_in_frame, frame_num, 
+            sec_in_frame[0].schema())
         
         dists_sq = np.sum(
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
-        pair_ixs = np.argmin(dists_sq, axis=1)
+        
+        # Go from the order of snapshot particles to that of the request.
+        prim_rows = dict((t, row) for row, t in enumerate(prim_parts.trajid()))
+        prim_rows = [prim_rows[t] for t in trajids[coord_locator]]
+        pair_ixs = np.argmin(dists_sq, axis=1)[prim_rows]
         pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
         pair_time[coord_locator] = frame_num # later transformed.
     
@@ -77,6 +82,7 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        paired = pair_trids == trid
+        pair_time[paired] = np.searchsorted(traj.time(), pair_time[paired])
         
     return pair_trids, pair_time
-- 
2.43.0


From a12b654e253db5279dbdd0016c7d849b9b9b2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 32/74] fix: interpolation at the position of a tracer that is
 not the companion

Two neighbours are removed then, which failed or mixed up neighbours.
---
 flowtracks/interpolation.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..ba86169 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -351,16 +351,23 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
+        # Ask for spare neighbours because some may be removed, either for being
+        # in the same position as the interp points or being its companion.
+        spare = 1 if comp is None else 2
         dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+            interp_pts, self._neighbs + spare, distance_upper_bound=self._upb)
         keep = dists > 0.
         
         if comp is not None:
             keep &= active_neighbs != comp[:, None]
         
-        keep[np.all(keep, axis=1), -1] = False
-        dists = dists[keep].reshape(-1, self._neighbs)
-        active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
+        # Of those kept, take the nearest.
+        nearest = np.argsort(~keep, axis=1, kind='stable')[:,:self._neighbs]
+        dists = np.take_along_axis(
+            np.where(keep, dists, np.inf), nearest, axis=1)
+        active_neighbs = np.take_along_axis(
+            np.where(keep, active_neighbs, self.__tracers.shape[0]), nearest,
+            axis=1)
         
         return dists, active_neighbs
         
@@ -368,9 +375,6 @@ class GeneralInterpolant(object):
         """
         Populate the neighbours cache.
         """
-        # Take one more neighbour because one will be removed, either for 
-        # being in the same position as the interp points or being its 
-        # companion (worst case, the extra farthest neighbour is removed).
         self.__dists, self.__active_neighbs = self._select_neighbs(
             self.__interp_pts, self.__comp)
         
-- 
2.43.0


From 0cadb20b3eacaf8d5ce0451aa61abb8c8b573ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 33/74] fix: interpolation results included uninitialised
 memory

Missing neighbours have weight 0, but the data used for them could be anything,
including NaN and infinity.
---
 flowtracks/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index ba86169..4e79bc2 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -379,7 +379,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -417,7 +417,7 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
+            self.__matched_data = np.zeros(
                 self.__active_neighbs.shape + (self.__tracers.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
@@ -734,7 +734,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From 3a72e0a52a990ace168313dc993890fe441b4975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 34/74] fix: eulerian_jacobian() of data that is not
 3-dimensional

---
 flowtracks/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 4e79bc2..828fd99 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -418,7 +418,7 @@ class GeneralInterpolant(object):
         """
         if self.__matched_data is None:
             self.__matched_data = np.zeros(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
-- 
2.43.0


From 3cb54adef8c2bb2c32c1144d0e4bd011c52939be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 35/74] fix: eulerian_jacobian() used old data after
 set_data_on_current_field()

---
 flowtracks/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 828fd99..be3c080 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -320,6 +320,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
-- 
2.43.0


From 313d2761cb8081e6913d60deca0e9d387093db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:57 +0000
Subject: [PATCH 36/74] fix: inverse-distance weights were not updated by
 set_field_positions()

---
 flowtracks/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index be3c080..f6db086 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -668,6 +668,12 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _forego_laziness(self):
+        """
+        Adds to the base class the calculation of weights.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
-- 
2.43.0


From 058bb77c219ae49ccb46ac7990819f05fcfc7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 37/74] fix: trim_points() left some of the recorded scene
 untrimmed

Calculating the jacobian failed or gave results of other points after it.
---
 flowtracks/interpolation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index f6db086..8ef120e 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -332,9 +332,15 @@ class GeneralInterpolant(object):
         """
         keep = ~which
         self.__interp_pts = self.__interp_pts[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        if self.__matched_data is not None:
+            self.__matched_data = self.__matched_data[keep]
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
@@ -669,6 +675,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
         
         self._forego_laziness()
     
+    def _drop_neighbours_cache(self):
+        GeneralInterpolant._drop_neighbours_cache(self)
+        self.__weights = None
+    
     def _forego_laziness(self):
         """
         Adds to the base class the calculation of weights.
@@ -686,7 +696,8 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        self.__weights = self.__weights[~which]
+        if self.__weights is not None:
+            self.__weights = self.__weights[~which]
         
     def _apply_weights(self, weights, data):
         """
-- 
2.43.0


From fe866f8d4a67c011f13463eb74cc7c49cc171854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:39 +0000
Subject: [PATCH 38/74] fix: interpolate() with rbf and corrfun took neighbour
 indices for a mask

---
 flowtracks/interpolation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 8ef120e..1b7c290 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -474,12 +474,21 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # These methods expect (m,n) arrays for all tracers, with a boolean
+        # selection, rather than (m,k) for the nearest ones. An extra column is
+        # for missing neighbours.
+        dists = np.linalg.norm(
+            self.__tracers[None, :, :] - self.__interp_pts[:, None, :], axis=2)
+        use_parts = np.zeros((dists.shape[0], dists.shape[1] + 1), dtype=bool)
+        np.put_along_axis(use_parts, act_neighbs, True, axis=1)
+        use_parts = use_parts[:, :-1]
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
-- 
2.43.0


From 9fa9e178c91f603def03b220fe2f1ab7e71ef3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 39/74] fix: rbf interpolation excluded companions from the
 wrong rows

The companions are of interpolation points, not of tracers.
---
 flowtracks/interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 1b7c290..a104c8d 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -394,8 +394,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -532,7 +531,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From f981ba983d31e929f8da5b30bc99841895c7ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 40/74] fix: select_neighbs() selected excluded tracers if
 there are few

---
 flowtracks/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index a104c8d..86b556b 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -69,6 +69,9 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        
+        # If there are not enough tracers, excluded ones were also sorted in.
+        use_parts[np.isinf(dists)] = False
 
     else:
         use_parts = dists < radius
@@ -599,7 +602,8 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            used = dists[pt, use_parts[pt]]
+            ndists[pt, :len(used)] = used
         
         return ndists
     
-- 
2.43.0


From 0f8c180481f6a9c5436aa21a8024477137f05935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:57 +0000
Subject: [PATCH 41/74] fix: corrfun interpolation with a one-dimensional
 correlation function

---
 flowtracks/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 86b556b..3012b07 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -103,7 +103,7 @@ def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
         interpolation point, [units of ``data``].
     """
     weights = np.zeros(dists.shape + (data.shape[-1],))
-    weights[use_parts] = corrs_hist[
+    weights[use_parts] = corrs_hist.reshape(len(corrs_bins), -1)[
         np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
     
     vel_avg = (weights * data[None, ...]).sum(axis=1) / \
-- 
2.43.0


From 214844df7747f7a3587108c31db46f7537984fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 42/74] fix: interpolant configuration round trip without
 radius or for corrfun

read_interpolant() failed on the config saved for an interpolant with no
radius ('None' is not a number), and read the corrfun file name as a number.
---
 flowtracks/interpolation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 3012b07..9ac8741 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -618,9 +618,12 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        if self.radius() is None:
+            cfg.remove_option('Interpolant', 'radius')
+        else:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -828,6 +831,10 @@ def read_interpolant(conf_fname):
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        if parser.get('Interpolant', 'method') == 'corrfun':
+            # A file name.
+            kwds['param'] = parser.get('Interpolant', 'param')
+        else:
+            kwds['param'] = parser.getfloat('Interpolant', 'param')
     
     return interpolant(parser.get('Interpolant', 'method'), **kwds)
-- 
2.43.0


From f59676344f42285cec2f9f3e88c2f1bbf5539492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 43/74] fix: off-scene inverse-distance interpolation

Calling an InverseDistanceWeighter, as documented, raised
NotImplementedError.
---
 flowtracks/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 9ac8741..1864f4c 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -749,7 +749,11 @@ class InverseDistanceWeighter(GeneralInterpolant):
         vel_interp - an (m,3) array with the interpolated value at the position
             of each particle, [m/s].
         """
-        raise NotImplementedError()
+        # A separate object, so that the recorded scene stays.
+        interp = InverseDistanceWeighter(
+            self._neighbs, self._radius, self._par)
+        interp.set_scene(tracer_pos, interp_points, data, companionship)
+        return interp.interpolate()
         
     def _meth_interp(self, act_neighbs=None):
         """
-- 
2.43.0


From 9aa1234cf478d4c83e01644cd407f728f95fab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:33 +0000
Subject: [PATCH 44/74] fix: finite-difference jacobian included companion
 tracers

The interpolation at the shifted points used the companions that the
interpolation at the points themselves excludes.
---
 flowtracks/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 1864f4c..ec8f262 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -564,13 +564,13 @@ class GeneralInterpolant(object):
         if local_interp is None:
             local_interp = self.interpolate()
 
-        ret = np.empty((self.__interp_pts.shape[0], 3, 3))
+        ret = np.empty((self.__interp_pts.shape[0], self.__data.shape[1], 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp) 
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From d43083856ccea87efa4a2303ce6226016ba9b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 45/74] fix: analyse_fhdf.py used --param as the search radius

---
 scripts/analyse_fhdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..bfe3d05 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,11 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    param = args.param
+    if param is not None and args.method != 'corrfun':
+        param = float(param)
+    
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 7375b22dea9f2dc99506cac81b7d8c25008342e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 46/74] fix: reading one-point trajectories from mat files

Their time was a scalar, so looking for a frame in it failed.
---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2e799b7..a38d05b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -216,7 +216,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = traj['t'].ravel()
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0


From af9dc9428cbf449eee58a474769bcf7b1e5637e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 47/74] fix: trajectories() gave empty trajectories from HDF5
 files

With traj_min_len=0, the default for a Sequence, trajectories out of the
frame range were included with no points, and iterating the Sequence failed.
---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index a38d05b..5cc90d9 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -523,7 +523,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     elif fmt == 'hdf':
         # Here the range is inclusive, for Scene it is not.
         scene = Scene(fname, (first, None if last is None else last + 1))
-        it = scene.iter_trajectories()
+        # Trajectories completely out of range are empty.
+        it = filter(len, scene.iter_trajectories())
         if iter_allowed:
             traj = it
         else:
-- 
2.43.0


From f3510195e8b8b02e892e07f528a00eb68fce1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 48/74] fix: Sequence.save_config() with more than one % in a
 file name

---
 flowtracks/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 206eea8..269bd6c 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -306,8 +306,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(self._minlen))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
-- 
2.43.0


From 61a7a13f70121096dc3e1d4f5fdd30d3d49cb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 49/74] fix: format_docstrings dropped the text after a section
 title

---
 flowtracks/format_docstrings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/format_docstrings.py b/flowtracks/format_docstrings.py
index e0fa83d..990bb76 100644
--- a/flowtracks/format_docstrings.py
+++ b/flowtracks/format_docstrings.py
@@ -40,6 +40,9 @@ def parse_docstring(app, what, name, obj, options, lines):
             m = section_title.match(line)
             if m is not None:
                 section.extend(['*' + m.group(1) + '*', ''])
+                rest = line[m.end():].strip()
+                if rest != '':
+                    section.append(rest)
                 continue
         
         m = def_line.match(line)
-- 
2.43.0


From b0872490e53c2148563e7b5757407530877dd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 50/74] fix: Trajectory.smoothed() with splines of order 1

---
 flowtracks/trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index ad67b5b..fc61379 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -184,7 +184,10 @@ class Trajectory(ParticleSet):
         
         new_pos = np.array(interp.splev(eval_prms, spline)).T
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
-        new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
+        if order < 2:
+            new_accel = np.zeros_like(new_pos)
+        else:
+            new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
         
         return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
             accel=new_accel)
-- 
2.43.0


From 15a318a944b58b0abf0e2ad080f51b68e59f0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 51/74] fix: pdf_bins() with log bins lost extreme samples to
 rounding

---
 flowtracks/graphics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..a4a86c7 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -36,6 +36,7 @@ def pdf_bins(data, num_bins, log_bins=False):
         data = data[data > 0] 
         minv = np.min(data)
         bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        bins[0], bins[-1] = minv, data.max() # up to rounding, they are.
     else:
         bins = num_bins
     
-- 
2.43.0


From 4148610ac339946eed7f64a0bfd3844553110192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 52/74] fix: relative positions of neighbours were None before
 the first interpolation

---
 flowtracks/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index ec8f262..0acba3a 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -404,6 +404,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+                
         return self.__rel_pos
     
     def current_dists(self):
-- 
2.43.0


From b7ec38a3d662a66d9c98e47f0e3a27e207f69e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 53/74] fix: match analysis rows of a trajectory with its
 points by time

Trajectories with gaps have fewer analysed points than points less one, so
columns of different lengths, in which rows did not match, were returned.
---
 flowtracks/an_scene.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index e6fd468..76016a3 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -156,14 +156,18 @@ class AnalysedScene(object):
         """
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
-        # Trim last point of trajectory to match analysis:
-        kwds = dict((k, v[:-1]) for k, v in traj.as_dict().items())
-        kwds['trajid'] = trid
-        
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
         arr = self._table.read_where(query_string)
         
+        # Trim points that were not analysed (the last one, and those before a 
+        # gap in the trajectory), so that rows match:
+        rows = dict((t, row) for row, t in enumerate(traj.time()))
+        arr = arr[np.array([t in rows for t in arr['time']], dtype=bool)]
+        analysed = np.array([rows[t] for t in arr['time']], dtype=np.int64)
+        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
+        kwds['trajid'] = trid
+        
         # Update into the Trajectory object:
         for field in arr.dtype.fields:
             if field not in ['trajid', 'time']:
-- 
2.43.0


From b3f9bc30a7bd744f2c9cfafdb0e9cc2c1cf92fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 54/74] fix: collect() of an analysed scene doubled rows of
 keys given twice

---
 flowtracks/an_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 76016a3..6e552be 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -134,7 +134,7 @@ class AnalysedScene(object):
             
             # For each dual frame, add the columns of specified keys to the list
             # of that key's results
-            for k in keys:
+            for k in res:
                 if k in pkeys:
                     res[k].append(p_arr[k])
                 else:
-- 
2.43.0


From b85b81873ae969073f896be0435bb504881a66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 55/74] fix: particle pairs are found whatever the type of the
 indices

Frame numbers and trajectory ids were kept in arrays of the type of the
time indices given, and cut off if it was a smaller one.
---
 flowtracks/pairs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 848faa4..6537d4b 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -29,13 +29,13 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         returns -1 as the pair_time value.
     """
     # Output buffers:
-    pair_trids = np.empty_like(time_points)
-    pair_time = np.empty_like(time_points)
+    pair_trids = np.empty(len(time_points), dtype=np.int64)
+    pair_time = np.empty(len(time_points), dtype=np.int64)
     
     # Filter the primary set to only contain the trajectories actually required
     unique_prim = np.unique(trajids)
     prim_traj = [t for t in primary_trajects if t.trajid() in unique_prim]
-    frames = np.empty_like(time_points)
+    frames = np.empty(len(time_points), dtype=np.int64)
     
     # Typify primary/secondary on a per trajectory basis before combining them
     # into a single snapshot.
-- 
2.43.0


From 3b3fa9654e9704fc172b3648cc7606d1ff1f3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 56/74] fix: a frame without tracers does not keep the last
 frame's neighbours

After an empty field was set, the current neighbours and distances were
those of the tracers set before, and for a new interpolant asking for them
was an error.
---
 flowtracks/interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 0acba3a..4e91696 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -276,8 +276,6 @@ class GeneralInterpolant(object):
         """
         # Keep the original data, for B.C purposes mostly.
         self.__tracers = np.atleast_2d(positions)
-        if len(self.__tracers) == 0:
-            return
         self.__field_tree = cKDTree(positions)
         self._drop_neighbours_cache()
     
@@ -802,6 +800,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
         if local_interp is None:
             local_interp = self.interpolate()
         
+        # Without tracers, interpolation gives zeros everywhere.
+        if len(self.field_positions()) == 0:
+            return np.zeros(local_interp.shape + (3,))
+        
         dists = self.current_dists()
         use_parts = self.current_active_neighbs()
         rel_pos = self.current_relative_positions()
-- 
2.43.0


From ce4c6969aafb7d3fbaf94609588f1f1eb9c3f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 57/74] fix: conditions with infinite limits, or whole numbers
 too large for a float

---
 flowtracks/scene.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 5d38233..5a25b8e 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -34,6 +34,23 @@ def pairwise(iterable):
     next(b, None)
     return zip(a, b)
 
+def gen_limit_string(key, cop, limit):
+    """
+    Create the part of a query string that compares with one limit.
+    
+    Arguments:
+    key - name of search field.
+    cop - the comparison operator.
+    limit - the number to compare with, may be infinite.
+    """
+    if limit in (np.inf, -np.inf):
+        # There is no name for it in queries, and an index on an integer column 
+        # can't be searched for it, but isn't used for expressions.
+        return "(%s * 1. %s %s1e999)" % (key, cop, '-' if limit < 0 else '')
+    if isinstance(limit, (int, np.integer)):
+        return "(%s %s %d)" % (key, cop, limit)
+    return "(%s %s %.17g)" % (key, cop, limit)
+
 def gen_query_string(key, range_spec):
     """
     A small utility to create query string suitable for PyTables' 
@@ -59,8 +76,8 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
-        (key, cop1, smin, lop, key, cop2, smax)
+    cond_string = "(%s %s %s)" % (gen_limit_string(key, cop1, smin), lop,
+        gen_limit_string(key, cop2, smax))
     
     return cond_string
     
-- 
2.43.0


From cf5a035704f384ce68f14bc4e98eff70a4bd2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 58/74] fix: times from mat files have one type

---
 flowtracks/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 5cc90d9..fec9b08 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -204,7 +204,9 @@ def trajectories_mat(fname):
     trajects - a list of :class:`~flowtracks.trajectory.Trajectory` objects,
         one for each trajectory contained in the mat file.
     """
-    data = io.loadmat(os.path.expanduser(fname))
+    # Matlab stores whole numbers in small types, not the same one for all 
+    # trajectories.
+    data = io.loadmat(os.path.expanduser(fname), mat_dtype=True)
     # Get the workspace variable holding the trajectories:
     data_name = [s for s in data.keys() \
         if (not s.startswith('__')) and (not s == 'directory')][0]
-- 
2.43.0


From bf057b43fde0498b18b652410b7e95c8225736a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 59/74] fix: data not in the machine's byte order can be saved

---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index fec9b08..2fbf809 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -731,7 +731,7 @@ def save_particles_table(filename, trajects, trim=None):
             # Format of records in a trajectory array :
             fields = [('trajid', int)] + [(field, arr.dtype, arr.shape[1:]) \
                 for field, arr in traj.as_dict().items()]
-            dtype = np.dtype(fields)
+            dtype = np.dtype(fields).newbyteorder('=')
             table = outfile.create_table('/', 'particles', dtype)
 
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
@@ -780,7 +780,7 @@ def save_frames_hdf(filename, frames):
             # Format of records in a frame array:
             fields = [('time', int)] + [(field, arr.dtype, arr.shape[1:]) \
                 for field, arr in frame.as_dict().items()]
-            dtype = np.dtype(fields)
+            dtype = np.dtype(fields).newbyteorder('=')
             table = outfile.create_table('/', 'particles', dtype)
         
         min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)
-- 
2.43.0


From b2d34f692bc54a934d0009a84577f089c0206645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 60/74] fix: snapshots hold values of all trajectories' types

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index fc61379..4f25e6c 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -306,7 +306,7 @@ def take_snapshot(trajects, frame, schema):
 
     kwds = dict((k, np.empty(
         (len(trajects),) + v, 
-        dtype=trajects[0].__dict__['_' + k].dtype)) \
+        dtype=np.result_type(*[tr.__dict__['_' + k].dtype for tr in trajects]))) \
         for k, v in schema.items())
 
     copy_keys = list(kwds.keys())
-- 
2.43.0


From 6e7a3b869c92dcd561a34f6a86c9783d0b1d721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 61/74] fix: companion indices are not bound by the type of the
 ids

---
 flowtracks/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index d8b855d..62f0212 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -20,7 +20,7 @@ def companion_indices(trids, companions):
     Return an array giving for each companion its respective index in the 
     trajectory ID array, or a negative number if not found.
     """
-    comp = np.full_like(companions, -1)
+    comp = np.full(companions.shape, -1)
     idx = np.nonzero(trids[:,None] == companions)
     comp[idx[1]] = idx[0]
     return comp
-- 
2.43.0


From f684a15eaf85ca32d40cc3a55489bd214558c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 62/74] fix: time series of trajectories with gaps have only
 the results there are

---
 flowtracks/sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 269bd6c..7941991 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -256,7 +256,8 @@ class Sequence(object):
         # Initialize result buffer and frame counter per trajectory.
         for tr in trajects:
             trid = tr.trajid()
-            t = tr.time()[:-1]
+            # Only frames from which it goes on, there may be gaps.
+            t = tr.time()[:-1][np.diff(tr.time()) == 1]
             
             # This handles trajectories partly out of subrange bounds.
             in_range = (t >= subrange[0]) & (t < subrange[1])
-- 
2.43.0


From a92b7bc80d827fad8ff97e16966b28504aa1bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 63/74] fix: smoothing of trajectories that stand still for
 some frames

---
 flowtracks/trajectory.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 4f25e6c..ec66758 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -175,12 +175,20 @@ class Trajectory(ParticleSet):
         
         Returns:
         a new :class:`Trajectory` object with the interpolated positions and 
-        velocities. If the length of the trajectory < 4, returns self.
+        velocities. If the length of the trajectory < 4, or it passes through 
+        too few places, returns self.
         """
         if len(self.time()) < order + 1: return self
         s = (len(self.time()) * err_bound)**2
         
-        spline, eval_prms = interp.splprep(list(self.pos().T), k=order, s=s)
+        # While the particle stands still, the same place counts several times.
+        place = np.r_[0, np.cumsum(np.any(np.diff(self.pos(), axis=0), axis=1))]
+        if place[-1] < order: return self
+        _, first, count = np.unique(place, return_index=True, return_counts=True)
+        
+        spline, eval_prms = interp.splprep(list(self.pos()[first].T), 
+            w=np.sqrt(count), k=order, s=s)
+        eval_prms = eval_prms[place]
         
         new_pos = np.array(interp.splev(eval_prms, spline)).T
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
-- 
2.43.0


From 9d72cdf73014a0e3c102e2747bbedbce98e729ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 64/74] fix: iterate over sequences with no particles or no
 tracers

---
 flowtracks/sequence.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 7941991..d335a65 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -3,7 +3,7 @@
 
 from .io import trajectories, infer_format
 from .particle import Particle
-from .trajectory import take_snapshot, trajectories_in_frame, Frame
+from .trajectory import take_snapshot, trajectories_in_frame, Frame, Trajectory
 from configparser import ConfigParser
 from copy import copy
 import numpy as np
@@ -123,8 +123,8 @@ class Sequence(object):
         
         # Also caches the starts and ends of trajectories, so that accessing
         # only the ones relevant to a specific frame is easier.
-        start_end = [(tr.time()[0], tr.time()[-1]) for tr in self.__ptraj]
-        self.__pstarts, self.__pends =  map(np.array, zip(*start_end))
+        self.__pstarts = np.array([tr.time()[0] for tr in self.__ptraj])
+        self.__pends = np.array([tr.time()[-1] for tr in self.__ptraj])
         
         return self.__ptraj
     
@@ -147,8 +147,8 @@ class Sequence(object):
         
         # Also caches the starts and ends of trajectories, so that accessing
         # only the ones relevant to a specific frame is easier.
-        start_end = [(tr.time()[0], tr.time()[-1]) for tr in self.__ttraj]
-        self.__tstarts, self.__tends =  map(np.array, zip(*start_end))
+        self.__tstarts = np.array([tr.time()[0] for tr in self.__ttraj])
+        self.__tends = np.array([tr.time()[-1] for tr in self.__ttraj])
             
         return self.__ttraj
         
@@ -166,15 +166,22 @@ class Sequence(object):
         
         # Make sure the particle trajectory cache is populated.
         self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
+        self.__schema = self._schema(self.__ptraj)
         
         # Make sure the tracers cache is populated:
         self.tracer_trajectories()
         
-        self.__tschem = self.__ttraj[0].schema()
+        self.__tschem = self._schema(self.__ttraj)
         
         return self
     
+    def _schema(self, trajects):
+        # Without trajectories, that of a basic one is used.
+        if len(trajects) == 0:
+            nothing = np.empty((0, 3))
+            trajects = [Trajectory(nothing, nothing, np.empty(0), 0)]
+        return trajects[0].schema()
+    
     def iter_subrange(self, first, last):
         """
         The same as :meth:`__iter__`, except it changes the frame range for 
-- 
2.43.0


From dce19d0a6dea2e83150db2a9d9661bc1e6138b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 65/74] fix: read no trajectories if no frame file is in the
 range

---
 flowtracks/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2fbf809..31bab6b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -314,7 +314,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         frm_iter = SingleFileIterator(fname, fmt, cols)
     
     # In the first frame, every particle starts a trajectory.
-    frame_num, table = next(frm_iter)    
+    try:
+        frame_num, table = next(frm_iter)
+    except StopIteration:
+        return # No frames in range.
     
     pos = table['pos']
     if not xuap: pos /=1000.
-- 
2.43.0


From 84085927547c1f03c8684017b890af4d73366ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 66/74] fix: read trajectories of one frame also if they are in
 the first one

---
 flowtracks/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 31bab6b..b05a73b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -344,7 +344,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     if ending.any():
         ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
         for trid in ending_trids:
-            trajects[trid] = frame[frame[:,-1] == trid]
+            if traj_min_len > 1: break
+            traj = frame[frame[:,-1] == trid]
+            yield Trajectory(traj[:,:3], traj[:,3:6], traj[:,6], int(trid),
+                accel=np.zeros((1,3)))
     
     frame_buffer_start = 0
     
-- 
2.43.0


From 4dcfc3a34617286b8502890cc865a9cf081f699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 67/74] fix: frame data and pairs also when there are no
 trajectories or points

---
 flowtracks/io.py         |  6 +++---
 flowtracks/pairs.py      |  4 ++--
 flowtracks/sequence.py   | 13 +++----------
 flowtracks/trajectory.py | 10 ++++++++++
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index b05a73b..5d71c41 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -26,7 +26,7 @@ import tables
 from .scene import Scene
 from .particle import Particle
 from .trajectory import Trajectory, mark_unique_rows, \
-    Frame, take_snapshot, trajectories_in_frame
+    Frame, take_snapshot, trajectories_in_frame, common_schema
 
 def frame_file_pattern(basename):
     """
@@ -666,10 +666,10 @@ def read_frame_data(conf_fname):
     for frame_num in [first_frame, first_frame + 1]:
         frame = Frame()
         frame.tracers = take_snapshot([tracer_trjs[t] for t in tracer_ixs], 
-            frame_num, tracer_trjs[0].schema())
+            frame_num, common_schema(tracer_trjs))
     
         frame.particles = take_snapshot([part_trjs[t] for t in part_ixs],
-            frame_num, part_trjs[0].schema())
+            frame_num, common_schema(part_trjs))
         
         data.append(frame)
 
diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 6537d4b..11f4f08 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -6,7 +6,7 @@ Pair particles to closest tracers.
 """
 
 import numpy as np
-from .trajectory import trajectories_in_frame, take_snapshot
+from .trajectory import trajectories_in_frame, take_snapshot, common_schema
 
 def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     """
@@ -44,7 +44,7 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         frames[traj_coords] = traj.time(time_points[traj_coords])
 
     unique_frames = np.unique(frames)
-    schema = prim_traj[0].schema()
+    schema = common_schema(prim_traj)
     
     # For each frame, create snapshots and compare positions.
     for frame_num in unique_frames:
diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index d335a65..61ca01a 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -3,7 +3,7 @@
 
 from .io import trajectories, infer_format
 from .particle import Particle
-from .trajectory import take_snapshot, trajectories_in_frame, Frame, Trajectory
+from .trajectory import take_snapshot, trajectories_in_frame, common_schema, Frame
 from configparser import ConfigParser
 from copy import copy
 import numpy as np
@@ -166,22 +166,15 @@ class Sequence(object):
         
         # Make sure the particle trajectory cache is populated.
         self.particle_trajectories()
-        self.__schema = self._schema(self.__ptraj)
+        self.__schema = common_schema(self.__ptraj)
         
         # Make sure the tracers cache is populated:
         self.tracer_trajectories()
         
-        self.__tschem = self._schema(self.__ttraj)
+        self.__tschem = common_schema(self.__ttraj)
         
         return self
     
-    def _schema(self, trajects):
-        # Without trajectories, that of a basic one is used.
-        if len(trajects) == 0:
-            nothing = np.empty((0, 3))
-            trajects = [Trajectory(nothing, nothing, np.empty(0), 0)]
-        return trajects[0].schema()
-    
     def iter_subrange(self, first, last):
         """
         The same as :meth:`__iter__`, except it changes the frame range for 
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index ec66758..5c808c3 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -292,6 +292,16 @@ def trajectories_in_frame(trajects, frame_num,
     
     return cand_nums
 
+def common_schema(trajects):
+    """
+    Returns the schema of the given trajectories, for use with 
+    :func:`take_snapshot`. If there are none, it is that of a basic trajectory.
+    """
+    if len(trajects) == 0:
+        nothing = np.empty((0, 3))
+        trajects = [Trajectory(nothing, nothing, np.empty(0), 0)]
+    return trajects[0].schema()
+
 def take_snapshot(trajects, frame, schema):
     """
     Goes over a list of trajectories and extracts the particle data at a given
-- 
2.43.0


From e9a738846e4ed0a0396d7698820faf060cfd8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 68/74] fix: a wrong frame range leaves the scene's range as it
 was

---
 flowtracks/scene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 5a25b8e..1885ad1 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -133,6 +133,11 @@ class Scene(object):
             None, in which case no limit is generated for it, and for no limits
             at all, passing none instead of a tuple is acceptable.
         """
+        if frame_range is not None:
+            # Wrong limits are refused here, before anything changes.
+            first, last = frame_range
+            ["%d" % lim for lim in (first, last) if lim is not None]
+        
         self._frame_limit = ""
         
         if frame_range is None:
-- 
2.43.0


From 407217eeb952e1c67e9c11f9bd75d7c014068247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 69/74] fix: close the analysis file also if an analyser fails

---
 flowtracks/analysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 62f0212..41ce8ff 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -113,6 +113,15 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     frame_range - if -1 no adjustment is necessary, otherwise see 
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
+    with tables.open_file(analysis_file, "w",
+        title="Analysis results.") as outfile:
+        _write_analysis(outfile, scene, conf_file, analysers, frame_range)
+
+def _write_analysis(outfile, scene, conf_file, analysers, frame_range):
+    """
+    Private. Writes the analysis into an open file, which :func:`analysis`
+    closes also if it fails. See there for the arguments.
+    """
     # Structure the output file:
     descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
@@ -121,7 +130,6 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
             for name, dtype, length in analyser.descr())
     descr = np.dtype(descr)
     
-    outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
     table = outfile.create_table('/', 'analysis', descr)
     table.attrs['config'] = conf_file
     table.attrs['trajects'] = scene.get_particles_path()
@@ -145,4 +153,3 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
     table.cols.trajid.create_index()
     table.cols.time.create_index()
     outfile.flush()
-    outfile.close()
-- 
2.43.0


From fa3332ab554c85cf4ece7de3a63b5221917e97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 70/74] fix: close particle tables also if writing or reading
 them fails

---
 flowtracks/io.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 5d71c41..c9a061b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -721,10 +721,17 @@ def save_particles_table(filename, trajects, trim=None):
     trim - if None, remove this many time points from each end of each 
         trajectory before saving.
     """
+    with tables.open_file(filename, mode='w') as outfile:
+        _write_particles_table(outfile, trajects, trim)
+
+def _write_particles_table(outfile, trajects, trim):
+    """
+    Private. Writes the tables into an open file, which
+    :func:`save_particles_table` closes also if this fails.
+    """
     table = None
     trim_len = 0 if trim is None else trim * 2
     
-    outfile = tables.open_file(filename, mode='w')
     bounds_tab = outfile.create_table('/', 'bounds', 
         np.dtype([('trajid', int), ('first', int), ('last', int)]))
     
@@ -758,7 +765,6 @@ def save_particles_table(filename, trajects, trim=None):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def save_frames_hdf(filename, frames):
     """
@@ -771,8 +777,15 @@ def save_frames_hdf(filename, frames):
         is recommended so that ``infer_format()`` knows what to do with it.
     frames - an iterable sequence of ParticleSnapshot objects to save.
     """
+    with tables.open_file(filename, mode='w') as outfile:
+        _write_frames(outfile, frames)
+
+def _write_frames(outfile, frames):
+    """
+    Private. Writes the tables into an open file, which
+    :func:`save_frames_hdf` closes also if this fails.
+    """
     table = None
-    outfile = tables.open_file(filename, mode='w')
     min_pos = np.full(3, np.inf)
     max_pos = np.full(3, -np.inf)
     
@@ -823,7 +836,6 @@ def save_frames_hdf(filename, frames):
     bounds_tab.cols.trajid.create_index()
     
     outfile.flush()
-    outfile.close()
 
 def trajectories_table(fname, first=None, last=None):
     """
@@ -837,8 +849,15 @@ def trajectories_table(fname, first=None, last=None):
     Returns:
     trajects - a list of Trajectory objects, each trimmed to the frame range.
     """
-    outfile = tables.open_file(fname, mode='r')
-    table = outfile.get_node('/particles')
+    with tables.open_file(fname, mode='r') as infile:
+        return _read_particles_table(infile, first, last)
+
+def _read_particles_table(infile, first, last):
+    """
+    Private. Reads the trajectories from an open file, which
+    :func:`trajectories_table` closes also if this fails.
+    """
+    table = infile.get_node('/particles')
     
     query_string = ('(trajid == trid)')
     if first is not None:
@@ -854,7 +873,6 @@ def trajectories_table(fname, first=None, last=None):
         kwds['trajid'] = trid
         trajects.append(Trajectory(**kwds))
     
-    outfile.close()
     return trajects
 
 def load_trajectories(res_dir, first=None, last=None):
-- 
2.43.0


From 6812138aa185e4dd46032f466a42c37c1e7e08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 71/74] fix: iterating over a range of a sequence that ends
 before it starts ends

It went on forever, over frames without particles.
---
 flowtracks/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 61ca01a..58d079f 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -196,7 +196,7 @@ class Sequence(object):
         return seq
     
     def next(self):
-        if self._frame == self._act_rng[1]:
+        if self._frame >= self._act_rng[1]:
             raise StopIteration
         
         frame = Frame()
-- 
2.43.0


From 61463f04ff556ba6087d56872ec34a79d9c7afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 72/74] fix: properties named id or t do not replace the
 trajectory's id or the snapshot's time

---
 flowtracks/trajectory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 5c808c3..38dff24 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -144,12 +144,12 @@ class Trajectory(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._id = trajid
+        self.__id = trajid # not _id, for there may be a property 'id'.
         kwds['time'] = time
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def trajid(self):
-        return self._id    
+        return self.__id
     
     def __getitem__(self, selector):
         """
@@ -161,7 +161,7 @@ class Trajectory(ParticleSet):
         """
         return np.hstack((self._pos[selector], self._velocity[selector],
             self._time[selector][...,None], 
-            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
+            np.ones(self._pos[selector].shape[:-1] + (1,))*self.__id))
             
     def smoothed(self, err_bound, order):
         """
@@ -220,12 +220,12 @@ class ParticleSnapshot(ParticleSet):
             these are treated as extra attributes to be sliced when creating
             segments.
         """
-        self._t = time
+        self.__t = time # not _t, for there may be a property 't'.
         kwds['trajid'] = trajid
         ParticleSet.__init__(self, pos, velocity, **kwds)
     
     def time(self):
-        return self._t
+        return self.__t
 
 
 def mark_unique_rows(all_rows):
-- 
2.43.0


From 2069e433e95efa3167a840537a743d32a423d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 73/74] fix: copies of particle sets are objects of their own,
 and pickles can be loaded

Setting properties of a shallow copy changed the original instead of it.
---
 flowtracks/trajectory.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 38dff24..1d978d5 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -120,6 +120,21 @@ class ParticleSet(object):
         return dict((propname, self.__dict__['_' + propname]) \
             for propname in self._check_attr)
     
+    def __getstate__(self):
+        """
+        For copying and pickling: without the methods that create_property()
+        makes, since they belong to this object.
+        """
+        made = [n for prop in self._check_attr for n in (prop, 'set_' + prop)]
+        return dict((k, v) for k, v in self.__dict__.items() if k not in made)
+    
+    def __setstate__(self, state):
+        """Makes the methods anew for this object."""
+        self.__dict__.update(state)
+        self._check_attr = []
+        for propname in state['_check_attr']:
+            self.create_property(propname, None)
+    
     def __len__(self):
         """Return the number of particles in the set."""
         return self._pos.shape[0]
-- 
2.43.0


From 2e464c40e38b262ecfb23f4ff98df22c10ed0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 74/74] fix: columns named t or trid do not break iteration
 over a scene

---
 flowtracks/an_scene.py |  8 ++++----
 flowtracks/io.py       |  4 ++--
 flowtracks/scene.py    | 16 ++++++++--------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 6e552be..05550fb 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -61,12 +61,12 @@ class AnalysedScene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == sought)'
         if cond is not None:
             query_string = ' & '.join([query_string, cond])
             
         for t in range(*self._scene.get_range()):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'sought': t})
     
     def collect(self, keys, where=None):
         """
@@ -157,8 +157,8 @@ class AnalysedScene(object):
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
         # Fetch by foreign key from analysis:
-        query_string = '(trajid == trid)'
-        arr = self._table.read_where(query_string)
+        query_string = '(trajid == sought)'
+        arr = self._table.read_where(query_string, {'sought': trid})
         
         # Trim points that were not analysed (the last one, and those before a 
         # gap in the trajectory), so that rows match:
diff --git a/flowtracks/io.py b/flowtracks/io.py
index c9a061b..b0db609 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -859,7 +859,7 @@ def _read_particles_table(infile, first, last):
     """
     table = infile.get_node('/particles')
     
-    query_string = ('(trajid == trid)')
+    query_string = ('(trajid == sought)')
     if first is not None:
         query_string += " & (time >= %d)" % first
     if last is not None:
@@ -867,7 +867,7 @@ def _read_particles_table(infile, first, last):
                 
     trajects = []
     for trid in np.unique(table.col('trajid')):
-        arr = table.read_where(query_string)
+        arr = table.read_where(query_string, {'sought': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 1885ad1..b40b338 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -204,11 +204,11 @@ class Scene(object):
         """
         # I just repeat most of the code in iter_trajectories(). It is not the
         # pretties thing but trying to abstract these 5 lines would be uglier.
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == sought)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
-        arr = self._table.read_where(query_string)
+        arr = self._table.read_where(query_string, {'sought': trid})
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'trajid')
         kwds['trajid'] = trid
@@ -220,12 +220,12 @@ class Scene(object):
         trajectory in the file (in no particular order, but the same order 
         every time on the same PyTables version) and yields it.
         """
-        query_string = '(trajid == trid)'
+        query_string = '(trajid == sought)'
         if self._frame_limit != '':
             query_string += ' & ' + self._frame_limit
         
         for trid in self._trids:
-            arr = self._table.read_where(query_string)
+            arr = self._table.read_where(query_string, {'sought': trid})
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'trajid')
             kwds['trajid'] = trid
@@ -250,12 +250,12 @@ class Scene(object):
         Arguments:
         cond - an optional PyTables condition string to apply to each frame.
         """
-        query_string = '(time == t)'
+        query_string = '(time == sought)'
         if cond is not None:
             query_string = ' & '.join([query_string, cond])
             
         for t in range(self._first, self._last):
-            yield t, self._table.read_where(query_string)
+            yield t, self._table.read_where(query_string, {'sought': t})
     
     def frame_by_time(self, t):
         """
@@ -268,8 +268,8 @@ class Scene(object):
         Returns:
         a ParticleSnapshot object.
         """
-        query_string = '(time == t)'
-        arr = self._table.read_where(query_string)
+        query_string = '(time == sought)'
+        arr = self._table.read_where(query_string, {'sought': t})
         
         kwds = dict((field, arr[field]) for field in arr.dtype.fields \
             if field != 'time')
-- 
2.43.0

