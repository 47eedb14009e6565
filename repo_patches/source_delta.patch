From e69f1778eb74856557bff85d6cdca1749b9309f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 01/45] fix: DistTargetsCopy: only the root process needs the
 targets

Every rank looped over its own copy of the target list around a bcast, so
ranks other than root given an empty list (or None) made mismatched
collective calls or crashed.
---
 py/redrock/targets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..7a58890 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -550,7 +550,14 @@ class DistTargetsCopy(DistTargets):
         # Distribute the targets among process weighted by the amount of work
         # to do for each target.
 
-        self._proc_targets = distribute_targets(targets, comm_size)
+        # Only the root process needs to have the targets.
+
+        self._proc_targets = None
+        if comm_rank == root:
+            self._proc_targets = distribute_targets(targets, comm_size)
+
+        if comm is not None:
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -561,7 +568,8 @@ class DistTargetsCopy(DistTargets):
             self._my_data = targets
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From b9447a7f0058e997b1679520408b6bedf1d387dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 02/45] fix: DistTargetsCopy: keep target data in the order of
 the target ids

Without MPI the ids were sorted by the number of spectra but the data were
not, so chi2 scans were stored under the id of another target.
---
 py/redrock/targets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 7a58890..531ead2 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -565,7 +565,9 @@ class DistTargetsCopy(DistTargets):
 
         self._my_data = None
         if comm is None:
-            self._my_data = targets
+            # same order as self._my_targets, which is sorted by weight
+            tbuf = { tg.id : tg for tg in targets }
+            self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
             for i in range(len(self._alltargetids)):
-- 
2.43.0


From 6c4328527519d12c056a0f8d9c5b134b59d77822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 03/45] fix: multiprocessing scan: pass target data in the
 order of the target ids

Workers got the ids sorted by number of spectra and the data in input order,
so chi2 scans were stored under the id of another target.
---
 py/redrock/zscan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..ede29b8 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1042,6 +1042,8 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             for tg in targets.local():
                 tg.sharedmem_pack()
 
+            tdata = { tg.id : tg for tg in targets.local() }
+
             # We explicitly spawn processes here (rather than using a pool.map)
             # so that we can communicate the read-only objects once and send
             # a whole list of redshifts to each process.
@@ -1054,7 +1056,8 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                # same order as target_ids, which is sorted by weight
+                target_data = [ tdata[tid] for tid in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From d9088a201afab4042cfdb091378c363ce430dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 04/45] fix: DistTemplate: allow more MPI ranks than template
 redshifts

Ranks without redshifts crashed while rebinning and the others waited for
them forever.
---
 py/redrock/templates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..c199420 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -576,6 +576,13 @@ class DistTemplate(object):
         # all the templates.  In that scenario, use multiprocessing
         # workers to do the rebinning.
 
+        if len(myz) == 0:
+            # More processes than redshifts; nothing to rebin
+            data = { k : np.zeros((0, len(w), self._template.nbasis))
+                for k, w in self._dwave.items() }
+            self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+            return
+
         # Removed MPI vs multiprocessing branch - CW 2/8/23
         # faster to just call rebin_template on one proc without using mp.Queue
         # compute our local redshifts
-- 
2.43.0


From 6ad4bc29a088715f99931705261b6c0f84e72405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 05/45] fix: reusing a chi2 scan with MPI

Every rank read the scans of all targets and sent them back to rank 0, where
entries without a fit replaced the fitted ones (KeyError 'zfit').
---
 py/redrock/zfind.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..6d2349c 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -289,7 +289,10 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
     if chi2_scan is None:
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
-        results = read_zscan_redrock(chi2_scan)
+        # The file may cover more targets; keep only those of this process
+        allscans = read_zscan_redrock(chi2_scan)
+        results = { tid : allscans[tid] for tid in targets.local_target_ids() }
+        del allscans
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From 46ead9fff8bdebc183634b8b84b8e15f3c6be6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 06/45] fix: read_zscan: read all parts from the same open file

The fits were read by opening the file again by name, so a file replaced in
between gave the scans of one run with the fits of another.
---
 py/redrock/results.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..59d6dc2 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -156,7 +156,8 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             return zscan
 
         #- Add zfit information too
-        zfit = read_zfit(filename, select_targetids=select_targetids, upper=upper)
+        #- from the same open file, which may be replaced under that name meanwhile
+        zfit = _read_zfit(fx, select_targetids=select_targetids, upper=upper)
         if upper:
             targetid_col = 'TARGETID'
             spectype_col = 'SPECTYPE'
@@ -192,15 +193,21 @@ def read_zfit(filename, select_targetids=None, upper=False):
     if np.isscalar(select_targetids):
         select_targetids = [select_targetids,]
 
-    zfit = dict()
     with h5py.File(os.path.expandvars(filename), mode='r') as fx:
-        if select_targetids is None:
-            select_targetids = fx['targetids'][:]
+        return _read_zfit(fx, select_targetids=select_targetids, upper=upper)
 
-        zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
-        zfit = Table(np.hstack(zfit))
-        zfit.replace_column('spectype', encode_column(zfit['spectype']))
-        zfit.replace_column('subtype', encode_column(zfit['subtype']))
+
+def _read_zfit(fx, select_targetids=None, upper=False):
+    """
+    Same as read_zfit for an already open hdf5 file
+    """
+    if select_targetids is None:
+        select_targetids = fx['targetids'][:]
+
+    zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
+    zfit = Table(np.hstack(zfit))
+    zfit.replace_column('spectype', encode_column(zfit['spectype']))
+    zfit.replace_column('subtype', encode_column(zfit['subtype']))
 
     if upper:
         for colname in list(zfit.colnames):
-- 
2.43.0


From cd88c66d1d45df11514367cbf34232e01d6ae14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 07/45] fix: multiprocessing: a failed or killed worker is an
 error instead of a hang

The parent waited forever for the result of a worker that raised an
exception, ran out of memory or was killed.  Each worker now has its own
pipe, whose end the parent notices.
---
 py/redrock/utils.py | 75 ++++++++++++++++++++++++++++++++++++++
 py/redrock/zfind.py | 57 ++++++++++++++---------------
 py/redrock/zscan.py | 88 ++++++++++++++++++++++-----------------------
 3 files changed, 144 insertions(+), 76 deletions(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 599d88f..c4533f0 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -182,6 +182,81 @@ def mp_array(original):
     nd.shape = shape
     return nd
 
+class MPWorkers(object):
+    """Multiprocessing workers whose failure is an error in the parent.
+
+    Each worker sends its messages through a pipe of its own, so that a worker
+    which fails or is killed at any point (also while sending) is noticed by
+    the end of its pipe, and cannot block the parent nor the other workers.
+
+    Use it as a context manager; leaving it because of an exception terminates
+    the workers which are still running::
+
+        with MPWorkers() as workers:
+            for ...:
+                qout = workers.pipe()
+                workers.start(qout, target=func, args=(..., qout))
+            for msg in workers.messages():
+                ...
+    """
+    class _Pipe(object):
+        """Put-only queue of one worker."""
+        def __init__(self):
+            import multiprocessing as mp
+            self.recv, self.send = mp.Pipe(duplex=False)
+
+        def put(self, obj):
+            self.send.send(obj)
+
+    def __init__(self):
+        self._workers = list()
+
+    def pipe(self):
+        """Return the object into which a worker can put() its messages."""
+        return self._Pipe()
+
+    def start(self, pipe, target, args):
+        """Start a worker, running target(*args), with its pipe."""
+        import multiprocessing as mp
+        p = mp.Process(target=target, args=args)
+        p.start()
+        self._workers.append( (p, pipe) )
+        # only the worker keeps this end, so that its death closes the pipe
+        pipe.send.close()
+
+    def messages(self):
+        """Yield all messages, in the order of arrival, until all workers ended.
+
+        Raises RuntimeError if a worker failed.
+        """
+        from multiprocessing.connection import wait
+        running = { pipe.recv : p for p, pipe in self._workers }
+        while len(running) > 0:
+            for conn in wait(list(running.keys())):
+                try:
+                    msg = conn.recv()
+                except (EOFError, OSError):
+                    p = running.pop(conn)
+                    p.join()
+                    if p.exitcode != 0:
+                        raise RuntimeError('multiprocessing worker {} failed '
+                            'with exit code {}'.format(p.name, p.exitcode))
+                    continue
+                yield msg
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, exc_value, exc_traceback):
+        if exc_type is not None:
+            for p, _ in self._workers:
+                p.terminate()
+        for p, pipe in self._workers:
+            p.join()
+            pipe.recv.close()
+        return False
+
+
 def distribute_work(nproc, ids, weights=None, capacities=None):
     """Helper function to distribute work among processes with varying capacities.
 
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 6d2349c..2d56acc 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -17,7 +17,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, extra_columns_in_archetype_mode
+from .utils import elapsed, MPWorkers, extra_columns_in_archetype_mode
 
 from .targets import distribute_targets
 
@@ -99,6 +99,7 @@ def _mp_fitz(chi2, target_data, t, nminima, qout, archetype, use_gpu, deg_legend
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        raise
 
 def calc_deltachi2(chi2, z, zwarn, dvlimit=constants.max_velo_diff):
     '''
@@ -366,40 +367,36 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 results[tg.id][ft]['zfit'] = zfit
         else:
             # Multiprocessing case.
-            import multiprocessing as mp
 
             # Ensure that all targets are packed into shared memory
             for tg in targets.local():
                 tg.sharedmem_pack()
 
-            qout = mp.Queue()
-
-            procs = list()
-            for i in range(mp_procs):
-                if len(mpdist[i]) == 0:
-                    continue
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
-                eff_chi2 = np.zeros((len(target_data),
-                    len(t.template.redshifts)), dtype=np.float64)
-
-                for i, tg in enumerate(target_data):
-                    eff_chi2[i,:] = results[tg.id][ft]['zchi2'] \
-                        + results[tg.id][ft]['penalty']
-                p = mp.Process(target=_mp_fitz, args=(eff_chi2,
-                    target_data, t, nminima, qout, archetype, use_gpu, deg_legendre, zminfit_npoints, per_camera, n_nearest, prior_sigma))
-                procs.append(p)
-                p.start()
-
-            # Extract the output
-            for i in range(mp_procs):
-                if len(mpdist[i]) == 0:
-                    continue
-                res = qout.get()
-                for rs in res:
-                    results[rs[0]][ft]['zfit'] = rs[1]
-
-            for p in procs:
-                p.join()
+            nfit = 0
+            with MPWorkers() as workers:
+                for i in range(mp_procs):
+                    if len(mpdist[i]) == 0:
+                        continue
+                    target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                    eff_chi2 = np.zeros((len(target_data),
+                        len(t.template.redshifts)), dtype=np.float64)
+
+                    for i, tg in enumerate(target_data):
+                        eff_chi2[i,:] = results[tg.id][ft]['zchi2'] \
+                            + results[tg.id][ft]['penalty']
+                    qout = workers.pipe()
+                    workers.start(qout, target=_mp_fitz, args=(eff_chi2,
+                        target_data, t, nminima, qout, archetype, use_gpu, deg_legendre, zminfit_npoints, per_camera, n_nearest, prior_sigma))
+
+                # Extract the output
+                for res in workers.messages():
+                    for rs in res:
+                        results[rs[0]][ft]['zfit'] = rs[1]
+                        nfit += 1
+
+            if nfit != len(targets.local()):
+                raise RuntimeError('fits of {} targets are missing'.format(
+                    len(targets.local()) - nfit))
 
         elapsed(start, "    Finished in", comm=targets.comm)
     elapsed(start_findbest, "Finding best redshift", comm=targets.comm)
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index ede29b8..57dbba3 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -30,7 +30,7 @@ cp = None
 #and attempts will be made to minimize memory usage to under 4 GB
 cp_memcheck = False
 
-from .utils import elapsed
+from .utils import elapsed, MPWorkers
 
 from .targets import distribute_targets
 
@@ -905,6 +905,7 @@ def _mp_calc_zchi2(indx, target_ids, target_data, t, use_gpu, qout, qprog):
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        raise
 
 
 def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
@@ -1036,7 +1037,6 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 penalty[tid] = np.concatenate([ penalty[tid][p] for p in sorted(penalty[tid].keys()) ])
         else:
             # Multiprocessing case.
-            import multiprocessing as mp
 
             # Ensure that all targets are packed into shared memory
             for tg in targets.local():
@@ -1048,53 +1048,49 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             # so that we can communicate the read-only objects once and send
             # a whole list of redshifts to each process.
 
-            qout = mp.Queue()
-            qprog = mp.Queue()
-
-            procs = list()
-            for i in range(mp_procs):
-                if len(mpdist[i]) == 0:
-                    continue
-                target_ids = mpdist[i]
-                # same order as target_ids, which is sorted by weight
-                target_data = [ tdata[tid] for tid in target_ids ]
-                p = mp.Process(target=_mp_calc_zchi2,
-                    args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
-                procs.append(p)
-                p.start()
-
-            # Track progress
-            sys.stdout.write("    Progress: {:3d} %\n".format(0))
-            sys.stdout.flush()
-            ntarget = len(targets.local_target_ids())
-            progincr = 10
-            if mp_procs > ntarget:
-                progincr = int(100.0 / ntarget)
-            tot = 0
-            proglast = 0
-            while (tot < ntarget):
-                cnt = qprog.get()
-                tot += cnt
-                prg = int(100.0 * tot / ntarget)
-                if prg >= proglast + progincr:
-                    proglast += progincr
-                    sys.stdout.write("    Progress: {:3d} %\n".format(proglast))
-                    sys.stdout.flush()
-
-            # Extract the output
             zchi2 = dict()
             zcoeff = dict()
             penalty = dict()
-            for _ in range(len(procs)):
-                res = qout.get()
-                tids = mpdist[res[0]]
-                for j,tid in enumerate(tids):
-                    zchi2[tid] = res[1][j]
-                    zcoeff[tid] = res[2][j]
-                    penalty[tid] = res[3][j]
-
-            for p in procs:
-                p.join()
+            with MPWorkers() as workers:
+                for i in range(mp_procs):
+                    if len(mpdist[i]) == 0:
+                        continue
+                    target_ids = mpdist[i]
+                    # same order as target_ids, which is sorted by weight
+                    target_data = [ tdata[tid] for tid in target_ids ]
+                    qout = workers.pipe()
+                    workers.start(qout, target=_mp_calc_zchi2,
+                        args=(i, target_ids, target_data, t, use_gpu, qout, qout))
+
+                # Track progress
+                sys.stdout.write("    Progress: {:3d} %\n".format(0))
+                sys.stdout.flush()
+                ntarget = len(targets.local_target_ids())
+                progincr = 10
+                if mp_procs > ntarget:
+                    progincr = int(100.0 / ntarget)
+                tot = 0
+                proglast = 0
+                for res in workers.messages():
+                    if isinstance(res, int):
+                        # number of targets done
+                        tot += res
+                        prg = int(100.0 * tot / ntarget)
+                        if prg >= proglast + progincr:
+                            proglast += progincr
+                            sys.stdout.write("    Progress: {:3d} %\n".format(proglast))
+                            sys.stdout.flush()
+                    else:
+                        # Extract the output
+                        tids = mpdist[res[0]]
+                        for j,tid in enumerate(tids):
+                            zchi2[tid] = res[1][j]
+                            zcoeff[tid] = res[2][j]
+                            penalty[tid] = res[3][j]
+
+            if len(zchi2) != ntarget:
+                raise RuntimeError('results of {} targets are missing'.format(
+                    ntarget - len(zchi2)))
 
         elapsed(start, "    Finished in", comm=targets.comm)
 
-- 
2.43.0


From 074c6802a8843fd9b591b41dc1f9552ade8ab8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 08/45] fix: fitz: archetypes without a prior on the Legendre
 terms

ncamera was only set when prior_sigma was given, so --archetypes-no-legendre
always failed.
---
 py/redrock/fitz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..0c110f6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From 2ea00dcca71840fcfd184b93b4612785c7df2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 09/45] fix: archetypes: nearest neighbours without a prior on
 the Legendre terms

---
 py/redrock/archetypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..88fb1fd 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -362,8 +362,9 @@ class Archetype():
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
         if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
-            prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
+            nnearest_prior = prior # prior corresponding to nearest_nbh method
+            if prior is not None:
+                prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
             if (trans[hs] is not None):
-- 
2.43.0


From 132b700d5f06a8b799de9be6ebf1b9d768cda3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 10/45] fix: Target: bands of coadded spectra

bands still listed the bands of the individual spectra after a coadd, so the
per-camera archetype fit of a target with several exposures failed.
---
 py/redrock/targets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 531ead2..2f8f28d 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -178,7 +178,7 @@ class Target(object):
         self._gpulegendre = None
         self.nleg = 0
         self.bands = []
-        for s in spectra:
+        for s in self.spectra:
             self.bands.append(s.band)
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
@@ -370,6 +370,7 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        self.bands = [ s.band for s in coadd ]
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From b1cfe987ea46ebfb25b5d33fde09df31e7d20eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 11/45] fix: zfind: targets without minima for some templates

When a prior excluded all redshifts of the template with the most coefficients
for some targets only, stacking the fits of all targets failed.
---
 py/redrock/zfind.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 2d56acc..6445299 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -617,6 +617,14 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             # Here convert to astropy table
             allzfit.append(astropy.table.Table(tzfit))
 
+        # A target without minima for the template with the most coefficients
+        # (excluded by its prior) has fewer columns than the others
+        maxncoeff = max([tzfit['coeff'].shape[1] for tzfit in allzfit])
+        for tzfit in allzfit:
+            n = maxncoeff - tzfit['coeff'].shape[1]
+            if n > 0:
+                tzfit.replace_column('coeff', np.pad(tzfit['coeff'], ((0,0), (0,n))))
+
         allzfit = astropy.table.vstack(allzfit)
         #print(allzfit['targetid', 'z', 'zwarn', 'chi2', 'deltachi2','spectype','subtype'])
         # Cosmetic: move TARGETID to be first column as primary key
-- 
2.43.0


From 5d4334c0534fd7cd0188319f709da2b88fc53a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 12/45] fix: zfind: number of rows of columns missing for some
 spectral types

With archetypes for one spectral type only, the Legendre coefficients of the
other types were filled with as many rows as the first type has minima.
---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 6445299..6fcc1a2 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -543,7 +543,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                             val = row[pca_map[k]]
                             val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                         elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
+                            val = np.zeros((len(row['chi2']),) + ref.shape[1:], dtype=ref.dtype)
                     tzfit2[k].append(val)
 
                 tzfit2[k] = np.vstack(tzfit2[k])
-- 
2.43.0


From 9dd3fa743ae9db429aaa7548482a3316a73af42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 13/45] fix: rrdesi: abort the job if one rank cannot read the
 archetypes

They were read outside of the try block, so a failure of one rank left the
other ranks waiting forever.
---
 py/redrock/external/desi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..c174f23 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -900,11 +900,6 @@ def rrdesi(options=None, comm=None):
                 else:
                     sys.exit(1)
 
-    #- All ranks read the archetypes file(s)
-    archetypes = None
-    if args.archetypes is not None:
-        archetypes = All_archetypes(archetypes_dir=args.archetypes, verbose=(comm_rank==0)).archetypes
-
     targetids = None
     if args.targetids is not None:
         targetids = [ int(x) for x in args.targetids.split(",") ]
@@ -990,6 +985,11 @@ def rrdesi(options=None, comm=None):
         redistribute_templates = False
 
     try:
+        #- All ranks read the archetypes file(s)
+        archetypes = None
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes, verbose=(comm_rank==0)).archetypes
+
         # Load and distribute the targets
         if comm_rank == 0:
             print("Loading targets...")
-- 
2.43.0


From e248d0e48fad5556fcce2c467d1bd715ff041713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 14/45] fix: rrdesi: --model without --outfile

The best fits were only put together if --outfile was given.
---
 py/redrock/external/desi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index c174f23..db045c5 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1154,7 +1154,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model is not None:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1184,11 +1184,12 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
-                        targets.fibermap, targets.exp_fibermap,
-                        targets.tsnr2,
-                        templates, archetypes=archetypes,
-                        spec_header=targets.header0, secondary_headers=targets.secondary_headers)
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
+                            targets.fibermap, targets.exp_fibermap,
+                            targets.tsnr2,
+                            templates, archetypes=archetypes,
+                            spec_header=targets.header0, secondary_headers=targets.secondary_headers)
 
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
-- 
2.43.0


From 8ca81f60b9101f225cf53a202ba2f1d727d169b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 15/45] fix: rrboss: target ids from 32 bit fiber numbers with
 numpy 2

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..8832772 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,7 +39,7 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
-    return plate*1000000000 + mjd*10000 + fiber
+    return plate*1000000000 + mjd*10000 + np.int64(fiber)
 
 
 def targetid2platemjdfiber(targetid):
-- 
2.43.0


From 3e9b7534d2f35f5dd235177ec148d3c692fadbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 16/45] fix: rrboss: --archetypes

---
 py/redrock/external/boss.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 8832772..bdcb9ca 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -433,6 +433,11 @@ def rrboss(options=None, comm=None):
         sys.stdout.flush()
 
     try:
+        # All ranks read the archetypes file(s)
+        archetypes = None
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+
         # Load and distribute the targets
         if comm_rank == 0:
             print("Loading targets...")
@@ -479,8 +484,10 @@ def rrboss(options=None, comm=None):
         start = elapsed(None, "", comm=comm)
 
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            per_camera=False, deg_legendre=(0 if archetypes is None else 2),
+            prior_sigma=(None if archetypes is None else 0.1))
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
@@ -507,8 +514,7 @@ def rrboss(options=None, comm=None):
 
                 template_version = {t._template.full_type:t._template._version for t in dtemplates}
                 archetype_version = None
-                if not args.archetypes is None:
-                    archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+                if not archetypes is None:
                     archetype_version = {name:arch._version for name, arch in archetypes.items() }
                 write_zbest(args.zbest, zbest, template_version, archetype_version)
 
-- 
2.43.0


From 1fda215341f87decab3268859fd335a07b0ef3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 17/45] fix: wrap-redrock: rrdesi takes its input with -i

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..11bd4ba 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -319,7 +319,7 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = 'rrdesi -i {}'.format(specfiles[i])
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
 
-- 
2.43.0


From e7a5cb2275a005495bd766833d55e0859b82c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 18/45] fix: wrap-redrock: rrboss calls its outputs --zbest and
 --output

---
 bin/wrap-redrock | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 11bd4ba..cf8b79d 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -320,11 +320,12 @@ def run_redrock(args, comm=None):
 
         if args.datatype == 'desi':
             cmd = 'rrdesi -i {}'.format(specfiles[i])
+            cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            cmd += ' --zbest {} --output {}'.format(rrfiles[i], detailsfiles[i])
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
-- 
2.43.0


From 861229943b417ea5482e8ed7f469077af70a3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 19/45] fix: wrap-redrock: end cleanly if there is nothing left
 to do

---
 bin/wrap-redrock | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index cf8b79d..d4223d7 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,10 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    #- nothing left to do on any rank
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 9426ee6224c87f1652f270bf773b56ea1aef41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 20/45] fix: wrap-redrock: failure of one rank ends the job

---
 bin/wrap-redrock | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index d4223d7..bb2a39e 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -423,18 +423,28 @@ def main():
         except ImportError:
             comm = None
 
-    if args.plan:
-        plan(args, comm=comm)
-    else:
-        #- Create output directory if needed
-        if (args.outdir is not None) and ((comm is None) or (comm.rank == 0)):
-            os.makedirs(args.outdir, exist_ok=True)
-
-        #- All ranks wait for directory to be created
-        if comm is not None:
-            comm.barrier()
-
-        run_redrock(args, comm=comm)
+    try:
+        if args.plan:
+            plan(args, comm=comm)
+        else:
+            #- Create output directory if needed
+            if (args.outdir is not None) and ((comm is None) or (comm.rank == 0)):
+                os.makedirs(args.outdir, exist_ok=True)
+
+            #- All ranks wait for directory to be created
+            if comm is not None:
+                comm.barrier()
+
+            run_redrock(args, comm=comm)
+    except Exception:
+        #- don't leave other ranks waiting for this one
+        if (comm is None) or (comm.size == 1):
+            raise
+        import traceback
+        print('ERROR: rank {} raised an exception'.format(comm.rank))
+        traceback.print_exc()
+        sys.stdout.flush()
+        comm.Abort(1)
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From 208f398fd8312abd5ebbf5485dd5ac3c63ca2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 21/45] fix: coadd with cosmic rejection: spectra without valid
 pixels

---
 py/redrock/targets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 2f8f28d..9b6eb0a 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -293,6 +293,7 @@ class Target(object):
             ivar=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            igrad=[] # index of the spectrum of each gradient
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
@@ -316,6 +317,9 @@ class Target(object):
                     # next to a masked flux bin
                     good = (s.ivar>0)
                     bad  = (s.ivar==0)
+                    if not np.any(good):
+                        # nothing to compare to the other spectra
+                        continue
                     tflux = s.flux.copy()
                     tivar = s.ivar.copy()
                     tflux[bad] = np.interp(wave[bad],wave[good],s.flux[good])
@@ -330,6 +334,7 @@ class Target(object):
                     tflux[0]  = 0
                     grad.append(tflux)
                     gradvar.append(tvar)
+                    igrad.append(nspec-1)
 
             flux=np.array(flux)
             ivar=np.array(ivar)
@@ -338,17 +343,17 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
+                ngrad=grad.shape[0]
                 meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngrad-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[igrad[k]][j]=0.
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
-- 
2.43.0


From da4a1ec1c7df6bdcfa90c7f23448832feed4a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 22/45] fix: archetypes: columns and shapes of results with
 archetypes for some types or bands only

---
 py/redrock/zfind.py | 55 +++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 6fcc1a2..bc6afb0 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -527,27 +527,34 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             #tzfit = astropy.table.vstack(tzfit)
             ## Equivalent of astropy.table.vstack(tzfit) - vstack each array
 
+            # Types without archetypes lack some of the columns of those with
+            # archetypes; keep the columns of all of them
+            allkeys = list()
+            for tmp in tzfit:
+                allkeys.extend(k for k in tmp.keys() if k not in allkeys)
+
             tzfit2 = dict()
-            for k in tzfit[0].keys():
+            for k in allkeys:
                 tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
-                for i in range(len(tzfit)):
-                    if k in tzfit[i].keys():
-                        val = tzfit[i][k]
-                        if archetypes and k in pca_map:
-                            # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
-                    else:
-                        row = tzfit[i]
-                        if archetypes and k in pca_map and pca_map[k] in row:
-                            val = row[pca_map[k]]
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
-                        elif k in zero_like_keys:
-                            val = np.zeros((len(row['chi2']),) + ref.shape[1:], dtype=ref.dtype)
+                ref = [tmp[k] for tmp in tzfit if k in tmp][0]  # reference array
+                for row in tzfit:
+                    if k in row:
+                        val = row[k]
+                    elif k in pca_map:
+                        val = row[pca_map[k]]
+                        if k == 'pca_coeff':
+                            val = val[:, :row['ncoeff'].max()]
+                    elif k in zero_like_keys:
+                        val = np.zeros((len(row['chi2']),) + ref.shape[1:], dtype=ref.dtype)
                     tzfit2[k].append(val)
 
+                if k == 'pca_coeff':
+                    # number of coefficients may depend on the spectype
+                    width = max(val.shape[1] for val in tzfit2[k])
+                    tzfit2[k] = [np.pad(val, ((0,0), (0, width-val.shape[1]))) for val in tzfit2[k]]
+
                 tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                if (k not in ('coeff', 'pca_coeff', 'legcoeff')) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
@@ -618,12 +625,16 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             allzfit.append(astropy.table.Table(tzfit))
 
         # A target without minima for the template with the most coefficients
-        # (excluded by its prior) has fewer columns than the others
-        maxncoeff = max([tzfit['coeff'].shape[1] for tzfit in allzfit])
-        for tzfit in allzfit:
-            n = maxncoeff - tzfit['coeff'].shape[1]
-            if n > 0:
-                tzfit.replace_column('coeff', np.pad(tzfit['coeff'], ((0,0), (0,n))))
+        # (excluded by its prior), or with fewer bands, has fewer coefficients
+        # than the others
+        for k in ('coeff', 'pca_coeff', 'legcoeff'):
+            tables = [tzfit for tzfit in allzfit if k in tzfit.colnames]
+            maxncoeff = max([tzfit[k].shape[1] for tzfit in tables], default=0)
+            for tzfit in tables:
+                n = maxncoeff - tzfit[k].shape[1]
+                if n > 0:
+                    pad = [(0,0), (0,n)] + [(0,0)]*(tzfit[k].ndim-2)
+                    tzfit.replace_column(k, np.pad(tzfit[k], pad))
 
         allzfit = astropy.table.vstack(allzfit)
         #print(allzfit['targetid', 'z', 'zwarn', 'chi2', 'deltachi2','spectype','subtype'])
-- 
2.43.0


From 0380d62301ae2f7538fa595aa118d876e77ddbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 23/45] fix: write_zscan: results without Legendre terms

---
 py/redrock/plotspec.py | 3 ++-
 py/redrock/results.py  | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..bf43dd7 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -164,7 +164,8 @@ class PlotSpec(object):
         specs_to_read = target.spectra
         for spec in specs_to_read:
             if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'],
+                             legcoeff=zz['legcoeff'] if 'legcoeff' in zz.colnames else None)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
             model = spec.R.dot(mx)
diff --git a/py/redrock/results.py b/py/redrock/results.py
index 59d6dc2..33222ab 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -52,6 +52,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
             if zfit[colname].dtype.kind == 'U':
                 zfit.replace_column(colname, np.char.encode(zfit[colname], 'ascii'))
 
+    #- HDF5 has no columns without elements (legcoeff without Legendre terms)
+    for colname in list(zfit.colnames):
+        if 0 in zfit[colname].shape[1:]:
+            zfit.remove_column(colname)
+
     #- convert columns to lower precision for final output
     for col in ['zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2']:
         zfit[col] = zfit[col].astype(np.float32)
-- 
2.43.0


From 9f635314eaab3ab9da28074b02c57103fed0f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 24/45] fix: rrdesi --model: targets without spectra in some
 band

---
 py/redrock/external/desi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index db045c5..e45ce7b 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1230,7 +1230,9 @@ def rrdesi(options=None, comm=None):
                 all_models_dict = dict()
                 wave_dict = targets.wavegrids()
                 for band in wave_dict:
-                    all_models_dict[band] = np.vstack([m[band] for m in all_models])[sort_indices]
+                    #- targets without spectra in a band have no model there
+                    nomodel = np.zeros(len(wave_dict[band]), dtype=np.float32)
+                    all_models_dict[band] = np.vstack([m.get(band, nomodel) for m in all_models])[sort_indices]
 
                 write_bestmodel(args.model, zbest, all_models_dict, wave_dict,
                                 templates, archetypes, spec_header=targets.header0)
-- 
2.43.0


From d475c1ae40c891bd81d68a390a968241c4c0e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 25/45] test hook: REDROCK_TEST_BATCH sets the size of MPI
 batches

---
 py/redrock/external/desi.py | 3 ++-
 py/redrock/zfind.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e45ce7b..4d7d72c 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -611,7 +611,8 @@ class DistTargetsDESI(DistTargets):
                     ntarg = comm.bcast(ntarg, root=0)
 
                     #- distribute data in subsets of max size ntarg_per_bcast
-                    maxtarg_per_bcast = 10000
+                    #- REDROCK_TEST_BATCH: smaller batches for testing
+                    maxtarg_per_bcast = int(os.environ.get('REDROCK_TEST_BATCH', 10000))
                     if ntarg <= maxtarg_per_bcast:
                         hdata = comm.bcast(hdata, root=0)
                     else:
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index bc6afb0..71d6530 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -7,6 +7,7 @@ Redshift finding algorithms.
 
 from __future__ import division, print_function
 
+import os
 import re
 import sys
 import traceback
@@ -436,7 +437,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         # Ranks>0 send results to rank 0
         # first send num_batches (int), and then the batches of results (dict)
         else:
-            max_targets_per_send = 5000
+            # REDROCK_TEST_BATCH: smaller batches for testing
+            max_targets_per_send = int(os.environ.get('REDROCK_TEST_BATCH', 5000))
             if len(results) < max_targets_per_send:
                 targets.comm.send(1, dest=0)
                 targets.comm.send(results, dest=0)
-- 
2.43.0


From b48f7a3c543bdcafcf3f51b4fb3c3e0b35a0a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 26/45] fix: rrdesi: masks of files when other files or bands
 have none

---
 py/redrock/external/desi.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 4d7d72c..c59fa5b 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -582,15 +582,16 @@ class DistTargetsDESI(DistTargets):
                 if comm is not None:
                     hdata = comm.bcast(hdata, root=0)
 
-                if hdata is not None:
-                    toff = 0
-                    for t in self._my_targets:
-                        if t in self._target_specs[sfile]:
-                            for trow in self._target_specs[sfile][t]:
+                # also without a mask, keep track of the offsets
+                toff = 0
+                for t in self._my_targets:
+                    if t in self._target_specs[sfile]:
+                        for trow in self._target_specs[sfile][t]:
+                            if hdata is not None:
                                 self._my_data[toff].spectra[tspec_mask[t]]\
                                     .ivar *= (hdata[trow] == 0)
-                                tspec_mask[t] += 1
-                        toff += 1
+                            tspec_mask[t] += 1
+                    toff += 1
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From 5729d1ff3773bb9f6ddc9304e3638b41702f2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 27/45] fix: read_zscan: fits of types that were not scanned

---
 py/redrock/results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 33222ab..cd87afe 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -177,7 +177,9 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype = zfit_tid[spectype_col][0]
             subtype = zfit_tid[subtype_col][0]
             fulltype = make_fulltype(spectype, subtype)
-            zscan[targetid][fulltype]['zfit'] = zfit_tid
+            #- archetypes and fibers without data have types that were not scanned
+            if fulltype in zscan[targetid]:
+                zscan[targetid][fulltype]['zfit'] = zfit_tid
 
         return zscan, zfit
 
-- 
2.43.0


From 91697a2c5c2035e3eb868abd2a838583e95239a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 28/45] fix: zfind: read a saved scan once for all MPI ranks

---
 py/redrock/zfind.py | 47 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 71d6530..2c3b2fd 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -219,6 +219,48 @@ def sort_zfit_dict(zfit):
     sort_dict_by_cols(zfit, ('__badfit__', 'chi2'), sort_first_column_first=True)
     zfit.pop('__badfit__')
 
+def _read_chi2_scan(filename, targets):
+    """Read the chi2 scans of the local targets.
+
+    With MPI one process reads the file for all of them: if the file were
+    replaced in between, they would use scans of different runs.
+
+    Args:
+        filename (str): details file of an earlier run; may cover more targets.
+        targets (DistTargets): distributed targets.
+
+    Returns:
+        dict: scans of the local targets, see `results.read_zscan_redrock`.
+
+    """
+    comm = targets.comm
+    ids = targets.local_target_ids()
+    if comm is None:
+        scans = read_zscan_redrock(filename)
+        return { tid : scans[tid] for tid in ids }
+
+    ids = comm.gather(ids, root=0)
+    parts, error = None, None
+    if comm.rank == 0:
+        try:
+            scans = read_zscan_redrock(filename)
+            parts = [ { tid : scans[tid] for tid in x } for x in ids ]
+        except Exception as err:
+            error = err
+
+    error = comm.bcast(error, root=0)
+    if error is not None:
+        raise error
+
+    if comm.rank > 0:
+        return comm.recv(source=0, tag=comm.rank)
+
+    for p in range(1, comm.size):
+        comm.send(parts[p], dest=p, tag=p)
+
+    return parts[0]
+
+
 def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=None, chi2_scan=None, use_gpu=False,
           zminfit_npoints=15, per_camera=None, deg_legendre=None, n_nearest=None, prior_sigma=None, ncamera=None):
     """Compute all redshift fits for the local set of targets and collect.
@@ -291,10 +333,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
     if chi2_scan is None:
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
-        # The file may cover more targets; keep only those of this process
-        allscans = read_zscan_redrock(chi2_scan)
-        results = { tid : allscans[tid] for tid in targets.local_target_ids() }
-        del allscans
+        results = _read_chi2_scan(chi2_scan, targets)
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From efb2242340eea30cffb3580a6de27b9332b80661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 29/45] fix: wrap-redrock: one group of BOSS files per MPI rank

With --maxnodes less than the number of ranks there were fewer groups than
ranks and every rank failed.
---
 bin/wrap-redrock | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index bb2a39e..c4f8b0a 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -217,7 +217,8 @@ def plan(args, comm=None):
         groups, ntargets, grouptimes = group_specfiles(specfiles, args.maxnodes, comm=comm)
     elif args.datatype == 'boss':
         #- BOSS files all have the same number of spectra, so no load balancing
-        groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
+        numnodes = args.maxnodes if comm is None else comm.size
+        groups = np.array_split(np.arange(len(specfiles)), numnodes)
         ntargets = [1000*len(x) for x in groups]
         grouptimes = [30 + 250*len(x) for x in groups]
     else:
-- 
2.43.0


From d2d667a8b1e8e2ec738fbb2841fb5d0794f13a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 30/45] fix: wrap-redrock: back up logs next to other files
 called logfile.*

The number of a backup was the number of files called logfile.*; with a gap
in the numbers, or any other such file, that name could be taken and the
spectra were never processed again.
---
 bin/wrap-redrock | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index c4f8b0a..ac06f2c 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -5,7 +5,7 @@ MPI wrapper for redrock
 """
 
 from __future__ import absolute_import, division, print_function
-import sys, os, glob, time, subprocess, re
+import sys, os, time, subprocess, re
 import argparse
 import numpy as np
 from astropy.io import fits
@@ -178,12 +178,15 @@ def group_specfiles(specfiles, maxnodes=256, comm=None):
 def backup_logs(logfile):
     '''
     Move logfile -> logfile.0 or logfile.1 or logfile.n as needed
-
-    TODO: make robust against logfile.abc also existing
     '''
-    logfiles = glob.glob(logfile+'.*')
-    newlog = logfile+'.'+str(len(logfiles))
-    assert not os.path.exists(newlog)
+    dirname, basename = os.path.split(logfile)
+    #- ignore e.g. logfile.abc; there might also be gaps in the numbers
+    numbers = [-1]
+    for filename in os.listdir(dirname or '.'):
+        root, ext = os.path.splitext(filename)
+        if root == basename and ext[1:].isdigit():
+            numbers.append(int(ext[1:]))
+    newlog = '{}.{}'.format(logfile, max(numbers)+1)
     os.rename(logfile, newlog)
     return newlog
 
-- 
2.43.0


From bca22b47c6ae7104eb5d2b8604041c41f91272dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 31/45] fix: wrap-redrock: an unreadable spectra file does not
 prevent the others

---
 bin/wrap-redrock | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index ac06f2c..d18cd42 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -154,8 +154,12 @@ def group_specfiles(specfiles, maxnodes=256, comm=None):
     pixgroups = np.array_split(np.arange(npix), size)
     ntargets = np.zeros(len(pixgroups[rank]), dtype=int)
     for i, j in enumerate(pixgroups[rank]):
-        fm = fits.getdata(specfiles[j], 'FIBERMAP')
-        ntargets[i] = len(np.unique(fm['TARGETID']))
+        try:
+            fm = fits.getdata(specfiles[j], 'FIBERMAP')
+            ntargets[i] = len(np.unique(fm['TARGETID']))
+        except Exception as err:
+            #- don't let one bad file prevent all others from being processed
+            print('ERROR: unable to count targets of {}: {}'.format(specfiles[j], err))
 
     if comm is not None:
         ntargets = comm.gather(ntargets)
-- 
2.43.0


From 1c979e53cf766fd95c9bbfe0b40dfbd6db89716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 32/45] fix: archetypes without Legendre terms on GPUs

---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 57dbba3..ec54d76 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -429,8 +429,10 @@ def _batch_dot_product_sparse_gpu(spectra, tdata):
         Rcsr_cols = cp.asarray(s.Rcsr.indices, cp.int32)
         Rcsr_indptr = cp.asarray(s.Rcsr.indptr, cp.int32)
         curr_tb = cp.empty((nt, ncols, nbasis))
+        #The kernel needs C order, while e.g. a transposed array is not
+        curr_tdata = cp.ascontiguousarray(tdata[key])
         #Launch kernel and syncrhronize
-        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, tdata[key], curr_tb, nrows, ncols, nbasis, nt))
+        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, curr_tdata, curr_tb, nrows, ncols, nbasis, nt))
 
         #Commented out synchronize - needed for timing kernels but we still
         #get execution of this kernel before data is needed for next kernel
-- 
2.43.0


From 4ab5e1f3af075e55ded64feec6b763df8d9bda1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 33/45] fix: rrdesi --gpu: no targets for CPU ranks with more
 than 10000 spectra per GPU

---
 py/redrock/external/desi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index c59fa5b..dab032d 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -973,9 +973,9 @@ def rrdesi(options=None, comm=None):
         if ngpu_procs > 0 and ncpu_procs > 0:
             # On Perlmutter, 1:15 seems like a good ratio
             #capacities = [1 if is_gpu_proc else 1.0/15 for is_gpu_proc in gpu_proc_flags]
-            #With new GPU implementation of zscan, use 1:10000 so that only GPU-enabled
-            #procs get allocated targets
-            capacities = [1 if is_gpu_proc else 1.0/10000 for is_gpu_proc in gpu_proc_flags]
+            #With new GPU implementation of zscan, use a tiny capacity so that only GPU-enabled
+            #procs get allocated targets, whatever the number of targets and spectra
+            capacities = [1 if is_gpu_proc else 1e-12 for is_gpu_proc in gpu_proc_flags]
         else:
             capacities = None
 
-- 
2.43.0


From d09c15233f450ae149140ab2dc81bfdc0635d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 34/45] fix: rrboss --use-frames failed if a plate has no
 exposures in a camera

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index bdcb9ca..61058b6 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -128,7 +128,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (KeyError, ValueError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From f4d2a5ffbd913ee85cf950f7614a877f8a706692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 35/45] fix: rrdesi --archetypes FILE failed for names without
 a dash, and with MPI left the other ranks waiting

---
 py/redrock/external/desi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index dab032d..25fb52c 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -893,7 +893,8 @@ def rrdesi(options=None, comm=None):
 
                 if os.path.isfile(args.archetypes):
                     print('Archetype is a file and it exists and readable')
-                    print('Archetype will only be applied to SPECTYPE %s'%(os.path.basename(args.archetypes).split('-')[1].split('.')[0].upper()))
+                    archname = os.path.basename(args.archetypes).split('-')
+                    print('Archetype will only be applied to SPECTYPE %s'%(archname[min(1, len(archname)-1)].split('.')[0].upper()))
             else:
                 print("ERROR: can't find archetypes_dir or it is unreadable")
                 sys.stdout.flush()
-- 
2.43.0


From 32c3291d79d0fc346dab8655d7392cfb2689671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:01 +0000
Subject: [PATCH 36/45] fix: rrdesi read the archetypes again at the end, so
 models and headers could differ from the fits

---
 py/redrock/external/desi.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 25fb52c..784b5e1 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1144,11 +1144,6 @@ def rrdesi(options=None, comm=None):
             subtype = dt.template.sub_type
             templates[(spectype,subtype)] = dt.template
 
-        archetypes = None
-        if not args.archetypes is None:
-            archetypes = All_archetypes(archetypes_dir=args.archetypes,
-                                        verbose=(comm_rank==0)).archetypes
-
         # Write the outputs
 
         if args.details is not None:
-- 
2.43.0


From 5f3b42078e1c00baa693d4933f14fafb274c1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:01 +0000
Subject: [PATCH 37/45] fix: rrdesi opened spectra files twice, mixing metadata
 and data if a file was replaced in between

---
 py/redrock/external/desi.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 784b5e1..8414e47 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -278,6 +278,10 @@ class DistTargetsDESI(DistTargets):
         self.header0 = None      #- header 0 of the first spectrafile
         self.secondary_headers = None #- headers of other HDUs of the first spectrafile
 
+        # Keep the files open until their data are read: if a file were
+        # replaced in between, its metadata and data would not match.
+        open_files = list()
+
         for sfile in spectrafiles:
             hdus = None
             nhdu = None
@@ -287,6 +291,7 @@ class DistTargetsDESI(DistTargets):
             tsnr2 = None
             if comm_rank == 0:
                 hdus = fits.open(sfile, memmap=False)
+                open_files.append(hdus)
                 nhdu = len(hdus)
 
                 if self.header0 is None:
@@ -447,9 +452,6 @@ class DistTargetsDESI(DistTargets):
                 self._bands[sfile] = comm.bcast(self._bands[sfile], root=0)
                 self._wave[sfile] = comm.bcast(self._wave[sfile], root=0)
 
-            if comm_rank == 0:
-                hdus.close()
-
         # _alltargetids can have repeats from multiple files.  Trim to
         # unique set while retaining order in which they appeared
 
@@ -517,14 +519,16 @@ class DistTargetsDESI(DistTargets):
         tspec_res = tspec_flux.copy()
 
         for sfile in spectrafiles:
+            hdus = None
+            if comm_rank == 0:
+                hdus = open_files.pop(0)
+
             rows = self._spec_keep[sfile]
             if len(rows) == 0:
+                if comm_rank == 0:
+                    hdus.close()
                 continue
 
-            hdus = None
-            if comm_rank == 0:
-                hdus = fits.open(sfile, memmap=False)
-
             for b in self._bands[sfile]:
                 extname = "{}_{}".format(b.upper(), "FLUX")
                 hdata = None
-- 
2.43.0


From 4e614fe54f67ec9caf37adb62499a7f488456589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 38/45] fix: with MPI all ranks read archetypes and priors, so
 ranks could use different versions

---
 py/redrock/external/boss.py |  8 +++++---
 py/redrock/external/desi.py |  8 +++++---
 py/redrock/utils.py         | 31 +++++++++++++++++++++++++++++++
 py/redrock/zfind.py         |  5 +++--
 4 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 61058b6..06b82e6 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -23,7 +23,7 @@ import fitsio
 import desispec.resolution
 from desispec.resolution import Resolution
 
-from ..utils import elapsed, get_mp, distribute_work
+from ..utils import elapsed, read_once, get_mp, distribute_work
 
 from ..targets import Spectrum, Target, DistTargetsCopy
 
@@ -433,10 +433,12 @@ def rrboss(options=None, comm=None):
         sys.stdout.flush()
 
     try:
-        # All ranks read the archetypes file(s)
+        # One rank reads the archetypes file(s) for all of them
         archetypes = None
         if args.archetypes is not None:
-            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+            archetypes = read_once(
+                lambda: All_archetypes(archetypes_dir=args.archetypes).archetypes,
+                comm=comm)
 
         # Load and distribute the targets
         if comm_rank == 0:
diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 8414e47..9e1066f 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -28,7 +28,7 @@ from desispec.maskbits import fibermask
 from desispec.io.util import get_tempfilename
 from desispec.io.fibermap import annotate_fibermap
 
-from ..utils import elapsed, get_mp, distribute_work, getGPUCountMPI
+from ..utils import elapsed, read_once, get_mp, distribute_work, getGPUCountMPI
 
 from ..targets import (Spectrum, Target, DistTargets)
 
@@ -992,10 +992,12 @@ def rrdesi(options=None, comm=None):
         redistribute_templates = False
 
     try:
-        #- All ranks read the archetypes file(s)
+        #- One rank reads the archetypes file(s) for all of them
         archetypes = None
         if args.archetypes is not None:
-            archetypes = All_archetypes(archetypes_dir=args.archetypes, verbose=(comm_rank==0)).archetypes
+            archetypes = read_once(
+                lambda: All_archetypes(archetypes_dir=args.archetypes, verbose=True).archetypes,
+                comm=comm)
 
         # Load and distribute the targets
         if comm_rank == 0:
diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index c4533f0..121ae97 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -39,6 +39,37 @@ def native_endian(data):
         return data.byteswap().view(data.dtype.newbyteorder('native'))  # works with numpy 1.x or 2.x
 
 
+def read_once(read, comm=None):
+    """Read a file on one process and return the result on all of them.
+
+    With several processes reading the same file, they would use different
+    versions of it if the file were replaced in between.
+
+    Args:
+        read (callable): reads the file and returns the result.
+        comm (mpi4py.MPI.Comm): (optional) the MPI communicator.
+
+    Returns:
+        result of read(); if that fails, all processes raise its exception.
+
+    """
+    if comm is None:
+        return read()
+
+    result, error = None, None
+    if comm.rank == 0:
+        try:
+            result = read()
+        except Exception as err:
+            error = err
+
+    error = comm.bcast(error, root=0)
+    if error is not None:
+        raise error
+
+    return comm.bcast(result, root=0)
+
+
 def encode_column(c):
     """Returns a bytes column encoded into a string column.
 
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 2c3b2fd..15ea1d3 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -18,7 +18,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, MPWorkers, extra_columns_in_archetype_mode
+from .utils import elapsed, read_once, MPWorkers, extra_columns_in_archetype_mode
 
 from .targets import distribute_targets
 
@@ -307,7 +307,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         pca_map, zero_like_keys = extra_columns_in_archetype_mode()
 
     if not priors is None:
-        priors = Priors(priors)
+        filename = priors
+        priors = read_once(lambda: Priors(filename), comm=targets.comm)
 
     # Find most likely candidate redshifts by scanning over the
     # pre-interpolated templates on a coarse redshift spacing.
-- 
2.43.0


From 33a5a29163bb89a734f0c4c3e3afa4cbe501f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:57 +0000
Subject: [PATCH 39/45] fix: MPI runs that failed aborted with status 0, so
 launchers could report success

---
 py/redrock/external/boss.py |  8 ++++----
 py/redrock/external/desi.py | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 06b82e6..4c7fe6a 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -381,20 +381,20 @@ def rrboss(options=None, comm=None):
                 " process")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
 
         if (args.output is None) and (args.zbest is None):
             print("--output or --zbest required")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
             print("cannot select targets by both ID and range")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
 
     targetids = None
     if args.targetids is not None:
@@ -532,7 +532,7 @@ def rrboss(options=None, comm=None):
         if comm is None or args.no_mpi_abort:
             raise err
         else:
-            comm.Abort()
+            comm.Abort(1)
 
     global_stop = elapsed(global_start, "Total run time", comm=comm)
 
diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 9e1066f..1ca98b6 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -838,14 +838,14 @@ def rrdesi(options=None, comm=None):
                 " process")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
 
         if (args.details is None) and (args.outfile is None):
             parser.print_help()
             print("ERROR: --details or --outfile required")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
             else:
                 sys.exit(1)
 
@@ -853,7 +853,7 @@ def rrdesi(options=None, comm=None):
             print("ERROR: must provide input files")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
             else:
                 sys.exit(1)
 
@@ -862,7 +862,7 @@ def rrdesi(options=None, comm=None):
             print("ERROR: cannot select targets by both ID and range")
             sys.stdout.flush()
             if comm is not None:
-                comm.Abort()
+                comm.Abort(1)
             else:
                 sys.exit(1)
 
@@ -876,7 +876,7 @@ def rrdesi(options=None, comm=None):
                 print("ERROR: cupy or GPU not available")
                 sys.stdout.flush()
                 if comm is not None:
-                    comm.Abort()
+                    comm.Abort(1)
                 else:
                     sys.exit(1)
 
@@ -891,7 +891,7 @@ def rrdesi(options=None, comm=None):
                         print('ERROR: Archetype directory is empty')
                         sys.stdout.flush()
                         if comm is not None:
-                            comm.Abort()
+                            comm.Abort(1)
                         else:
                             sys.exit(1)
 
@@ -903,7 +903,7 @@ def rrdesi(options=None, comm=None):
                 print("ERROR: can't find archetypes_dir or it is unreadable")
                 sys.stdout.flush()
                 if comm is not None:
-                    comm.Abort()
+                    comm.Abort(1)
                 else:
                     sys.exit(1)
 
@@ -1253,7 +1253,7 @@ def rrdesi(options=None, comm=None):
         if comm is None or args.no_mpi_abort:
             raise err
         else:
-            comm.Abort()
+            comm.Abort(1)
 
     global_stop = elapsed(global_start, "Total run time", comm=comm)
 
-- 
2.43.0


From dd0bdbdad203f94240921bff2966ea317416702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:57 +0000
Subject: [PATCH 40/45] fix: rrboss refused unusable options only with MPI;
 other runs went on and ended with success

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 4c7fe6a..6c86ff5 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -388,6 +388,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort(1)
+            else:
+                sys.exit(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
@@ -395,6 +397,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort(1)
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From 1873f4e4897cfc42c2d8e6b6d5d26922c2277a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 41/45] fix: archetypes requested from a directory without any
 were silently ignored

---
 py/redrock/archetypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 88fb1fd..655e05b 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -477,6 +477,9 @@ def find_archetypes(archetypes_dir=None):
             lstfilename = glob(os.path.join(archetypes_dir_expand, 'rrarchetype-*.fits'))
             lstfilename = sorted([ f.replace(archetypes_dir_expand,archetypes_dir) for f in lstfilename])
 
+    if len(lstfilename) == 0:
+        raise IOError("ERROR: no rrarchetype-*.fits files in {}".format(archetypes_dir))
+
     return lstfilename
 
 
-- 
2.43.0


From e9059e30bd78c729d0f51cc5485d2514baeaa5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 42/45] fix: workers of a killed multiprocessing run waited
 forever for its pipes to be read

They inherit the reading end of their own pipe, so that it is not closed when
the main process dies, and a worker with more results than fit into the pipe
waits for good. Close that end in the worker.
---
 py/redrock/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 121ae97..9dab6de 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -249,12 +249,20 @@ class MPWorkers(object):
     def start(self, pipe, target, args):
         """Start a worker, running target(*args), with its pipe."""
         import multiprocessing as mp
-        p = mp.Process(target=target, args=args)
+        p = mp.Process(target=self._run, args=(pipe, target, args))
         p.start()
         self._workers.append( (p, pipe) )
         # only the worker keeps this end, so that its death closes the pipe
         pipe.send.close()
 
+    @staticmethod
+    def _run(pipe, target, args):
+        """In the worker: run target."""
+        # only the parent keeps this end, so that a worker whose parent was
+        # killed fails instead of waiting forever for its messages to be read
+        pipe.recv.close()
+        target(*args)
+
     def messages(self):
         """Yield all messages, in the order of arrival, until all workers ended.
 
-- 
2.43.0


From e67e74f7bbd882ffe1dbd85d440eecfa0d6960b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:30 +0000
Subject: [PATCH 43/45] fix: file handle of a failed details write stayed open

The traceback of the failure keeps it, so that writing the same file again from
the same process failed (HDF5: unable to truncate a file which is already open).
---
 py/redrock/results.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index cd87afe..5c482d4 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -71,11 +71,18 @@ def write_zscan(filename, zscan, zfit, clobber=False):
 
     # zbest.write(tempfile, path='zbest', format='hdf5')
 
+    tempfile = filename + '.tmp'
+    with h5py.File(tempfile, mode='w') as fx:
+        _write_zscan(fx, zscan, zfit, zbest)
+
+    os.rename(tempfile, filename)
+
+
+def _write_zscan(fx, zscan, zfit, zbest):
+    """Writes redrock.zfind results to an open HDF5 file; see write_zscan."""
     targetids = np.asarray(zbest['targetid'])
     spectypes = list(zscan[targetids[0]].keys())
 
-    tempfile = filename + '.tmp'
-    fx = h5py.File(tempfile, mode='w')
     fx['targetids'] = targetids
     fx['zbest'] = zbest.as_array()
 
@@ -98,9 +105,6 @@ def write_zscan(filename, zscan, zfit, clobber=False):
         ii = np.where(zfit['targetid'] == targetid)[0]
         fx['zfit/{}/zfit'.format(targetid)] = zfit[ii].as_array()
 
-    fx.close()
-    os.rename(tempfile, filename)
-
 
 def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
     """Read redrock.zfind results from a file.
-- 
2.43.0


From 22aead9fd964b2653cd45d6affe00da41660157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:14 +0000
Subject: [PATCH 44/45] fix: archetypes per camera failed for spectra that are
 not coadded

With --allspec each spectrum counted as a camera, so that the prior on the
Legendre terms did not fit and their coefficients were those of other cameras.
---
 py/redrock/targets.py | 8 ++++----
 py/redrock/zscan.py   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9b6eb0a..e92436e 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -220,11 +220,11 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
-            if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+            bands = list(dict.fromkeys(self.bands))
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
-                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
+            for sp in self.spectra:
+                leg = legcoeff if legcoeff.ndim==1 else legcoeff[bands.index(sp.band)]
+                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=leg)
 
         else:
             tx = templates[(spectype, subtype)]
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index ec54d76..78e96a8 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -272,6 +272,7 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
     ### TODO - implement BVLS on GPU
     # number of cameras in DESI: b, r, z
     spectra = target.spectra
+    bands = list(dict.fromkeys(bands)) # several spectra of a camera if not coadded
     ncam = len(bands)
     nbasis = n_nbh+nleg*ncam # n_nbh : for actual physical archetype(s), nleg: number of legendre polynomials, ncamera: number of cameras
 
-- 
2.43.0


From 2ee817689e80fc4ab9a2410a30adf4d57d0899f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:14 +0000
Subject: [PATCH 45/45] fix: Legendre terms of archetypes were in order of the
 bands in the files

They were meant to be sorted by band, but the dictionary kept its first order;
rows of LEGCOEFF were those of other cameras for targets whose first file lacks
a band or has its bands in another order.
---
 py/redrock/targets.py | 3 ++-
 py/redrock/zscan.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index e92436e..b1e53f0 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -220,7 +220,8 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
-            bands = list(dict.fromkeys(self.bands))
+            #- Per camera Legendre terms are in order of the band names
+            bands = sorted(set(self.bands))
             ax = archetypes[spectype]
             for sp in self.spectra:
                 leg = legcoeff if legcoeff.ndim==1 else legcoeff[bands.index(sp.band)]
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 78e96a8..4ac775b 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -279,7 +279,7 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
     ret_zcoeff = {}
     ret_zcoeff['alpha'] = []
     if nleg>0:
-        for b in bands: # bands as save in targets object
+        for b in sorted(bands): # order in which they are concatenated
             ret_zcoeff[b] = []
 
     new_bands = sorted(bands) # saves as correct order
-- 
2.43.0

