From c31c939e9b263ea7831557456acc55ce53f2c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 01/20] fix: use builtin scalar types instead of removed numpy
 aliases (np.bool, np.complex, ...)

---
 pygsti/algorithms/germselection.py | 2 +-
 pygsti/extras/crosstalk/core.py    | 2 +-
 pygsti/io/jsoncodec.py             | 2 +-
 pygsti/objects/circuit.py          | 2 +-
 pygsti/objects/datacomparator.py   | 4 ++--
 pygsti/objects/qubitgraph.py       | 4 ++--
 pygsti/report/workspace.py         | 2 +-
 pygsti/report/workspaceplots.py    | 4 ++--
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 1564242..fdebeda 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -478,7 +478,7 @@ def calc_bulk_twirled_DDD(model, germsList, eps=1e-6, check=False,
     #NEW: faster, one-germ-at-a-time computation requires less memory.
     nGerms, _, vec_model_dim = twirledDeriv.shape
     twirledDerivDaggerDeriv = _np.empty((nGerms, vec_model_dim, vec_model_dim),
-                                        dtype=_np.complex)
+                                        dtype=complex)
     for i in range(nGerms):
         twirledDerivDaggerDeriv[i, :, :] = _np.dot(
             twirledDeriv[i, :, :].conjugate().T, twirledDeriv[i, :, :])
diff --git a/pygsti/extras/crosstalk/core.py b/pygsti/extras/crosstalk/core.py
index 98d6f1b..f28aa4b 100644
--- a/pygsti/extras/crosstalk/core.py
+++ b/pygsti/extras/crosstalk/core.py
@@ -982,7 +982,7 @@ def pairwise_indep_expts(q):
     for i in range(q):
         for a in range(q):
             for b in range(q):
-                vals[a*q+b,i] = _np.int(_np.mod(a*i+b,q))
+                vals[a*q+b,i] = int(_np.mod(a*i+b,q))
 
     length = _np.shape(vals)[0]
     return length, vals
diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 3842b99..a848958 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -196,7 +196,7 @@ def encode_std_obj(py_obj, binary):
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
         data = py_obj.tobytes() if binary else tostr(_base64.b64encode(py_obj.tobytes()))
-        if(py_obj.dtype == _np.object): raise TypeError("Cannot serialize object ndarrays!")
+        if(py_obj.dtype == object): raise TypeError("Cannot serialize object ndarrays!")
         return {'__ndarray__': data,
                 'dtype': descr,
                 'kind': kind,
diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 1925499..f3b14dd 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -74,7 +74,7 @@ def _np_to_quil_def_str(name, input_array):
 def _num_to_rqc_str(num):
     """Convert float to string to be included in RQC quil DEFGATE block
     (as written by _np_to_quil_def_str)."""
-    num = _np.complex(_np.real_if_close(num))
+    num = complex(_np.real_if_close(num))
     if _np.imag(num) == 0:
         output = str(_np.real(num))
         return output
diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 64d4e52..8d52f00 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -72,11 +72,11 @@ def loglikelihoodRatio(nListList):
         The log-likehood ratio for this model comparison.
     """
     nListC = _np.sum(nListList, axis=0)
-    pListC = nListC / _np.float(_np.sum(nListC))
+    pListC = nListC / float(_np.sum(nListC))
     lC = loglikelihood(pListC, nListC)
     li_list = []
     for nList in nListList:
-        pList = _np.array(nList) / _np.float(_np.sum(nList))
+        pList = _np.array(nList) / float(_np.sum(nList))
         li_list.append(loglikelihood(pList, nList))
     lS = _np.sum(li_list)
     return -2 * (lC - lS)
diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 2ae19b0..6e5a316 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -144,12 +144,12 @@ class QubitGraph(object):
 
         #Determine whether we'll be using directions or not: set self.directions
         if initial_connectivity is not None:
-            if initial_connectivity.dtype == _np.bool:
+            if initial_connectivity.dtype == bool:
                 assert(direction_names is None), \
                     "`initial_connectivity` must have *integer* indices when `direction_names` is non-None"
             else:
                 #TODO: fix numpy integer-type test here
-                assert(initial_connectivity.dtype == _np.int), \
+                assert(initial_connectivity.dtype == int), \
                     ("`initial_connectivity` can only have dtype == bool or "
                      "int (but has dtype=%s)") % str(initial_connectivity.dtype)
                 assert(direction_names is not None), \
diff --git a/pygsti/report/workspace.py b/pygsti/report/workspace.py
index 794004e..2173337 100644
--- a/pygsti/report/workspace.py
+++ b/pygsti/report/workspace.py
@@ -1288,7 +1288,7 @@ class SwitchValue(object):
         self.dependencies = dependencies
 
         shape = [len(self.parent.positionLabels[i]) for i in dependencies]
-        self.base = _np.empty(shape, dtype=_np.object)
+        self.base = _np.empty(shape, dtype=object)
         index_all = (slice(None, None),) * len(shape)
         self.base[index_all] = NotApplicable(self.ws)
 
diff --git a/pygsti/report/workspaceplots.py b/pygsti/report/workspaceplots.py
index 29bc50a..825eb99 100644
--- a/pygsti/report/workspaceplots.py
+++ b/pygsti/report/workspaceplots.py
@@ -1928,7 +1928,7 @@ def _mx_fn_drifttvd(plaq, x, y, instabilityanalyzertuple):
 
 
 def _separate_outcomes_matrix(plaq, elements, fmt="%.3g"):
-    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, _, elIndices, _ in plaq.iter_simplified():
         list_mx[i, j] = ", ".join(["NaN" if _np.isnan(x) else
                                    (fmt % x) for x in elements[elIndices]])
@@ -1941,7 +1941,7 @@ def _outcome_to_str(x):  # same function as in writers.py
 
 
 def _addl_mx_fn_sl(plaq, x, y, extra):
-    slmx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    slmx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, opstr, elIndices, outcomes in plaq.iter_simplified():
         slmx[i, j] = ", ".join([_outcome_to_str(ol) for ol in outcomes])
     return slmx
-- 
2.43.0


From 1739e8bdfe8991f457b32ede36901297586ce1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 02/20] fix: use scipy's assume_a='pos' in place of the removed
 sym_pos argument

---
 pygsti/optimize/customlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/optimize/customlm.py b/pygsti/optimize/customlm.py
index 0e7a5e8..2ae514e 100644
--- a/pygsti/optimize/customlm.py
+++ b/pygsti/optimize/customlm.py
@@ -304,7 +304,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
                     success = True
                     #dx = _np.linalg.solve(JTJ, -JTf)
                     #NEW scipy: dx = _scipy.linalg.solve(JTJ, -JTf, assume_a='pos') #or 'sym'
-                    dx = _scipy.linalg.solve(JTJ, -JTf, sym_pos=True)
+                    dx = _scipy.linalg.solve(JTJ, -JTf, assume_a="pos")
                     if profiler: profiler.add_time("custom_leastsq: linsolve", tm)
                 #except _np.linalg.LinAlgError:
                 except _scipy.linalg.LinAlgError:
@@ -317,7 +317,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
                         df2 = (obj_fn(x + df2_dx) + obj_fn(x - df2_dx) - 2 * f) / \
                             df2_eps**2  # 2nd deriv of f along dx direction
                         JTdf2 = _np.dot(Jac.T, df2)
-                        dx2 = _scipy.linalg.solve(JTJ, -0.5 * JTdf2, sym_pos=True)
+                        dx2 = _scipy.linalg.solve(JTJ, -0.5 * JTdf2, assume_a="pos")
                         dx1 = dx.copy()
                         dx += dx2  # add acceleration term to dx
                     except _scipy.linalg.LinAlgError:
-- 
2.43.0


From e2cae493cd71c944ed0167481f8f59742ad74557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 03/20] fix: select germs/fiducials without building ragged
 numpy arrays of circuits

---
 pygsti/algorithms/germselection.py | 8 ++++----
 pygsti/algorithms/grasp.py         | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index fdebeda..66b8cfe 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -974,8 +974,8 @@ def build_up(modelList, germsList, randomize=True,
     if force:
         if force == "singletons":
             weights[_np.where(germLengths == 1)] = 1
-            goodGerms = [germ for germ
-                         in _np.array(germsList)[_np.where(germLengths == 1)]]
+            goodGerms = [germ for germ, germLength in zip(germsList, germLengths)
+                         if germLength == 1]
         else:  # force should be a list of Circuits
             for opstr in force:
                 weights[germsList.index(opstr)] = 1
@@ -1160,8 +1160,8 @@ def build_up_breadth(modelList, germsList, randomize=True,
     if force:
         if force == "singletons":
             weights[_np.where(germLengths == 1)] = 1
-            goodGerms = [germ for germ
-                         in _np.array(germsList)[_np.where(germLengths == 1)]]
+            goodGerms = [germ for germ, germLength in zip(germsList, germLengths)
+                         if germLength == 1]
         else:  # force should be a list of Circuits
             for opstr in force:
                 weights[germsList.index(opstr)] = 1
diff --git a/pygsti/algorithms/grasp.py b/pygsti/algorithms/grasp.py
index e6a29c0..a47c126 100644
--- a/pygsti/algorithms/grasp.py
+++ b/pygsti/algorithms/grasp.py
@@ -231,8 +231,7 @@ def grasp_local_search(initialSoln, scoreFn, elements, getNeighborsFn,
     while betterSolnFound:
         betterSolnFound = False
         weightsNeighbors = getNeighborsFn(currentWeights)
-        neighborSolns = [[element for element
-                          in _np.array(elements)[_np.nonzero(weightsNeighbor)]]
+        neighborSolns = [[elements[idx] for idx in _np.nonzero(weightsNeighbor)[0]]
                          for weightsNeighbor in weightsNeighbors]
         if feasibleTest == 'function':
             feasibleNeighborSolns = [(idx, soln) for idx, soln
-- 
2.43.0


From d72392133900a45272d94f029c1a3cf4d8290548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 04/20] fix: factory signatures and germ-selection retry work
 on current Python (getargspec/formatargspec removed; raise None)

---
 pygsti/algorithms/germselection.py |  3 ++-
 pygsti/report/workspace.py         | 11 +++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 66b8cfe..b442cb2 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -1869,7 +1869,8 @@ def grasp_germ_set_optimization(modelList, germsList, alpha, randomize=True,
                     iteration + 1, iterations), 1)
             except Exception as e:
                 failCount += 1
-                raise e if (failCount == 10) else printer.warning(e)
+                if failCount == 10: raise e
+                printer.warning(e)
 
     finalScores = _np.array([finalScoreFn(localSoln)
                              for localSoln in localSolns])
diff --git a/pygsti/report/workspace.py b/pygsti/report/workspace.py
index 2173337..7c2a15b 100644
--- a/pygsti/report/workspace.py
+++ b/pygsti/report/workspace.py
@@ -214,18 +214,17 @@ class Workspace(object):
     def _makefactory(self, cls, autodisplay):  # , printer=_objs.VerbosityPrinter(1)):
         # XXX this indirection is so wild -- can we please rewrite directly?
         #Manipulate argument list of cls.__init__
-        argspec = _inspect.getargspec(cls.__init__)
-        argnames = argspec[0]
+        argspec = _inspect.getfullargspec(cls.__init__)
+        argnames = argspec.args
         assert(argnames[0] == 'self' and argnames[1] == 'ws'), \
             "__init__ must begin with (self, ws, ...)"
 
         factoryfn_argnames = argnames[2:]  # strip off self & ws args
-        newargspec = (factoryfn_argnames,) + argspec[1:]
 
         #Define a new factory function with appropriate signature
-        signature = _inspect.formatargspec(
-            formatvalue=lambda val: "", *newargspec)
-        signature = signature[1:-1]  # strip off parenthesis from ends of "(signature)"
+        signature = ', '.join(factoryfn_argnames
+                              + (['*' + argspec.varargs] if argspec.varargs else [])
+                              + (['**' + argspec.varkw] if argspec.varkw else []))
 
         if autodisplay:
             factory_func_def = (
-- 
2.43.0


From fa22a687345f6c4f80030aa464a9e7e244049694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 05/20] fix: JSON encoding of objects without their own
 __getstate__, and 1-D eigenvalue matching in reports

---
 pygsti/io/jsoncodec.py           | 4 +++-
 pygsti/report/workspacetables.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index a848958..68eba24 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -78,7 +78,9 @@ def encode_obj(py_obj, binary):
             state.update({'__init_args__': init_args})
         elif class_hasattr(py_obj, '__pygsti_getstate__'):
             state = py_obj.__pygsti_getstate__()  # must return a dict
-        elif class_hasattr(py_obj, '__getstate__'):
+        elif class_hasattr(py_obj, '__getstate__') and \
+                getattr(py_obj.__class__, '__getstate__') is not getattr(object, '__getstate__', None):
+            # (Python >= 3.11 defines a default object.__getstate__, which doesn't count here)
             state = py_obj.__getstate__()
         elif hasattr(py_obj, '__dict__'):
             state = py_obj.__dict__  # take __dict__ as state
diff --git a/pygsti/report/workspacetables.py b/pygsti/report/workspacetables.py
index 09618d2..5dd02cb 100644
--- a/pygsti/report/workspacetables.py
+++ b/pygsti/report/workspacetables.py
@@ -2042,7 +2042,7 @@ class GateEigenvalueTable(WorkspaceTable):
                             model, targetModel, gl), confidenceRegionInfo)
 
                 # permute target eigenvalues according to min-weight matching
-                _, pairs = _tools.minweight_match(evals.get_value(), target_evals, lambda x, y: abs(x - y))
+                _, pairs = _tools.minweight_match(evals.get_value().flatten(), target_evals, lambda x, y: abs(x - y))
                 matched_target_evals = target_evals.copy()
                 for i, j in pairs:
                     matched_target_evals[i] = target_evals[j]
@@ -2152,7 +2152,7 @@ class GateEigenvalueTable(WorkspaceTable):
                     #Note: no support for relative eigenvalues of instruments (yet)
 
                     # permute target eigenvalues according to min-weight matching
-                    _, pairs = _tools.minweight_match(evals.get_value(), target_evals, lambda x, y: abs(x - y))
+                    _, pairs = _tools.minweight_match(evals.get_value().flatten(), target_evals, lambda x, y: abs(x - y))
                     matched_target_evals = target_evals.copy()
                     for i, j in pairs:
                         matched_target_evals[i] = target_evals[j]
-- 
2.43.0


From f9015456e1c079e66c74420092fbe61061dd53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 06/20] fix: label renaming, relabelling and copying keep name,
 state-space labels, args and time

---
 pygsti/objects/label.py | 63 +++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 2f2b3ed..7ad7dba 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -285,7 +285,7 @@ class LabelTup(Label, tuple):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
-        return Label(self.name, mapped_sslbls)
+        return Label(self.name, mapped_sslbls, self.time)
 
     #OLD
     #def __iter__(self):
@@ -319,7 +319,7 @@ class LabelTup(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTup(self.name + s, self.sslbls)
+            return LabelTup((self.name + s,) + self[1:], self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -358,7 +358,7 @@ class LabelTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTup(newname, self.sslbls) if (self.name == oldname) else self
+        return LabelTup((newname,) + self[1:], self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -447,6 +447,23 @@ class LabelStr(Label, str):
         """
         return self.startswith(prefix)
 
+    def map_state_space_labels(self, mapper):
+        """
+        Return a copy of this Label with all of the state-space-labels updated
+        according to a mapping function - which is just this label, since it
+        has no state-space-labels.
+
+        Parameters
+        ----------
+        mapper : dict or function
+            A dictionary or function mapping existing to new labels (unused).
+
+        Returns
+        -------
+        Label
+        """
+        return self
+
     def __str__(self):
         s = self[:]  # converts to a normal str
         if self.time != 0.0:
@@ -458,7 +475,7 @@ class LabelStr(Label, str):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelStr(self.name + str(s))
+            return LabelStr(self.name + str(s), self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -481,17 +498,17 @@ class LabelStr(Label, str):
     def __reduce__(self):
         # Need to tell serialization logic how to create a new Label since it's derived
         # from the immutable tuple type (so cannot have its state set after creation)
-        return (LabelStr, (str(self), self.time), None)
+        return (LabelStr, (self.name, self.time), None)
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
             faster serialization.
         """
-        return str(self)
+        return self.name
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelStr(newname) if (self.name == oldname) else self
+        return LabelStr(newname, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -611,7 +628,7 @@ class LabelTupTup(Label, tuple):
         -------
         Label
         """
-        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)))
+        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)), self.time)
 
     def __str__(self):
         """
@@ -664,7 +681,7 @@ class LabelTupTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)))
+        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -832,8 +849,8 @@ class CircuitLabel(Label, tuple):
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
-                            mapped_sslbls,
-                            self[2])
+                            tuple(mapped_sslbls),
+                            self[2], self.time)
 
     def __str__(self):
         """
@@ -900,7 +917,7 @@ class CircuitLabel(Label, tuple):
         return CircuitLabel(self.name,
                             tuple((x.replacename(oldname, newname) for x in self.components)),
                             self.sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1065,6 +1082,8 @@ class LabelTupWithArgs(Label, tuple):
         -------
         Label
         """
+        if self.sslbls is None:
+            return self  # nothing to map
         if isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
@@ -1093,7 +1112,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTupWithArgs(self.name + s, self.sslbls, self.time, self.args)
+            return LabelTupWithArgs((self.name + s,) + self[1:], self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -1132,7 +1151,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupWithArgs(newname, self.sslbls, self.time, self.args) if (self.name == oldname) else self
+        return LabelTupWithArgs((newname,) + self[1:], self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1171,15 +1190,15 @@ class LabelTupTupWithArgs(Label, tuple):
         """
         assert(time is None or isinstance(time, float)), "`time` must be a floating point value, received: " + str(time)
         assert(len(args) > 0), "`args` must be a nonempty list/tuple of hashable arguments"
-        tupOfLabels = (1 + len(args),) + args + tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
+        tupOfLabels = (1 + len(args),) + tuple(args) + tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
         # stores: (K, args, subLabels) where K is the index of the start of subLabels
 
         #if time is not None:
         #    assert(all([(time == l.time or l.time is None) for l in tupOfLabels[1 + len(args):]])), \
         #        "Component times do not match compound label time!"
         if time is None:
-            time = 0.0 if len(tupOfLabels) == 0 else \
-                max([lbl.time for lbl in tupOfLabels])
+            time = 0.0 if len(tupOfTups) == 0 else \
+                max([lbl.time for lbl in tupOfLabels[tupOfLabels[0]:]])
         return cls.__new__(cls, tupOfLabels, time)
 
     def __new__(cls, tupOfLabels, time=0.0):
@@ -1264,8 +1283,8 @@ class LabelTupTupWithArgs(Label, tuple):
         -------
         Label
         """
-        return LabelTupTupWithArgs(tuple((lbl.map_state_space_labels(mapper)
-                                          for lbl in self.components)), self.time, self.args)
+        return LabelTupTupWithArgs(self[0:self[0]] + tuple((lbl.map_state_space_labels(mapper)
+                                                            for lbl in self.components)), self.time)
 
     def __str__(self):
         """
@@ -1281,7 +1300,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self]) + argstr + timestr + "]"
+        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
@@ -1328,8 +1347,8 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTupWithArgs(tuple((x.replacename(oldname, newname) for x in self.components)),
-                                   self.time, self.args)
+        return LabelTupTupWithArgs(self[0:self[0]] + tuple((x.replacename(oldname, newname)
+                                                            for x in self.components)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
-- 
2.43.0


From c531c6fb524114f7ff3cfde56562ce895317b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 07/20] fix: label arguments given beside a tuple, recursive
 containment and nested sub-circuit text

---
 pygsti/objects/label.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 7ad7dba..60dc1ca 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -116,7 +116,7 @@ class Label(object):
                                 time = float(x[1:])
                             continue
                     stateSpaceLabels.append(x)
-                args = tup_args if len(tup_args) > 0 else None
+                if len(tup_args) > 0: args = tup_args
                 stateSpaceLabels = tuple(stateSpaceLabels)  # needed for () and (None,) comparison below
 
         if time is None:
@@ -671,7 +671,7 @@ class LabelTupTup(Label, tuple):
 
     def __contains__(self, x):
         # "recursive" contains checks component containers
-        return any([(x == layer or x in layer) for layer in self.components])
+        return any([(x == layer or (not isinstance(layer, LabelStr) and x in layer)) for layer in self.components])
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
@@ -864,7 +864,8 @@ class CircuitLabel(Label, tuple):
             s = "".join([str(lbl) for lbl in self.components])
             if self.time != 0.0:
                 s += ("!%f" % self.time).rstrip('0').rstrip('.')
-            if len(self.components) > 1:
+            if len(self.components) > 1 or (len(self.components) == 1 and self[2] != 1
+                                            and self.components[0].reps != 1):
                 s = "(" + s + ")"  # add parenthesis
         if self[2] != 1: s += "^%d" % self[2]
         return s
@@ -904,7 +905,7 @@ class CircuitLabel(Label, tuple):
 
     def __contains__(self, x):
         # "recursive" contains checks component containers
-        return any([(x == layer or x in layer) for layer in self.components])
+        return any([(x == layer or (not isinstance(layer, LabelStr) and x in layer)) for layer in self.components])
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
@@ -1337,7 +1338,7 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def __contains__(self, x):
         # "recursive" contains checks component containers
-        return any([(x == layer or x in layer) for layer in self.components])
+        return any([(x == layer or (not isinstance(layer, LabelStr) and x in layer)) for layer in self.components])
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
-- 
2.43.0


From b6fe40920f5c034caff165f1f793b363fb363679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 08/20] fix: circuit text: same state-space label rules in both
 parsers; layers that keep their sub-circuits when printed; one-label layers
 after expansion

---
 pygsti/io/circuitparser/fastcircuitparser.pyx |  4 +++-
 pygsti/io/circuitparser/slowcircuitparser.py  | 10 ++++------
 pygsti/objects/circuit.py                     |  3 +--
 pygsti/objects/label.py                       | 14 +++++++++++---
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/pygsti/io/circuitparser/fastcircuitparser.pyx b/pygsti/io/circuitparser/fastcircuitparser.pyx
index a6a5906..8b95a2a 100644
--- a/pygsti/io/circuitparser/fastcircuitparser.pyx
+++ b/pygsti/io/circuitparser/fastcircuitparser.pyx
@@ -195,7 +195,9 @@ cdef get_next_simple_lbl(unicode s, INT start, INT end, bool integerize_sslbls,
                 i += 1; is_int = False
             else:
                 break
-        if integerize_sslbls and is_int:
+        if i == last:
+            raise ValueError("Missing state-space label at: %s..." % s[i-1:i+4])
+        elif integerize_sslbls and is_int:
             sslbls.append(int(s[last:i])); last = i
         else:
             sslbls.append(s[last:i]); last = i
diff --git a/pygsti/io/circuitparser/slowcircuitparser.py b/pygsti/io/circuitparser/slowcircuitparser.py
index f914751..6cf877a 100644
--- a/pygsti/io/circuitparser/slowcircuitparser.py
+++ b/pygsti/io/circuitparser/slowcircuitparser.py
@@ -133,12 +133,10 @@ def _get_next_simple_lbl(s, start, end, integerize_sslbls, segment):
                 i += 1
             else:
                 break
-        if integerize_sslbls:
-            try:
-                val = int(s[last:i])
-            except:
-                val = s[last:i]
-            sslbls.append(val); last = i
+        if integerize_sslbls and s[last:i].isdigit():
+            sslbls.append(int(s[last:i])); last = i
+        elif i == last:
+            raise ValueError("Missing state-space label at: %s..." % s[i - 1:i + 4])
         else:
             sslbls.append(s[last:i]); last = i
 
diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index f3b14dd..8e9da6d 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -139,8 +139,7 @@ def _opSeqToStr(seq, line_labels):
         if line_labels is None or line_labels == ('*',): return "{}"
         else: return "{}@(" + ','.join(map(str, line_labels)) + ")"
 
-    def process_lists(el): return el if not isinstance(el, list) else \
-        ('[%s]' % ''.join(map(str, el)) if (len(el) != 1) else str(el[0]))
+    def process_lists(el): return _Label(el) if isinstance(el, list) else el
 
     if line_labels is None or line_labels == ('*',):
         return ''.join(map(str, map(process_lists, seq)))
diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 60dc1ca..a293bb4 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -16,6 +16,14 @@ import inspect
 debug_record = {}
 
 
+def _str_within_layer(lbl):
+    """ The text of `lbl` as a component of a layer, where "Gx:0^2" would be read as *two* components """
+    s = str(lbl)
+    if isinstance(lbl, CircuitLabel) and lbl.reps != 1 and len(lbl.name) == 0 and s[0] != "(":
+        s = "(%s)^%d" % (s[:s.rindex("^")], lbl.reps)
+    return s
+
+
 class Label(object):
     """
     A label consisting of a string along with a tuple of
@@ -634,7 +642,7 @@ class LabelTupTup(Label, tuple):
         """
         Defines how a Label is printed out, e.g. Gx:0 or Gcnot:1:2
         """
-        return "[" + "".join([str(lbl) for lbl in self]) + "]"
+        return "[" + "".join([_str_within_layer(lbl) for lbl in self]) + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
@@ -719,7 +727,7 @@ class LabelTupTup(Label, tuple):
                 if i < len(expanded_comp):
                     ec.extend(expanded_comp[i].components)  # .components = vertical expansion
             #assert(len(ec) > 0), "Logic error!" #this is ok (e.g. an idle subcircuit)
-            ret.append(LabelTupTup.init(ec))
+            ret.append(Label(tuple(ec)))  # (a layer with a single label is just that label)
         return tuple(ret)
 
     __hash__ = tuple.__hash__  # this is why we derive from tuple - using the
@@ -1301,7 +1309,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
+        return "[" + "".join([_str_within_layer(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
-- 
2.43.0


From b77431d244dd4e093a2f532f7b07817ed1c9e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 09/20] fix: circuit editing operations: line/layer selection,
 insertion, relabelling, straddling labels, idle layers, time/args kept

---
 pygsti/objects/circuit.py | 108 ++++++++++++++++++++++----------------
 pygsti/objects/label.py   |   6 ++-
 2 files changed, 67 insertions(+), 47 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 8e9da6d..4dcb9a4 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -97,7 +97,7 @@ def _label_to_nested_lists_of_simple_labels(lbl, default_sslbls=None, always_ret
         lbl = _Label(lbl)  # e.g. a string or list/tuple of labels, etc.
     if lbl.issimple():  # a *simple* label - the elements of our lists
         if lbl.sslbls is None and default_sslbls is not None:
-            lbl = _Label(lbl.name, default_sslbls)
+            lbl = _Label(lbl.name, default_sslbls, lbl.time, lbl.args)
         return [lbl] if always_return_list else lbl
     return [_label_to_nested_lists_of_simple_labels(l, default_sslbls, False)
             for l in lbl.components]  # a *list*
@@ -348,7 +348,7 @@ class Circuit(object):
             self._labels = layer_labels_objs
         else:
             self._labels = [_label_to_nested_lists_of_simple_labels(layer_lbl)
-                            for layer_lbl in layer_labels]
+                            for layer_lbl in (layer_labels if layer_labels_objs is None else layer_labels_objs)]
 
         #Set self._static, _reps, _name
         self._static = not editable
@@ -409,9 +409,10 @@ class Circuit(object):
             if removed_not_idling and self._static:
                 raise ValueError("Cannot remove non-idling lines %s from a read-only circuit!" %
                                  str(removed_not_idling))
-            else:
+            elif removed_not_idling:
                 self.delete_lines(tuple(removed_not_idling))
         self._line_labels = tuple(value)
+        if self._static: self._str = None  # the text includes the line labels
 
     @property
     def name(self):
@@ -441,6 +442,8 @@ class Circuit(object):
     @property
     def str(self):
         """ The Python string representation of this Circuit."""
+        if not self._static and self._str is not None and not self._evaluates_to_self(self._str):
+            self._str = None  # this circuit has been edited since its text was set
         if self._str is None:
             generated_str = _opSeqToStr(self._labels, self.line_labels)  # lazy generation
             if self._static:  # if we're read-only then cache the string one and for all,
@@ -465,7 +468,7 @@ class Circuit(object):
         cparser = _CircuitParser()
         chk, chk_labels = cparser.parse(value)
 
-        if not all([my_layer in (chk_lbl, [chk_lbl]) for chk_lbl, my_layer in zip(chk, self._labels)]):
+        if not self._evaluates_to_self(value):
             raise ValueError(("Cannot set .str to %s because it doesn't"
                               " evaluate to %s (this circuit)") %
                              (value, self.str))
@@ -476,6 +479,12 @@ class Circuit(object):
                                  (value, chk_labels, str(self.line_labels)))
         self._str = value
 
+    def _evaluates_to_self(self, value):
+        """ Whether the string `value` stands for this circuit's layers """
+        chk, _ = _CircuitParser().parse(value)
+        expanded = tuple(_itertools.chain(*[x.expand_subcircuits() for x in chk]))
+        return self.layertup in (tuple(chk), expanded)
+
     def __hash__(self):
         if not self._static:
             _warnings.warn(("Editable circuit is being converted to read-only"
@@ -579,7 +588,8 @@ class Circuit(object):
         Circuit
         """
         if editable == "auto": editable = not self._static
-        return Circuit(self.layertup, self.line_labels, None, editable, self._str, check=False)
+        return Circuit(self.layertup, self.line_labels, None, editable, self._str, check=False,
+                       expand_subcircuits=False)
 
     def clear(self):
         """
@@ -594,7 +604,7 @@ class Circuit(object):
             layers = list(range(len(self._labels)))
         elif isinstance(layers, slice):
             if layers.start is None and layers.stop is None:
-                layers = ()
+                layers = list(range(len(self._labels)))[layers]  # e.g. circuit[:]
             else:
                 layers = _slct.indices(layers, len(self._labels))
         elif not isinstance(layers, (list, tuple)):
@@ -607,7 +617,7 @@ class Circuit(object):
             lines = self.line_labels
         elif isinstance(lines, slice):
             if lines.start is None and lines.stop is None:
-                lines = ()
+                lines = self.line_labels[lines]
             else:
                 lines = _slct.indices(lines)
         elif not isinstance(lines, (list, tuple)):
@@ -617,7 +627,7 @@ class Circuit(object):
     def _proc_key_arg(self, key):
         """ Pre-process the key argument used by many methods """
         if isinstance(key, tuple):
-            if len(key) != 2: return IndexError("Index must be of the form <layerIndex>,<lineIndex>")
+            if len(key) != 2: raise IndexError("Index must be of the form <layerIndex>,<lineIndex>")
             layers = key[0]
             lines = key[1]
         else:
@@ -740,7 +750,7 @@ class Circuit(object):
                 else:
                     sslbls = set(sslbls)
                 if (strict and sslbls.issubset(lines)) or \
-                   (not strict and len(sslbls.intersection(lines)) >= 0):
+                   (not strict and len(sslbls.intersection(lines)) > 0):
                     ret_layer.append(l)
             ret.append(ret_layer)
 
@@ -807,7 +817,7 @@ class Circuit(object):
             if isinstance(lbls, Circuit):  # special case: "box" a circuit assigned to a single layer
                 lbls = lbls.as_label()     # converts Circuit => CircuitLabel
             lbls = toLabel(lbls)
-            lbls_sslbls = None if (lbls.sslbls is None) else set(lbls.sslbls)
+            lbls_sslbls = _accumulate_explicit_sslbls(lbls)
         else:
             if isinstance(lbls, Circuit):
                 assert(set(lbls.line_labels).issubset(self.line_labels)), \
@@ -818,31 +828,31 @@ class Circuit(object):
                 ("When assigning to a layer range (even w/len=1) `lbls` "
                  "must be  a *list or tuple* of label-like items")
             lbls = tuple(map(toLabel, lbls))
-            lbls_sslbls = None if any([l.sslbls is None for l in lbls]) \
-                else set(_itertools.chain(*[l.sslbls for l in lbls]))
+            lbls_sslbls = _accumulate_explicit_sslbls(lbls)
 
-        if len(layers) == 0 or len(lines) == 0: return  # zero-area block
+        if all_layers and len(lbls) > len(layers): layers = list(range(len(lbls)))  # new layers are added below
+        if len(layers) == 0 or (len(lines) == 0 and not all_lines): return  # zero-area block
 
         #If we're assigning to multiple layers, then divide up lbls into pieces to place in each layer
         if all_layers:  # then we'll add new layers as needed
             while len(lbls) > len(self._labels):
                 self._labels.append([])
-        elif len(layers) > 1:
+        elif not int_layers:
             assert(len(layers) == len(lbls)), \
                 "Block width mismatch: assigning %d layers to %d layers" % (len(lbls), len(layers))
 
         # when processing `lbls`: if a label has sslbls == None, then applies to all
         # the lines being assigned.  If sslbl != None, then the labels must be
         # contained within the line labels being assigned (unless we're allowed to expand)
-        if lbls_sslbls is not None:
-            new_line_labels = set(lbls_sslbls) - set(self.line_labels)
-            if all_lines:  # then allow new lines to be added
-                if len(new_line_labels) > 0:
-                    self._line_labels = self.line_labels + tuple(sorted(new_line_labels))  # sort?
-            else:
-                assert(len(new_line_labels) == 0), "Cannot add new lines %s" % str(new_line_labels)
-                assert(set(lbls_sslbls).issubset(lines)), \
-                    "Unallowed state space labels: %s" % str(set(lbls_sslbls) - set(lines))
+        new_line_labels = set(lbls_sslbls) - set(self.line_labels)
+        if all_lines:  # then allow new lines to be added
+            if len(new_line_labels) > 0:
+                self._line_labels = self.line_labels + tuple(sorted(new_line_labels))  # sort?
+                lines = self.line_labels
+        else:
+            assert(len(new_line_labels) == 0), "Cannot add new lines %s" % str(new_line_labels)
+            assert(set(lbls_sslbls).issubset(lines)), \
+                "Unallowed state space labels: %s" % str(set(lbls_sslbls) - set(lines))
 
         assert(set(lines).issubset(self.line_labels)), \
             ("Specified lines (%s) must be a subset of this circuit's lines"
@@ -890,20 +900,23 @@ class Circuit(object):
         if insertBefore is None: insertBefore = len(self._labels)
         elif insertBefore < 0: insertBefore = len(self._labels) + insertBefore
 
+        if numToInsert == 0: return
+        if lines is not None: lines = self._proc_lines_arg(lines)
         if lines is None:  # insert complete layers
             for i in range(numToInsert):
                 self._labels.insert(insertBefore, [])
         else:  # insert layers only on given lines - shift existing labels to right
             for i in range(numToInsert):
                 self._labels.append([])  # add blank layers at end
-            for i in range(insertBefore, insertBefore + numToInsert):
+            for i in reversed(range(insertBefore, len(self._labels) - numToInsert)):
                 # move labels on `lines` to layer i+numToInsert
                 inds_to_delete = []
                 for k, lbl in enumerate(self._labels[i]):
                     sslbls = _sslbls_of_nested_lists_of_simple_labels(lbl)
+                    sslbls = set(self.line_labels if (sslbls is None) else sslbls)
                     if len(sslbls.intersection(lines)) > 0:  # then we need to move this label
                         if not sslbls.issubset(lines):
-                            raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
+                            raise ValueError("Cannot shift a block that is straddled by %s!" % str(_Label(lbl)))
                             #FUTURE: recover from this error gracefully so we don't leave the circuit in an intermediate
                             #state?
                         inds_to_delete.append(k)  # remove it from current layer
@@ -970,6 +983,8 @@ class Circuit(object):
         # lbls is expected to be a list/tuple of Label-like items, one per inserted layer
         lbls = tuple(map(toLabel, lbls))
         numLayersToInsert = len(lbls)
+        if layerToInsertBefore is None: layerToInsertBefore = len(self._labels)
+        elif layerToInsertBefore < 0: layerToInsertBefore = len(self._labels) + layerToInsertBefore
         self.insert_idling_layers(layerToInsertBefore, numLayersToInsert, lines)  # make space
         self.set_labels(lbls, slice(layerToInsertBefore, layerToInsertBefore + numLayersToInsert), lines)
         #Note: set_labels expects lbls to be a list/tuple of Label-like items b/c it's given a layer *slice*
@@ -1055,9 +1070,9 @@ class Circuit(object):
 
         if isinstance(lbls, Circuit):
             if line_labels == "auto": line_labels = lbls.line_labels
-            lbls = lbls.tup
+            lbls = lbls.layertup
         elif line_labels == "auto":
-            line_labels = tuple(sorted(_accumulate_explicit_sslbls(lbls)))
+            line_labels = tuple(sorted(_accumulate_explicit_sslbls(list(map(toLabel, lbls)))))
 
         existing_labels = set(line_labels).intersection(self.line_labels)
         if len(existing_labels) > 0:
@@ -1196,7 +1211,7 @@ class Circuit(object):
                     new_layer.append(l)
                 elif not delete_straddlers and not set(sslbls).issubset(lines):
                     raise ValueError(("Cannot remove a block that is straddled by "
-                                      "%s when `delete_straddlers` == False!") % _Label(l))
+                                      "%s when `delete_straddlers` == False!") % str(_Label(l)))
             self._labels[i] = new_layer
         self._line_labels = tuple([x for x in self.line_labels if x not in lines])
 
@@ -1440,7 +1455,7 @@ class Circuit(object):
             #Construct a sub-circuit label that repeats layer[iStart] nreps times
             # and stick it at layer iStart
             #print("Constructing %d reps at %d" % (nreps, iStart))
-            repCircuit = _CircuitLabel('', self._labels[iStart], None, nreps)
+            repCircuit = _CircuitLabel('', (toLabel(self._labels[iStart]),), None, nreps)
             self.clear_labels(iStart, None)  # remove existing labels (unnecessary?)
             self.set_labels(repCircuit, iStart, None)
             iLayersToRemove.extend(list(range(iStart + 1, iEnd)))
@@ -1642,9 +1657,7 @@ class Circuit(object):
 
         def replace(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.name == old_gatename:
-                    newobj = _Label(new_gatename, obj.sslbls)
-                else: newobj = obj
+                newobj = obj.replacename(old_gatename, new_gatename)
             else:
                 newobj = [replace(sub) for sub in obj]
             return newobj
@@ -1881,16 +1894,18 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(gatename): return mapper.get(gatename, None) \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(gatename)
 
         def map_names(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.issimple():  # *simple* label
+                if isinstance(obj, _CircuitLabel):  # a sub-circuit
+                    newobj = _CircuitLabel(obj.name, tuple(map(map_names, obj.components)), obj.sslbls, obj.reps, obj.time)
+                elif obj.issimple():  # *simple* label
                     new_name = mapper_func(obj.name)
-                    newobj = _Label(new_name, obj.sslbls) \
+                    newobj = obj.replacename(obj.name, new_name) \
                         if (new_name is not None) else obj
                 else:  # compound label
-                    newobj = _Label([map_names(comp) for comp in obj.components])
+                    newobj = _Label([map_names(comp) for comp in obj.components], time=obj.time)
             else:
                 newobj = [map_names(sub) for sub in obj]
             return newobj
@@ -1916,15 +1931,13 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(line_label): return mapper[line_label] \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(line_label)
 
         self._line_labels = tuple((mapper_func(l) for l in self.line_labels))
 
         def map_sslbls(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                new_sslbls = [mapper_func(l) for l in obj.sslbls] \
-                    if (obj.sslbls is not None) else None
-                newobj = _Label(obj.name, new_sslbls)
+                newobj = obj.map_state_space_labels(mapper_func)
             else:
                 newobj = [map_sslbls(sub) for sub in obj]
             return newobj
@@ -1994,6 +2007,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # (an empty layer is idle on all lines)
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2022,6 +2036,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # (an empty layer is idle on all lines)
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2058,6 +2073,7 @@ class Circuit(object):
         if self._static:
             layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
                 if idle_layer_labels else self._labels
+            layers = [layer for layer in layers if len(layer.components) > 0]  # (an empty layer is idle on all lines)
             all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
                 else set(_itertools.chain(*[layer.sslbls for layer in layers]))
         else:
@@ -2169,9 +2185,10 @@ class Circuit(object):
                 for b, lblB in enumerate(layerB_comps):
                     if isinstance(lblB, _Label):
                         #see if layerA happens to *not* have anything on lblB.sslbls:
-                        if layerA_sslbls is None or \
-                           (lblB.sslbls is not None and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0):
-                            applies.append((-1, b, lblB.name, lblB.sslbls))  # shift label over
+                        # (None means that some label in layerA acts on *all* the lines)
+                        if layerA_sslbls is not None and lblB.sslbls is not None \
+                           and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0:
+                            applies.append((-1, b, lblB, lblB.sslbls))  # shift label over
                             break
 
                 if len(applies) > 0:
@@ -2183,7 +2200,7 @@ class Circuit(object):
                 ilayer_inds_to_remove = []
                 for a, b, new_Aname, sslbls in sorted_applies:
                     if a == -1:  # Note: new_Aname cannot be None here
-                        self._append_layer_component(ilayer, _Label(new_Aname, sslbls))
+                        self._append_layer_component(ilayer, new_Aname)  # (the label itself)
                     elif new_Aname is None:
                         ilayer_inds_to_remove.append(a)  # remove layer component - but wait to do so in order
                     else:
@@ -3145,8 +3162,9 @@ class Circuit(object):
         None
         """
         if not self._static:
-            self._static = True
+            if self._str is not None and not self._evaluates_to_self(self._str): self._str = None
             self._labels = tuple([_Label(layer_lbl) for layer_lbl in self._labels])
+            self._static = True
 
 
 class CompressedCircuit(object):
diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index a293bb4..ca08ec3 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -851,13 +851,15 @@ class CircuitLabel(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
+        if self.sslbls is None:
+            mapped_sslbls = None  # acts on all the lines, whatever they're called
+        elif isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
-                            tuple(mapped_sslbls),
+                            tuple(mapped_sslbls) if (mapped_sslbls is not None) else None,
                             self[2], self.time)
 
     def __str__(self):
-- 
2.43.0


From 4f0062ee5d8090ce18a1e24f867d0a0d804925bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 10/20] fix: circuit comparison, containment, slices beyond the
 ends, parallelize/serialize and expansion of (nested) sub-circuits, text
 after line edits

---
 pygsti/objects/circuit.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 4dcb9a4..2b8fb31 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -15,7 +15,7 @@ import itertools as _itertools
 import warnings as _warnings
 
 from . import labeldicts as _ld
-from .label import Label as _Label, CircuitLabel as _CircuitLabel
+from .label import Label as _Label, CircuitLabel as _CircuitLabel, LabelStr as _LabelStr
 from ..io import CircuitParser as _CircuitParser
 from ..tools import internalgates as _itgs
 from ..tools import compattools as _compat
@@ -505,7 +505,7 @@ class Circuit(object):
 
     def __contains__(self, x):
         """Note: this is not covered by __iter__ for case of contained CircuitLabels """
-        return any([(x == layer or x in layer) for layer in self._labels])
+        return any([(x == layer or (not isinstance(layer, _LabelStr) and x in layer)) for layer in self.layertup])
 
     def __add__(self, x):
         if not isinstance(x, Circuit):
@@ -558,10 +558,10 @@ class Circuit(object):
             return self.tup == tuple(x)
 
     def __lt__(self, x):
-        return self.tup.__lt__(tuple(x))
+        return self.tup.__lt__(x.tup if isinstance(x, Circuit) else tuple(x))
 
     def __gt__(self, x):
-        return self.tup.__gt__(tuple(x))
+        return self.tup.__gt__(x.tup if isinstance(x, Circuit) else tuple(x))
 
     def number_of_lines(self):
         """
@@ -603,10 +603,7 @@ class Circuit(object):
         if layers is None:
             layers = list(range(len(self._labels)))
         elif isinstance(layers, slice):
-            if layers.start is None and layers.stop is None:
-                layers = list(range(len(self._labels)))[layers]  # e.g. circuit[:]
-            else:
-                layers = _slct.indices(layers, len(self._labels))
+            layers = list(range(len(self._labels)))[layers]
         elif not isinstance(layers, (list, tuple)):
             layers = (layers,)
         return layers
@@ -1014,6 +1011,7 @@ class Circuit(object):
         else:
             i = self.line_labels.index(insertBefore)
         self._line_labels = self.line_labels[0:i] + tuple(line_labels) + self.line_labels[i:]
+        if self._static: self._str = None  # the text includes the line labels
 
     def append_idling_lines(self, line_labels):
         """
@@ -1306,7 +1304,7 @@ class Circuit(object):
         Circuit
         """
         serial_lbls = []
-        for lbl in self.layertup:
+        for lbl in _itertools.chain(*[layer.expand_subcircuits() for layer in self.layertup]):
             if len(lbl.components) == 0:  # special case of an empty-layer label,
                 serial_lbls.append(lbl)  # which we serialize as an atomic object
             for c in lbl.components:
@@ -1346,7 +1344,7 @@ class Circuit(object):
         """
         parallel_lbls = []
         first_free = {'*': 0}
-        for lbl in self.layertup:
+        for lbl in _itertools.chain(*[layer.expand_subcircuits() for layer in self.layertup]):
             if can_break_labels:  # then process label components individually
                 for c in lbl.components:
                     if c.sslbls is None:  # ~= acts on *all* sslbls
@@ -1364,7 +1362,7 @@ class Circuit(object):
 
                     #update first_free
                     if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                        for k in first_free: first_free[k] = pos
+                        for k in first_free: first_free[k] = max(first_free[k], pos)
                     if c.sslbls is None:
                         for k in first_free: first_free[k] = pos + 1  # includes '*'
                     else:
@@ -1387,7 +1385,7 @@ class Circuit(object):
 
                 #update first_free
                 if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                    for k in first_free: first_free[k] = pos
+                    for k in first_free: first_free[k] = max(first_free[k], pos)
                 if lbl.sslbls is None:
                     for k in first_free: first_free[k] = pos + 1  # includes '*'
                 else:
@@ -1416,15 +1414,16 @@ class Circuit(object):
 
             for l in self._layer_components(i):  # loop over labels in this layer
                 if isinstance(l, _CircuitLabel):
-                    circuits_to_expand.append(l)
-                    layers_to_add = max(layers_to_add, l.depth() - 1)
+                    expanded_layers = l.expand_subcircuits()  # (also expands sub-circuits within l)
+                    circuits_to_expand.append((l.sslbls, expanded_layers))
+                    layers_to_add = max(layers_to_add, len(expanded_layers) - 1)
 
             if layers_to_add > 0:
                 self.insert_idling_layers(i + 1, layers_to_add)
-            for subc in circuits_to_expand:
-                self.clear_labels(slice(i, i + subc.depth()), subc.sslbls)  # remove the CircuitLabel
-                self.set_labels(subc.components * subc.reps, slice(i, i + subc.depth()),
-                                subc.sslbls)  # dump in the contents
+            for sslbls, expanded_layers in circuits_to_expand:
+                self.clear_labels(i, sslbls)  # remove the CircuitLabel
+                self.set_labels(expanded_layers, slice(i, i + len(expanded_layers)),
+                                sslbls)  # dump in the contents
 
     def factorize_repetitions(self):
         """
@@ -1983,6 +1982,7 @@ class Circuit(object):
         # OK even for static circuits because it won't affect the hashed value (labels only)
         assert(set(order) == set(self.line_labels)), "The line labels must be the same!"
         self._line_labels = tuple(order)
+        if self._static: self._str = None  # the text includes the line labels
 
     def is_line_idling(self, line_label, idle_layer_labels=None):
         """
@@ -2086,6 +2086,7 @@ class Circuit(object):
         # to remove in self._labels (as all the lines are idling)
         self._line_labels = tuple([x for x in self.line_labels
                                    if x in all_sslbls])  # preserve order
+        if self._static: self._str = None  # the text includes the line labels
 
     def replace_with_idling_line(self, line_label, clear_straddlers=True):
         """
-- 
2.43.0


From 94e1cd3d5036d0c60020740bc2e7a052d43ae9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 11/20] fix: data sets: time series, removal, renaming,
 merging, copies and storage keep exactly the data; collections of data sets
 with differing series, reps or outcomes

---
 pygsti/construction/circuitconstruction.py |   6 +-
 pygsti/construction/datasetconstruction.py |   2 +
 pygsti/objects/circuit.py                  |   3 +-
 pygsti/objects/dataset.py                  |  86 +++++------
 pygsti/objects/multidataset.py             | 167 +++++++++------------
 5 files changed, 123 insertions(+), 141 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 2b1aa2d..e914d22 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -859,9 +859,7 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
                or set(sublbl.sslbls).issubset(sslbls_to_keep):  # then keep this comp
 
                 if sslbl_map:  # update state space labels
-                    new_sslbls = None if (sublbl.sslbls is None) else \
-                        tuple((sslbl_map[x] for x in sublbl.sslbls))
-                    sublbls.append(_Lbl(sublbl.name, new_sslbls))
+                    sublbls.append(sublbl.map_state_space_labels(sslbl_map))
                 else:  # leave labels as-is
                     sublbls.append(sublbl)
 
@@ -885,4 +883,4 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
             # is just an idle: add idle placeholder.
             if idle is not None: lbls.append(_Lbl(idle))
 
-    return _cir.Circuit(lbls, line_labels=sslbls_to_keep)
+    return _cir.Circuit(lbls, line_labels=sslbls_to_keep if (new_sslbls is None) else new_sslbls)
diff --git a/pygsti/construction/datasetconstruction.py b/pygsti/construction/datasetconstruction.py
index 013df20..aa8c758 100644
--- a/pygsti/construction/datasetconstruction.py
+++ b/pygsti/construction/datasetconstruction.py
@@ -509,6 +509,7 @@ def trim_to_constant_numtimesteps(ds):
         The trimmed dataset, obtained by potentially discarding some of the data.
     """
     trimmedds = ds.copy_nonstatic()
+    trimmedds.collisionAction = "overwrite"  # the trimmed data replaces the copied data
     numtimes = []
     for circuit in ds.keys():
         numtimes.append(ds[circuit].get_number_of_times())
@@ -520,6 +521,7 @@ def trim_to_constant_numtimesteps(ds):
         trimmedseries = series[0:minnumtimes]
         trimmedds.add_series_data(circuit, trimmedseries, trimmedtimes, aux=ds.auxInfo[circuit])
 
+    trimmedds.collisionAction = ds.collisionAction
     trimmedds.done_adding_data()
 
     return trimmedds
diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 2b8fb31..c92511f 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -3230,7 +3230,8 @@ class CompressedCircuit(object):
         Circuit
         """
         tup = CompressedCircuit.expand_op_label_tuple(self._tup)
-        return Circuit(tup, self._line_labels, editable=False, stringrep=self._str, check=False)
+        return Circuit(tup, self._line_labels, editable=False, stringrep=self._str, check=False,
+                       expand_subcircuits=False)
 
     @staticmethod
     def _getNumPeriods(circuit, periodLen):
diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index dfa331a..3771043 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -425,7 +425,7 @@ class DataSetRow(object):
 
     def _get_single_count(self, outcome_label, timestamp=None):
         if timestamp is not None:
-            tslc = _np.where(_np.isclose(self.time, timestamp))[0]
+            tslc = _np.where(_np.isclose(self.time, timestamp, rtol=0., atol=1e-12))[0]
         else: tslc = slice(None)
 
         if self.reps is None:
@@ -450,7 +450,7 @@ class DataSetRow(object):
         # is zero)
         cntDict = _ld.OutcomeLabelDict()
         if timestamp is not None:
-            tslc = _np.where(_np.isclose(self.time, timestamp))[0]
+            tslc = _np.where(_np.isclose(self.time, timestamp, rtol=0., atol=1e-12))[0]
         else: tslc = slice(None)
 
         if self.reps is None:
@@ -483,7 +483,7 @@ class DataSetRow(object):
         repetitions of each outcome label in the `outcomes` list, or
         equivalently, each outcome label index in this rows `.oli` member.
         """
-        cnts = self._get_counts(all_outcomes)
+        cnts = self._get_counts(all_outcomes=all_outcomes)
         total = sum(cnts.values())
         return _OrderedDict([(k, cnt / total) for k, cnt in cnts.items()])
 
@@ -535,31 +535,21 @@ class DataSetRow(object):
             outcomelabel = _ld.OutcomeLabelDict.to_outcome(outcomelabel)
             olis = [self.dataset.olIndex[outcomelabel]]
 
-        times = []
-        counts = []
+        times = [] if (timestamps is None) else list(timestamps)
+        counts = [0] * len(times)
         last_t = -1e100
-        tsIndx = 0
         for i, (t, oli) in enumerate(zip(self.time, self.oli)):
-
+            if oli not in olis: continue
+            cnt = 1 if (self.reps is None) else self.reps[i]
             if timestamps is not None:
-                while tsIndx < len(timestamps) and t > timestamps[tsIndx] \
-                        and not _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12):
-                    times.append(timestamps[tsIndx])
-                    counts.append(0)
-                    tsIndx += 1
-
-            if oli in olis and (timestamps is None or _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12)):
+                for k in _np.nonzero(_np.isclose(times, t, rtol=0., atol=1e-12))[0]:
+                    counts[k] += cnt
+            else:
                 if not _np.isclose(t, last_t, rtol=0., atol=1e-12):
-                    times.append(t); tsIndx += 1
+                    times.append(t)
                     counts.append(0)
                     last_t = t
-                counts[-1] += 1 if (self.reps is None) else self.reps[i]
-
-        if timestamps is not None:
-            while tsIndx < len(timestamps):
-                times.append(timestamps[tsIndx])
-                counts.append(0)
-                tsIndx += 1
+                counts[-1] += cnt
 
         return _np.array(times, self.dataset.timeType), \
             _np.array(counts, self.dataset.repType)
@@ -809,7 +799,7 @@ class DataSet(object):
             if len(self.cirIndex) > 0:
                 maxOlIndex = self.olIndex_max
                 if bStatic:
-                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else 0
+                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else -1
                                 for i in self.cirIndex.values()]) <= maxOlIndex)
                     # self.oliData.shape[0] > maxIndex doesn't make sense since cirIndex holds slices
                 else:
@@ -908,7 +898,7 @@ class DataSet(object):
     def __delitem__(self, circuit):
         if not isinstance(circuit, _cir.Circuit):
             circuit = _cir.Circuit(circuit)
-        self._remove([self.cirIndex[circuit]])
+        self.remove([circuit])
 
     def get_row(self, circuit, occurrence=0):
         """
@@ -937,7 +927,7 @@ class DataSet(object):
             circuit = _cir.Circuit.fromtup(circuit)
 
         if occurrence > 0:
-            circuit = circuit + _cir.Circuit(("#%d" % occurrence,))
+            circuit = circuit + _cir.Circuit(("#%d" % occurrence,), line_labels=circuit.line_labels)
 
         #Note: cirIndex value is either an int (non-static) or a slice (static)
         repData = self.repData[self.cirIndex[circuit]] \
@@ -969,7 +959,7 @@ class DataSet(object):
             circuit = _cir.Circuit(circuit)
 
         if occurrence > 0:
-            circuit = _cir.Circuit(circuit) + _cir.Circuit(("#%d" % occurrence,))
+            circuit = circuit + _cir.Circuit(("#%d" % occurrence,), line_labels=circuit.line_labels)
 
         if isinstance(outcomeDictOrSeries, dict):  # a dict of counts
             self.add_count_dict(circuit, outcomeDictOrSeries)
@@ -1304,7 +1294,7 @@ class DataSet(object):
                 self.build_repetition_counts()
             repArray = _np.array(repCountList, self.repType)
 
-        if not recordZeroCnts:
+        if not recordZeroCnts and repArray is not None:
             # Go through repArray and remove any zeros, along with
             # corresponding elements of oliArray and timeArray
             mask = repArray != 0  # boolean array (note: == float comparison *is* desired)
@@ -1462,7 +1452,8 @@ class DataSet(object):
         for new_outcome, old_outcome_list in label_merge_dict.items():
             new_index = new_outcome_indices[new_outcome]
             for old_outcome in old_outcome_list:
-                oli_map[self.olIndex[old_outcome]] = new_index
+                if old_outcome in self.olIndex:  # `label_merge_dict` may contain outcomes this data set doesn't have
+                    oli_map[self.olIndex[old_outcome]] = new_index
 
         #Future - when recordZeroCnts=False these may not need to be so large
         new_olis = _np.array(range(nNewOutcomes), _np.int64)
@@ -1480,6 +1471,7 @@ class DataSet(object):
 
         else:
             def add_cnts(t, cnts, offset):  # cnts is a dict here
+                cnts = {oli: cnt for oli, cnt in cnts.items() if cnt != 0}
                 nNewCnts = len(cnts)
                 #new_olis = _np.empty(nNewCnts, _np.int64)
                 #new_cnts = _np.empty(nNewCnts, self.repType)
@@ -1495,7 +1487,7 @@ class DataSet(object):
         circuitIndices = _OrderedDict()
         for key, dsrow in self.items():
 
-            last_t = dsrow.time[0]
+            last_t = dsrow.time[0] if len(dsrow.time) > 0 else None
 
             #Below code is faster version of: mapped_oli = [oli_map[x] for x in dsrow.oli]
             mapped_oli = dsrow.oli.copy()
@@ -1594,8 +1586,8 @@ class DataSet(object):
         circuit has the same total counts per time step (this will happen
         when the number of time-steps varies between circuit).
         """
+        numtotalcountspertime = None
         for key in self.keys():
-            numtotalcountspertime = None
             dsrow = self[key]
             if not dsrow.has_constant_totalcounts():
                 return False
@@ -1612,7 +1604,8 @@ class DataSet(object):
         Returns the total counts per time, if this is constant over times
         and circuits. When that doesn't hold, an error is raised.
         """
-        self.has_constant_totalcounts_pertime()
+        if not self.has_constant_totalcounts_pertime():
+            raise ValueError("The total counts per time is not the same for all times and circuits!")
         key = list(self.keys())[0]
         totalcountspertime = self[key].get_totalcounts_per_timestep()
 
@@ -1778,7 +1771,7 @@ class DataSet(object):
         DataSet
         """
         tot = 0
-        ds = DataSet(outcomeLabelIndices=self.olIndex)
+        ds = DataSet(outcomeLabelIndices=self.olIndex.copy())
         for opStr, dsRow in self.items():
 
             if dsRow.reps is None:
@@ -1863,6 +1856,8 @@ class DataSet(object):
                 # mess up the values in new_cirIndex)
                 to_delete.append(indx)
 
+        # process aux info in the same order as the data, so the same circuits take precedence
+        aux_keys = list(self.cirIndex.keys()) + [k for k in self.auxInfo.keys() if k not in self.cirIndex]
         self.cirIndex = new_cirIndex
         self._remove(to_delete)
 
@@ -1870,7 +1865,7 @@ class DataSet(object):
 
         #Process self.auxInfo
         auxInfo = _DefaultDict(dict)
-        for opstr in self.auxInfo.keys():
+        for opstr in aux_keys:
             new_gstr = processor_fn(opstr)
             if new_gstr is None:
                 continue
@@ -1920,8 +1915,8 @@ class DataSet(object):
 
         # the actual removal operations
         self._remove(gstr_indices)
-        for ky in auxkeys_to_remove:
-            del self.auxInfo[ky]
+        for ky in auxkeys_to_remove:  # (may contain repeats)
+            self.auxInfo.pop(ky, None)
 
         if len(missingStrs) > 0:  # Print a warning with missing strings
             missingStrs.append("...")  # so elipses are shown when there's more strings
@@ -1937,7 +1932,7 @@ class DataSet(object):
         # these are just lists.  Hard part is adjusting cirIndex values: we
         # need to subtract k from index n, where k is the number of indices
         # in `gstr_indices` less than n.
-        inds = sorted(list(gstr_indices))
+        inds = sorted(set(gstr_indices))
 
         #remove indices from lists (high->low)
         for i in reversed(inds):
@@ -1965,8 +1960,9 @@ class DataSet(object):
         if self.bStatic:
             return self  # doesn't need to be copied since data can't change
         else:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
-                               collisionAction=self.collisionAction)
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex.copy(),
+                               collisionAction=self.collisionAction,
+                               comment=self.comment, auxInfo=_copy.deepcopy(self.auxInfo))
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
             copyOfMe.timeData = [el.copy() for el in self.timeData]
@@ -1978,14 +1974,14 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
             return copyOfMe
 
     def copy_nonstatic(self):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
-                               collisionAction=self.collisionAction)
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex.copy(),
+                               collisionAction=self.collisionAction,
+                               comment=self.comment, auxInfo=_copy.deepcopy(self.auxInfo))
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
             copyOfMe.timeData = []
@@ -2000,7 +1996,6 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
             return copyOfMe
         else:
             return self.copy()
@@ -2258,6 +2253,8 @@ class DataSet(object):
             self.timeData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
             if useReps:
                 self.repData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
+            else:
+                self.repData = None
             self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}  # init cnt_cache afresh
         else:
             self.oliData = []
@@ -2306,6 +2303,11 @@ class DataSet(object):
             else:
                 new_olIndex[ol] = i
 
+        if len(new_olIndex) != len(self.olIndex):
+            raise ValueError("Renaming must keep outcome labels distinct (use merge_outcomes to combine outcomes).")
+
         #Note: rebuild reverse-dict self.ol:
         self.olIndex = new_olIndex
         self.ol = _OrderedDict([(i, ol) for (ol, i) in self.olIndex.items()])
+        if self.bStatic:  # any cached counts use the old labels
+            self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}
diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c6744fe..d5a559c 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -42,6 +42,7 @@ class MultiDataSet_KeyValIterator(object):
                       circuitIndices=self.multidataset.cirIndex,
                       outcomeLabelIndices=self.multidataset.olIndex,
                       collisionAction=self.multidataset.collisionActions[datasetName],
+                      comment=self.multidataset.comments[datasetName],
                       bStatic=True, auxInfo=None)
         ds.auxInfo = self.multidataset.auxInfo  # avoids shallow-copying dict
         return datasetName, ds
@@ -72,6 +73,7 @@ class MultiDataSet_ValIterator(object):
                       circuitIndices=self.multidataset.cirIndex,
                       outcomeLabelIndices=self.multidataset.olIndex,
                       collisionAction=self.multidataset.collisionActions[datasetName],
+                      comment=self.multidataset.comments[datasetName],
                       bStatic=True, auxInfo=None)
         ds.auxInfo = self.multidataset.auxInfo  # avoids shallow-copying dict
         return ds
@@ -93,6 +95,12 @@ class MultiDataSet(object):
     where `datasetName` may be a string OR a tuple.
     """
 
+    #data types - should stay in sync with DataSet
+    oliType = _np.uint32
+    timeType = _np.float64
+    repType = _np.float32
+    # thought: _np.uint16 but doesn't play well with rescaling
+
     def __init__(self, oliDict=None, timeDict=None, repDict=None,
                  circuitIndices=None,
                  outcomeLabels=None, outcomeLabelIndices=None,
@@ -217,7 +225,7 @@ class MultiDataSet(object):
             if self.olIndex:  # Note: tests if not none and nonempty
                 maxOlIndex = max(self.olIndex.values())
                 for outcomeInds in self.oliDict.values():
-                    assert(_np.amax(outcomeInds) <= maxOlIndex)
+                    assert(len(outcomeInds) == 0 or _np.amax(outcomeInds) <= maxOlIndex)
         else:
             assert(timeDict is None), "Must specify `oliDict` also!"
             assert(repDict is None), "Must specify `oliDict` also!"
@@ -236,12 +244,6 @@ class MultiDataSet(object):
         else:
             self.auxInfo = _DefaultDict(dict, auxInfo)
 
-        #data types - should stay in sync with DataSet
-        self.oliType = _np.uint32
-        self.timeType = _np.float64
-        self.repType = _np.float32
-        # thought: _np.uint16 but doesn't play well with rescaling
-
     def get_outcome_labels(self):
         """
         Get a list of *all* the outcome labels contained in this MultiDataSet.
@@ -269,7 +271,7 @@ class MultiDataSet(object):
                       circuitIndices=self.cirIndex,
                       outcomeLabelIndices=self.olIndex, bStatic=True,
                       collisionAction=self.collisionActions[datasetName],
-                      auxInfo=None)
+                      comment=self.comments[datasetName], auxInfo=None)
         ds.auxInfo = self.auxInfo  # avoids shallow-copying dict
         return ds
 
@@ -330,7 +332,7 @@ class MultiDataSet(object):
             # Merge same-timestamp, same-outcome data
             sortedInds = [i for i, el in sorted(enumerate(concat_time), key=lambda x:x[1])]
             sorted_oli = []; sorted_time = []; sorted_rep = []
-            last_time = concat_time[sortedInds[0]]; cur_reps = {}
+            last_time = concat_time[sortedInds[0]] if len(sortedInds) > 0 else None; cur_reps = {}
             for i in sortedInds:
                 if concat_time[i] != last_time:
                     # dump cur_reps at last_time and reset
@@ -363,7 +365,7 @@ class MultiDataSet(object):
         agg_oli = _np.array(agg_oli, self.oliType)
         agg_time = _np.array(agg_time, self.timeType)
         agg_rep = _np.array(agg_rep, self.repType)
-        if _np.max(agg_rep) == 1: agg_rep = None  # don't store trivial reps
+        if _np.all(agg_rep == 1): agg_rep = None  # don't store trivial reps
 
         ds = _DataSet(agg_oli, agg_time, agg_rep,
                       circuitIndices=gstrSlices,
@@ -409,7 +411,8 @@ class MultiDataSet(object):
         ds_oliData = dataset.oliData  # default - just use dataset's outcome indices as is...
         update_map = {}  # default - no updates needed
         if dataset.olIndex != self.olIndex:
-            next_olIndex = max(self.olIndex.values()) + 1
+            self.olIndex = self.olIndex.copy()  # may be shared with existing DataSets
+            next_olIndex = max(self.olIndex.values(), default=-1) + 1
             for ol, i in dataset.olIndex.items():
                 if ol not in self.olIndex:  # then add a new outcome label
                     self.olIndex[ol] = next_olIndex; next_olIndex += 1
@@ -438,91 +441,65 @@ class MultiDataSet(object):
                 self.repDict = _OrderedDict()  # OK since this is the first DataSet added
                 self.repDict[datasetName] = dataset.repData
 
-        elif dataset.cirIndex == self.cirIndex:
-            # self.cirIndex is fine as is - no need to reconcile anything
-            self.oliDict[datasetName] = ds_oliData
-            self.timeDict[datasetName] = dataset.timeData
-            if dataset.repData is not None:
-                if self.repDict is None:  # then build self.repDict
-                    firstKey = list(self.oliDict.keys())[0]
-                    dataLen = len(self.oliDict[firstKey])  # current length of self's data arrays
-                    self.repDict = _OrderedDict(
-                        [(nm, _np.ones(dataLen, self.repType)) for nm in self])
-                self.repDict[datasetName] = dataset.repData
-
         else:
-            # Merge data due to differences in self.cirIndex and dataset.cirIndex, which can
-            # occur because dataset may have zeros in different places from self.
-            firstKey = list(self.oliDict.keys())[0]
-            dataLen = len(self.oliDict[firstKey])  # current length of self's data arrays
-
-            #We'll need 0-rep elements to reconcile, so can't have repDict == None
-            if self.repDict is None:  # then create self.repDict
-                self.repDict = _OrderedDict(
-                    [(nm, _np.ones(dataLen, self.repType)) for nm in self])
-
             ds_timeData = dataset.timeData
-            ds_repData = dataset.repData if (dataset.repData is not None) \
-                else _np.ones(len(ds_oliData), self.repType)
-
-            #Create new arrays to populate with dataset's data
-            self.oliDict[datasetName] = _np.zeros(dataLen, self.oliType)
-            self.timeDict[datasetName] = _np.zeros(dataLen, self.timeType)
-            self.repDict[datasetName] = _np.zeros(dataLen, self.repType)
-
-            #sort keys in order of increasing slice-start position (w.r.t. self)
-            sorted_cirIndex = sorted(list(self.cirIndex.items()), key=lambda x: x[1].start)
-
-            off = 0
-            for opstr, slc in sorted_cirIndex:
-                other_slc = dataset.cirIndex[opstr]  # we know key exists from check above
-                l1 = slc.stop - slc.start; assert(slc.step is None)
-                l2 = other_slc.stop - other_slc.start; assert(slc.step is None)
-
-                #Update cirIndex - (expands slice if l2 > l1; adds in offset)
-                l = max(l1, l2)
-                new_slc = slice(off + slc.start, off + slc.start + l)
-                self.cirIndex[opstr] = new_slc
-
-                #Update existing data & new data arrays
-                if l2 > l1:  # insert 0-reps into self's data arrays
-                    nToInsert = l2 - l1; insertAt = off + slc.stop
-                    for nm in self:
-                        oliVal = self.oliDict[nm][insertAt - 1]    # just repeat the final bin's outcome
-                        timeVal = self.timeDict[nm][insertAt - 1]  # index and timestamp in 0-count bins
-                        self.oliDict[nm] = _np.insert(self.oliDict[nm], insertAt,
-                                                      oliVal * _np.ones(nToInsert, self.oliType))
-                        self.timeDict[nm] = _np.insert(self.timeDict[nm], insertAt,
-                                                       timeVal * _np.ones(nToInsert, self.timeType))
-                        self.repDict[nm] = _np.insert(self.repDict[nm], insertAt,
-                                                      _np.zeros(nToInsert, self.repType))
-                    off += nToInsert
-
-                #Copy dataset's data into new_ arrays (already padded as needed above)
-                if l2 >= l1:  # no need to pad dataset's array
-                    self.oliDict[datasetName][new_slc] = ds_oliData[other_slc]
-                    self.timeDict[datasetName][new_slc] = ds_timeData[other_slc]
-                    self.repDict[datasetName][new_slc] = ds_repData[other_slc]
-                else:  # l2 < l1 - need to pad dataset arrays w/0-counts
-                    new_slc_part1 = slice(new_slc.start, new_slc.start + l2)
-                    new_slc_part2 = slice(new_slc.start + l2, new_slc.stop)
-                    self.oliDict[datasetName][new_slc_part1] = ds_oliData[other_slc]
-                    self.timeDict[datasetName][new_slc_part1] = ds_timeData[other_slc]
-                    self.repDict[datasetName][new_slc_part1] = ds_repData[other_slc]
-
-                    timeVal = ds_timeData[other_slc.stop - 1]  # index and timestamp in 0-count bins
-                    oliVal = ds_oliData[other_slc.stop - 1]       # just repeat the final bin's outcome
-                    self.oliDict[datasetName][new_slc_part2] = oliVal
-                    self.timeDict[datasetName][new_slc_part2] = timeVal
-                    # (leave self.repDict[datasetName] with zeros in remaining "part2" of slice)
+            ds_repData = dataset.repData
+            if (ds_repData is not None) != (self.repDict is not None):  # then rep data is needed everywhere
+                if self.repDict is None:
+                    self.repDict = _OrderedDict([(nm, _np.ones(len(data), self.repType))
+                                                 for nm, data in self.oliDict.items()])
+                else:
+                    ds_repData = _np.ones(len(ds_oliData), self.repType)
+
+            if dict(dataset.cirIndex) != dict(self.cirIndex):
+                # Merge data due to differences in self.cirIndex and dataset.cirIndex, which can
+                # occur because dataset may have zeros in different places from self.  Every circuit
+                # gets as many bins as its longest series, with any remaining bins having 0 repetitions,
+                # so we can't have repDict == None.
+                if self.repDict is None:  # (so ds_repData is None too)
+                    self.repDict = _OrderedDict([(nm, _np.ones(len(data), self.repType))
+                                                 for nm, data in self.oliDict.items()])
+                    ds_repData = _np.ones(len(ds_oliData), self.repType)
+
+                #build new index - don't modify the existing one, which is shared with existing DataSets
+                new_cirIndex = _OrderedDict(); off = 0
+                for opstr, slc in self.cirIndex.items():
+                    other_slc = dataset.cirIndex[opstr]  # we know key exists from check above
+                    assert(slc.step is None and other_slc.step is None)
+                    n = max(slc.stop - slc.start, other_slc.stop - other_slc.start)
+                    new_cirIndex[opstr] = slice(off, off + n)
+                    off += n
+
+                def relayout(cirIndex, oliData, timeData, repData):
+                    new_oli = _np.zeros(off, self.oliType)
+                    new_time = _np.zeros(off, self.timeType)
+                    new_rep = _np.zeros(off, self.repType)
+                    for opstr, new_slc in new_cirIndex.items():
+                        slc = cirIndex[opstr]; n = slc.stop - slc.start
+                        new_oli[new_slc.start:new_slc.start + n] = oliData[slc]
+                        new_time[new_slc.start:new_slc.start + n] = timeData[slc]
+                        new_rep[new_slc.start:new_slc.start + n] = repData[slc]
+                        # just repeat the final bin's outcome index and timestamp in 0-count bins
+                        new_oli[new_slc.start + n:new_slc.stop] = oliData[slc.stop - 1] if n > 0 \
+                            else min(self.olIndex.values())
+                        new_time[new_slc.start + n:new_slc.stop] = timeData[slc.stop - 1] if n > 0 else 0
+                    return new_oli, new_time, new_rep
+
+                for nm in self:
+                    self.oliDict[nm], self.timeDict[nm], self.repDict[nm] = relayout(
+                        self.cirIndex, self.oliDict[nm], self.timeDict[nm], self.repDict[nm])
+                ds_oliData, ds_timeData, ds_repData = relayout(
+                    dataset.cirIndex, ds_oliData, ds_timeData, ds_repData)
+                self.cirIndex = new_cirIndex
+
+            self.oliDict[datasetName] = ds_oliData
+            self.timeDict[datasetName] = ds_timeData
+            if ds_repData is not None: self.repDict[datasetName] = ds_repData
 
         # Update auxInfo
         if update_auxinfo and dataset.auxInfo:
-            if len(self.auxInfo) == 0:
-                self.auxInfo.update(dataset.auxInfo)
-            else:
-                for circuit, aux in dataset.auxInfo.items():
-                    self.auxInfo[circuit].update(aux)
+            for circuit, aux in dataset.auxInfo.items():
+                self.auxInfo[circuit].update(aux)  # (copies aux, so doesn't modify dataset)
 
     def __str__(self):
         s = "MultiDataSet containing: %d datasets, each with %d strings\n" % (
@@ -539,7 +516,7 @@ class MultiDataSet(object):
                             circuitIndices=_copy.deepcopy(self.cirIndex) if (self.cirIndex is not None) else None,
                             outcomeLabelIndices=_copy.deepcopy(self.olIndex) if (self.olIndex is not None) else None,
                             collisionActions=self.collisionActions, comments=_copy.deepcopy(self.comments),
-                            comment=(self.comment + " copy") if self.comment else None, auxInfo=self.auxInfo)
+                            comment=(self.comment + " copy") if self.comment else None, auxInfo=_copy.deepcopy(self.auxInfo))
 
     def __getstate__(self):
         toPickle = {'cirIndexKeys': list(map(_cir.CompressedCircuit,
@@ -557,7 +534,8 @@ class MultiDataSet(object):
 
     def __setstate__(self, state_dict):
         cirIndexKeys = [cgs.expand() for cgs in state_dict['cirIndexKeys']]
-        self.cirIndex = _OrderedDict(list(zip(cirIndexKeys, state_dict['cirIndexVals'])))
+        self.cirIndex = _OrderedDict(list(zip(cirIndexKeys, state_dict['cirIndexVals']))) \
+            if (len(cirIndexKeys) > 0 or len(state_dict['oliDict']) > 0) else None
         self.olIndex = state_dict['olIndex']
         self.oliDict = state_dict['oliDict']
         self.timeDict = state_dict['timeDict']
@@ -652,7 +630,8 @@ class MultiDataSet(object):
         cirIndexKeys = [expand(cgs) for cgs in state_dict['cirIndexKeys']]
 
         #cirIndexKeys = [ cgs.expand() for cgs in state_dict['cirIndexKeys'] ]
-        self.cirIndex = _OrderedDict(list(zip(cirIndexKeys, state_dict['cirIndexVals'])))
+        self.cirIndex = _OrderedDict(list(zip(cirIndexKeys, state_dict['cirIndexVals']))) \
+            if (len(cirIndexKeys) > 0 or len(state_dict['oliKeys']) > 0) else None
         self.olIndex = state_dict['olIndex']
         self.collisionActions = state_dict['collisionActions']
         self.auxInfo = state_dict.get('auxInfo', _DefaultDict(dict))  # backward compat
-- 
2.43.0


From 1923e1e9f93aacfd2ea97d62f73771ddffffeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 12/20] fix: computation cache: keys tell apart sets, nested
 sequences, colliding hashes, dtypes, same-named functions and changed models;
 filled arrays are copied

---
 pygsti/objects/smartcache.py | 57 ++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/smartcache.py b/pygsti/objects/smartcache.py
index 27603c7..9e221b2 100644
--- a/pygsti/objects/smartcache.py
+++ b/pygsti/objects/smartcache.py
@@ -8,14 +8,17 @@
 # http://www.apache.org/licenses/LICENSE-2.0 or in the LICENSE file in the root pyGSTi directory.
 #***************************************************************************************************
 
+import copy as _copy
 import hashlib as _hashlib
 import functools as _functools
 import numpy as _np
 import inspect as _inspect
+import numbers as _numbers
 import pickle as _pickle
 
 
 from collections import Counter, defaultdict
+from collections import OrderedDict as _OrderedDict
 
 from ..tools.opttools import timed_block as _timed_block
 
@@ -121,7 +124,7 @@ class SmartCache(object):
                         self.unpickleable.add(str(k[0]) + str(type(v)) + str(e) + str(list(v.keys())))
                     else:
                         self.unpickleable.add(str(k[0]) + str(type(v)) + str(e))  # + str(list(v.__dict__.keys())))
-                except _pickle.PicklingError as e:
+                except (_pickle.PicklingError, AttributeError) as e:
                     self.unpickleable.add(str(k[0]) + str(type(v)) + str(e))
             return pickleableCache
 
@@ -213,7 +216,7 @@ class SmartCache(object):
             for k, v in kwargs.items():
                 if k.startswith('_'):
                     special_kwargs[k] = v
-            for k in special_kwargs: del kwargs[k]
+            kwargs = {k: v for k, v in kwargs.items() if k not in special_kwargs}  # don't modify caller's dict
 
         name_key = get_fn_name_key(fn)
         self.requests[name_key] += 1
@@ -238,8 +241,8 @@ class SmartCache(object):
                 with _timed_block('call', times):
                     self.cache[key] = fn(*argVals, **kwargs)
                     if "_filledarrays" in special_kwargs:
-                        self.outargs[key] = tuple((argVals[i] if isinstance(i, int) else kwargs[i]
-                                                   for i in special_kwargs['_filledarrays']))  # copy?
+                        self.outargs[key] = tuple((_copy.copy(argVals[i] if isinstance(i, int) else kwargs[i])
+                                                   for i in special_kwargs['_filledarrays']))
                 self.misses[key] += 1
                 hashtime = times['hash']
                 calltime = times['call']
@@ -406,27 +409,56 @@ def digest(obj, custom_digests=None):
     if custom_digests is None:
         custom_digests = []
 
+    from .circuit import Circuit as _Circuit  # here to avoid circular imports
+    from .label import Label as _Label
+
+    def add_bytes(md5, b):
+        """Add bytes to the hash so that they can't be confused with what comes next."""
+        md5.update(("%d:" % len(b)).encode('utf-8'))
+        md5.update(b)
+
     # a function to recursively serialize 'v' into an md5 object
     def add(md5, v):
         """Add `v` to the hash, recursively if needed."""
         with _timed_block(str(type(v)), DIGEST_TIMES):
             md5.update(str(type(v)).encode('utf-8'))
             if isinstance(v, SmartCache): return  # don't hash SmartCache args
-            if isinstance(v, bytes):
-                md5.update(v)  # can add bytes directly
+            if isinstance(v, (bytes, bytearray)):
+                add_bytes(md5, v)  # can add bytes directly
             elif v is None:
-                md5.update(str(hash("(_NONE_)")).encode('utf-8'))  # make all None's hash the same
+                md5.update(b"(_NONE_)")  # make all None's hash the same
+            elif isinstance(v, _Label):  # before str and tuple: some labels are these types too
+                add_bytes(md5, ("%s%s%s%d" % (v, v.time, v.args, hash(v))).encode('utf-8', 'surrogatepass'))
+            elif isinstance(v, _Circuit):
+                add_bytes(md5, ("%s%s%s" % (v.str, v.line_labels, v._static)).encode('utf-8', 'surrogatepass'))
+                if v._static: md5.update(str(hash(v)).encode('utf-8'))
+            elif isinstance(v, str):
+                add_bytes(md5, v.encode('utf-8', 'surrogatepass'))
+            elif isinstance(v, (_numbers.Number, _np.generic)):
+                add_bytes(md5, repr(v).encode('utf-8'))  # b/c different numbers can have the same hash
+            elif isinstance(v, (tuple, list)):
+                md5.update(("%d:" % len(v)).encode('utf-8'))  # so nested sequences are unambiguous
+                for el in v: add(md5, el)
+            elif isinstance(v, (set, frozenset)):
+                md5.update(("%d:" % len(v)).encode('utf-8'))
+                for el_digest in sorted([digest(el, custom_digests) for el in v]): md5.update(el_digest)
             else:
                 try:
                     md5.update(str(hash(v)).encode('utf-8'))
+                    if hasattr(v, 'uuid') and hasattr(v, 'to_vector'):
+                        add(md5, v.to_vector())  # a model's hash doesn't change when its parameters do
                 except TypeError:  # as hashException:
                     if isinstance(v, _np.ndarray):
-                        md5.update(v.tostring() + str(v.shape).encode('utf-8'))  # numpy gives us bytes
-                    elif isinstance(v, (tuple, list)):
-                        for el in v: add(md5, el)
+                        md5.update((str(v.dtype) + str(v.shape)).encode('utf-8'))
+                        if v.dtype.hasobject: add(md5, v.tolist())
+                        else: md5.update(v.tobytes())  # numpy gives us bytes
                     elif isinstance(v, dict):
+                        md5.update(("%d:" % len(v)).encode('utf-8'))
                         keys = list(v.keys())
-                        for k in sorted(keys):
+                        if not isinstance(v, _OrderedDict):  # then order isn't significant
+                            try: keys = sorted(keys)
+                            except TypeError: pass  # keys can't be ordered: use insertion order
+                        for k in keys:
                             add(md5, k)
                             add(md5, v[k])
                     elif type(v).__module__ == 'mpi4py.MPI':  # don't import mpi4py (not always available)
@@ -479,7 +511,8 @@ def call_key(fn, args, custom_digests):
     -------
     tuple
     """
-    fnName = get_fn_name_key(fn)
+    fnName = "%s.%s" % (getattr(fn, '__module__', None), getattr(fn, '__qualname__', fn.__name__)) \
+        if not hasattr(fn, '__self__') else get_fn_name_key(fn)
     if fn.__name__ == "_create":
         pass  # special case: don't hash "self" in _create functions (b/c self doesn't matter - "self" is being created)
     elif hasattr(fn, '__self__'):  # add "self" to args when it's an instance's method call
-- 
2.43.0


From 5a612639f3a4f7d95bdd1e9854c77192884e8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 13/20] fix: polynomials: keys longer than one word, unordered
 or colliding variable indices when constructing/re-indexing, degree, zeroth
 power, signed key range

---
 pygsti/objects/polynomial.py         | 36 ++++++++++++++++------
 pygsti/objects/replib/fastreplib.pyx | 46 +++++++++-------------------
 pygsti/objects/replib/fastreps.cpp   |  5 +--
 pygsti/objects/replib/slowreplib.py  | 10 +++---
 4 files changed, 49 insertions(+), 48 deletions(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index 1d9b428..f195af9 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -32,6 +32,21 @@ def _vinds_to_int(vinds, vindices_per_int, max_num_vars):
     return tuple(ret_tup)
 
 
+def _map_keys(mapfn, coeffs):
+    """ Map the keys (variable-index tuples) of `coeffs`, adding the coefficients of terms that become the same """
+    ret = {}
+    for k, v in coeffs.items():
+        new_k = tuple(sorted(mapfn(k)))
+        ret[new_k] = ret[new_k] + v if (new_k in ret) else v
+    return ret
+
+
+def _int_coeffs(coeffs, vindices_per_int, max_num_vars):
+    """ Encode the keys (variable-index tuples) of `coeffs`. The order of the indices within a tuple is irrelevant """
+    return {_vinds_to_int(k, vindices_per_int, max_num_vars): v
+            for k, v in _map_keys(lambda vinds: vinds, coeffs if (coeffs is not None) else {}).items()}
+
+
 class FASTPolynomial(object):
     """
     Encapsulates a polynomial as a subclass of the standard Python dict.
@@ -56,7 +71,8 @@ class FASTPolynomial(object):
         # (max_num_vars+1) ** vindices_per_int <= 2**PLATFORM_BITS, so:
         # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS
         # vindices_per_int = int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        if max_num_vars == 0: return PLATFORM_BITS - 1
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))  # -1 because ints are signed
 
     @classmethod
     def fromrep(cls, rep):
@@ -115,7 +131,7 @@ class FASTPolynomial(object):
         """
         vindices_per_int = FASTPolynomial.get_vindices_per_int(max_num_vars)
 
-        int_coeffs = {_vinds_to_int(k, vindices_per_int, max_num_vars): v for k, v in coeffs.items()}
+        int_coeffs = _int_coeffs(coeffs, vindices_per_int, max_num_vars)
         self._rep = replib.PolyRep(int_coeffs, max_num_vars, vindices_per_int)
 
     @property
@@ -175,7 +191,7 @@ class FASTPolynomial(object):
         Return the largest sum-of-exponents for any term (monomial) within this
         polynomial. E.g. for x_2^3 + x_1^2*x_0^2 has degree 4.
         """
-        return 0 if len(self) == 0 else max([len(k) for k in self.coeffs.keys()])
+        return max([len(k) for k in self.coeffs.keys()], default=0)
 
     def evaluate(self, variable_values):
         """
@@ -248,7 +264,7 @@ class FASTPolynomial(object):
         -------
         Polynomial
         """
-        return FASTPolynomial({mapfn(k): v for k, v in self.coeffs.items()}, self.max_num_vars)
+        return FASTPolynomial(_map_keys(mapfn, self.coeffs), self.max_num_vars)
 
     def map_indices_inplace(self, mapfn):
         """
@@ -269,9 +285,8 @@ class FASTPolynomial(object):
         -------
         None
         """
-        new_coeffs = {mapfn(k): v for k, v in self.coeffs.items()}
-        new_int_coeffs = {_vinds_to_int(k, self._rep.vindices_per_int, self._rep.max_num_vars): v
-                          for k, v in new_coeffs.items()}
+        new_int_coeffs = _int_coeffs(_map_keys(mapfn, self.coeffs),
+                                     self._rep.vindices_per_int, self._rep.max_num_vars)
         self._rep.reinit(new_int_coeffs)
 
     def mapvec_indices(self, mapvec):
@@ -410,7 +425,7 @@ class FASTPolynomial(object):
     def __pow__(self, n):
         ret = FASTPolynomial({(): 1.0}, self.max_num_vars)  # max_order updated by mults below
         cur = self
-        for i in range(int(_np.floor(_np.log2(n))) + 1):
+        while n > 0:
             rem = n % 2  # gets least significant bit (i-th) of n
             if rem == 1: ret *= cur  # add current power of x (2^i) if needed
             cur = cur * cur  # current power *= 2
@@ -460,7 +475,8 @@ class SLOWPolynomial(dict):  # REMOVE THIS CLASS (just for reference)
         This quantity is needed to directly construct Polynomial representations
         and is thus useful internally for forward simulators.
         """
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        if max_num_vars == 0: return PLATFORM_BITS - 1
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))  # -1 because ints are signed
 
     @classmethod
     def fromrep(cls, rep):
@@ -884,7 +900,7 @@ class SLOWPolynomial(dict):  # REMOVE THIS CLASS (just for reference)
     def __pow__(self, n):
         ret = Polynomial({(): 1.0}, self.max_num_vars)  # max_order updated by mults below
         cur = self
-        for i in range(int(_np.floor(_np.log2(n))) + 1):
+        while n > 0:
             rem = n % 2  # gets least significant bit (i-th) of n
             if rem == 1: ret *= cur  # add current power of x (2^i) if needed
             cur = cur * cur  # current power *= 2
diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 58215be..d5d23e6 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -309,6 +309,7 @@ cdef extern from "fastreps.h" namespace "CReps":
         void add_abs_inplace(PolyCRep&)
         void add_scalar_to_all_coeffs_inplace(double complex offset)
         void scale(double complex scale)
+        PolyVarsIndex vinds_to_int(vector[INT] vinds)
         vector[INT] int_to_vinds(PolyVarsIndex indx_tup)
         unordered_map[PolyVarsIndex, complex] _coeffs
         INT _max_num_vars
@@ -1352,42 +1353,25 @@ cdef class PolyRep:
 
     def mapvec_indices_inplace(self, np.ndarray[np.int64_t, ndim=1, mode='c'] mapfn_as_vector):
         cdef INT* mapfv = <INT*> mapfn_as_vector.data
-        cdef INT indx, nxt, i, m, k, new_i, new_indx;
-        cdef INT divisor = self.c_poly._max_num_vars + 1
-
-        #REMOVE print "MAPPING divisor=", divisor
+        cdef size_t i
         cdef PolyVarsIndex new_PolyVarsIndex
+        cdef vector[INT] vinds
         cdef unordered_map[PolyVarsIndex, complex] new_coeffs
-        cdef vector[INT].iterator vit
         cdef unordered_map[PolyVarsIndex, complex].iterator it = self.c_poly._coeffs.begin()
+        cdef unordered_map[PolyVarsIndex, complex].iterator itk
 
         while(it != self.c_poly._coeffs.end()): # for each coefficient
-            i_vec = deref(it).first._parts  # the vector[INT] beneath this PolyVarsIndex
-            new_PolyVarsIndex = PolyVarsIndex(i_vec.size())
-            #REMOVE print " ivec =", i_vec
-
-            #map i_vec -> new_PolyVarsIndex
-            vit = i_vec.begin(); k = 0
-            while(vit != i_vec.end()):
-                indx = deref(vit)
-                new_indx = 0; m=1
-                #REMOVE print "begin indx ",indx
-                while indx != 0:
-                    nxt = indx / divisor
-                    i = indx - nxt * divisor
-                    indx = nxt
-                    #REMOVE print indx, " -> nxt=", nxt, " i=",i
-
-                    # i-1 is variable index (the thing we map)
-                    new_i = mapfv[i-1]+1
-                    new_indx += new_i * m
-                    #REMOVE print "   new_i=",new_i," m=",m," => new_indx=",new_indx
-                    m *= divisor
-                #REMOVE print "Setting new ivec[",k,"] = ",new_indx
-                new_PolyVarsIndex._parts[k] = new_indx
-                inc(vit); k += 1
-            #REMOVE print " new_ivec =", new_PolyVarsIndex._parts
-            new_coeffs[new_PolyVarsIndex] = deref(it).second
+            vinds = self.c_poly.int_to_vinds( deref(it).first )
+            for i in range(vinds.size()):
+                vinds[i] = mapfv[vinds[i]]
+            stdsort(vinds.begin(), vinds.end())  # keys hold variable indices in ascending order
+            new_PolyVarsIndex = self.c_poly.vinds_to_int(vinds)
+
+            itk = new_coeffs.find(new_PolyVarsIndex)
+            if itk != new_coeffs.end():  # then several terms become the same
+                deref(itk).second = deref(itk).second + deref(it).second
+            else:
+                new_coeffs[new_PolyVarsIndex] = deref(it).second
             inc(it)
 
         self.c_poly._coeffs.swap(new_coeffs)
diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index d77b213..4088f26 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -2638,6 +2638,7 @@ namespace CReps {
   PolyCRep::PolyCRep(const PolyCRep& other) {
     _coeffs = other._coeffs;
     _max_num_vars = other._max_num_vars;
+    _vindices_per_int = other._vindices_per_int;
   }
 
   PolyCRep::~PolyCRep() { }
@@ -2782,8 +2783,8 @@ namespace CReps {
   std::vector<INT> PolyCRep::int_to_vinds(PolyVarsIndex indx_tup) {
     std::vector<INT> ret;
     INT nxt, i, indx;
-    for(std::size_t i=0; i < indx_tup._parts.size(); i++) {
-      indx = indx_tup._parts[i];
+    for(std::size_t k=0; k < indx_tup._parts.size(); k++) {
+      indx = indx_tup._parts[k];
       while(indx != 0) {
         nxt = indx / (_max_num_vars+1);
 	i = indx - nxt*(_max_num_vars+1);
diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f2b2f0a..0d19576 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -1134,8 +1134,8 @@ class PolyRep(dict):
     def mapvec_indices_inplace(self, mapfn_as_vector):
         new_items = {}
         for k, v in self.items():
-            new_vinds = tuple((mapfn_as_vector[j] for j in self._int_to_vinds(k)))
-            new_items[self._vinds_to_int(new_vinds)] = v
+            new_k = self._vinds_to_int(sorted([mapfn_as_vector[j] for j in self._int_to_vinds(k)]))
+            new_items[new_k] = new_items[new_k] + v if (new_k in new_items) else v
         self.clear()
         self.update(new_items)
 
@@ -1341,14 +1341,14 @@ class PolyRep(dict):
         vinds = {i: self._int_to_vinds(i) for i in self.keys()}
         nVarIndices = sum(map(len, vinds.values()))
         vtape = _np.empty(1 + nTerms + nVarIndices, _np.int64)  # "variable" tape
-        ctape = _np.empty(nTerms, complex)  # "coefficient tape"
+        ctape = _np.empty(nTerms, 'd')  # "coefficient tape"
 
         i = 0
         vtape[i] = nTerms; i += 1
         for iTerm, k in enumerate(sorted(self.keys())):
             v = vinds[k]  # so don't need to compute self._int_to_vinds(k)
             l = len(v)
-            ctape[iTerm] = self[k]
+            ctape[iTerm] = _np.real(self[k])
             vtape[i] = l; i += 1
             vtape[i:i + l] = v; i += l
         assert(i == len(vtape)), "Logic Error!"
@@ -1477,7 +1477,7 @@ class PolyRep(dict):
 
     def degree(self):
         """ Used for debugging in slowreplib routines only"""
-        return max([len(self._int_to_vinds(k)) for k in self.keys()])
+        return max([len(self._int_to_vinds(k)) for k in self.keys()], default=0)
 
     #UNUSED TODO REMOVE
     #def __add__(self, x):
-- 
2.43.0


From a5aa9da3c3cadf3b2fe35dc26dd35a82becb0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 14/20] fix: device graphs: undirected connectivity, hop-count
 distances, directions in __setitem__/subgraph, empty graphs

---
 pygsti/objects/qubitgraph.py | 41 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 6e5a316..c47cb80 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -184,7 +184,11 @@ class QubitGraph(object):
                             "Missing one or more direction names from `direction_names`!"
                     else:  # direction_name is None, and that's ok b/c no direction indices were used
                         direction_names = list(sorted(direction_names_chk))
-                self.directions = direction_names  # set direction names if we're given any
+                # set direction names if we're given any
+                self.directions = list(direction_names) if direction_names is not None else None
+
+        else:
+            self.directions = list(direction_names) if direction_names is not None else None
 
         assert(self.directions is None or self.directed), "QubitGraph directions can only be used with `directed==True`"
 
@@ -202,7 +206,7 @@ class QubitGraph(object):
             assert(initial_edges is None), "Cannot specify `initial_connectivity` and `initial_edges`!"
             assert(initial_connectivity.shape == self._connectivity.shape), \
                 "`initial_connectivity must have shape %s" % str(self._connectivity.shape)
-            self._connectivity[:, :] = initial_connectivity
+            self._connectivity[:, :] = initial_connectivity if self.directed else _np.triu(initial_connectivity)
 
         if initial_edges is not None:
             assert(initial_connectivity is None), "Cannot specify `initial_connectivity` and `initial_edges`!"
@@ -227,8 +231,9 @@ class QubitGraph(object):
     def _refresh_dists_and_predecessors(self):
         if self._dirty:
             self._distance_matrix, self._predecessors = _fw(
-                self._connectivity, return_predecessors=True,
-                directed=self.directed, unweighted=False)  # TIM - why use unweighted=False?
+                (self._connectivity != 0).astype('d'), return_predecessors=True,
+                directed=self.directed, unweighted=True)
+            self._dirty = False
 
     def __getitem__(self, key):
         node1, node2 = key
@@ -242,8 +247,8 @@ class QubitGraph(object):
         elif self.directions is None:
             self._connectivity[i, j] = bool(val)
         else:  # directions are being used, so connectivity matrix contains ints
-            dir_index = val if isinstance(val, int) else self.directions.index(val)
-            self._connectivity[i, j] = dir_index
+            # (an integer is stored as is, e.g. 0 => no edge)
+            self._connectivity[i, j] = val if isinstance(val, (int, _np.integer)) else self.directions.index(val) + 1
         self._dirty = True
 
     def get_node_names(self):
@@ -644,21 +649,19 @@ class QubitGraph(object):
         -------
         QubitGraph
         """
-        if reset_nodes:
-            qubit_labels = list(range(len(nodes_to_keep)))
-            labelmap = {old: i for i, old in enumerate(nodes_to_keep)}
-        else:
-            qubit_labels = nodes_to_keep
+        nodes_to_keep = list(nodes_to_keep)
+        qubit_labels = list(range(len(nodes_to_keep))) if reset_nodes else nodes_to_keep
+        labelmap = dict(zip(nodes_to_keep, qubit_labels))
 
         edges = []
-        for edge in self.edges():
-            if edge[0] in nodes_to_keep and edge[1] in nodes_to_keep:
-                if reset_nodes:
-                    edges.append((labelmap[edge[0]], labelmap[edge[1]]))
-                else:
-                    edges.append(edge)
-
-        return QubitGraph(qubit_labels, initial_edges=edges, directed=self.directed)
+        for node1, node2 in self.edges():
+            if node1 in labelmap and node2 in labelmap:
+                edge = (labelmap[node1], labelmap[node2])
+                if self.directions is not None:
+                    edge += (self.directions[self._connectivity[self._nodeinds[node1], self._nodeinds[node2]] - 1],)
+                edges.append(edge)
+
+        return QubitGraph(qubit_labels, initial_edges=edges, directed=self.directed, direction_names=self.directions)
 
     def resolve_relative_nodelabel(self, relative_nodelabel, target_labels):
         """
-- 
2.43.0


From 568af5e97f430f2402be5a5305be67d22bc3cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 15/20] fix: symplectic layer with a gate on all lines;
 bitstring_for_pauli leaves its argument alone

---
 pygsti/tools/symplectic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/tools/symplectic.py b/pygsti/tools/symplectic.py
index 21b4933..479593a 100644
--- a/pygsti/tools/symplectic.py
+++ b/pygsti/tools/symplectic.py
@@ -1135,8 +1135,8 @@ def symplectic_rep_of_clifford_layer(layer, n=None, Qlabels=None, srep_dict=None
 
     for sub_lbl in layer.components:
         matrix, phase = sreps[sub_lbl.name]
-        nforgate = sub_lbl.number_of_qubits
         sub_lbl_qubits = sub_lbl.qubits if (sub_lbl.qubits is not None) else Qlabels
+        nforgate = len(sub_lbl_qubits)
         for ind1, qlabel1 in enumerate(sub_lbl_qubits):
             qindex1 = Qlabels.index(qlabel1)
             for ind2, qlabel2 in enumerate(sub_lbl_qubits):
@@ -1545,7 +1545,7 @@ def bitstring_for_pauli(p):
     the phase-vector p creates when acting on the standard input state.
     """
     n = len(p) // 2
-    bitstring = p[n:]
+    bitstring = p[n:].copy()  # (don't modify the caller's phase vector)
     bitstring[bitstring > 0] = 1
     return list(bitstring)
 
-- 
2.43.0


From a991014d843bd9ec229324a30829d111dc502ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 16/20] fix: stabilizer states: phases of initial zvals and of
 Kronecker products, compiled frames with several amplitudes, signs of
 residues, exponentiated operations, composed adjoints of no factors and
 embedded compositions

---
 pygsti/objects/operation.py        |  2 +-
 pygsti/objects/replib/fastreps.cpp | 44 +++++++++++++++++++++---------
 pygsti/objects/stabilizer.py       |  6 ++--
 pygsti/tools/symplectic.py         |  2 +-
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index eb6873f..46f0ef5 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4614,7 +4614,7 @@ class ExponentiatedOp(LinearOperator):
             rep = replib.SVOpRep_Exponentiated(self.exponentiated_op._rep, self.power, dim)
         elif evotype == "stabilizer":
             nQubits = int(round(_np.log2(dim)))  # "stabilizer" is a unitary-evolution type mode
-            rep = replib.SVOpRep_Exponentiated(self.exponentiated_op._rep, self.power, nQubits)
+            rep = replib.SBOpRep_Exponentiated(self.exponentiated_op._rep, self.power, nQubits)
         else:
             raise ValueError("Invalid evotype: %s for ExponentiatedOp object" % evotype)
 
diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 4088f26..1efe5fd 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -500,6 +500,12 @@ namespace CReps {
     DMStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     DMStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Note: same as acton(...) but reverse order of gates and perform adjoint_acton
     //Act with last gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
@@ -1236,6 +1242,12 @@ namespace CReps {
     SVStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     SVStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Note: same as acton(...) but reverse order of gates and perform adjoint_acton
     //Act with last gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
@@ -1608,12 +1620,12 @@ namespace CReps {
     for(INT p=0; p<_namps; p++) {
       pvec = &_pvectors[ _2n*p ]; // p-th vector
       pvec[i] = (pvec[i] + pvec[j] + 2* udot1(i,j)) % 4;
-      for(k=0; k<_n; k++) {
-	row = k*_2n;
-	s[row+i] = s[row+j] ^ s[row+i];
-	row = (k+_n)*_2n;
-	s[row+i] = s[row+j] ^ s[row+i];
-      }
+    }
+    for(k=0; k<_n; k++) { // (after all the phases are updated, as udot1 uses _smatrix)
+      row = k*_2n;
+      s[row+i] = s[row+j] ^ s[row+i];
+      row = (k+_n)*_2n;
+      s[row+i] = s[row+j] ^ s[row+i];
     }
   }
   
@@ -1943,7 +1955,7 @@ namespace CReps {
 	}
       }
       if(inds.size() > 0) {
-	INT parity = (gen_p/2 - (fixed1s % 2)) % 2; // effective parity
+	INT parity = (gen_p/2 + fixed1s) % 2; // effective parity
 	INT* b = new INT[qs_to_sample.size()]; //els are just 0 or 1
 	INT bi;
 	for(bi=0; bi<(INT)qs_to_sample.size(); bi++) b[bi] = 0;
@@ -1952,7 +1964,7 @@ namespace CReps {
 	  // tup == b
 	  INT tup_parity = 0;
 	  for(INT kk=0; kk<(INT)inds.size(); kk++) tup_parity += b[inds[kk]];
-	  if(tup_parity != parity) { // parity among inds is NOT allowed => set ampl to zero
+	  if((tup_parity % 2) != parity) { // parity among inds is NOT allowed => set ampl to zero
 	    if(std::isnan(amp_samples[k].real())) remaining -= 1; //need NAN check here -- TODO replace -1 sentinels
 	    amp_samples[k] = 0.0;
 	  }
@@ -2135,7 +2147,7 @@ namespace CReps {
     for(i=0; i<_2n*_2n; i++) _smatrix[i] = out_s[i];
     for(i=0; i<_namps; i++) {
       INT* pvec = &_pvectors[ _2n*i ]; // i-th vector
-      for(k=0; k<_2n; k++) pvec[k] = (pvec[k] + vec[k]) % 4;
+      for(k=0; k<_2n; k++) pvec[k] = (((pvec[k] + vec[k]) % 4) + 4) % 4; // (vec can be negative)
     }
 
     delete [] out_s;
@@ -2256,7 +2268,7 @@ namespace CReps {
     _factor_gate_creps[0]->acton(state, tmp1);
     
     if(nfactors > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(std::size_t i=1; i < nfactors; i++) {
@@ -2279,11 +2291,17 @@ namespace CReps {
     SBStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     SBStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Act with first gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
 
     if(nfactors > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=nfactors-2; i >= 0; i--) {
@@ -2352,7 +2370,7 @@ namespace CReps {
     _exponentiated_gate_crep->acton(state, tmp1);
     
     if(_power > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=1; i < _power; i++) {
@@ -2388,7 +2406,7 @@ namespace CReps {
     _exponentiated_gate_crep->adjoint_acton(state, tmp1);
     
     if(_power > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=1; i < _power; i++) {
diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index d679eb4..30dacf9 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -79,7 +79,8 @@ class StabilizerFrame(object):
         p = _np.zeros(2 * nqubits, int)
         if zvals is not None:
             for i, z in enumerate(zvals):
-                p[i] = p[i + nqubits] = 2 if bool(z) else 0
+                # (column i holds the (anti-)stabilizer of qubit n-1-i)
+                p[nqubits - 1 - i] = p[2 * nqubits - 1 - i] = 2 if bool(z) else 0
                 # TODO: check this is right -- (how/need to update the destabilizers?)
         return cls(s, [p], [1.0])
 
@@ -823,12 +824,13 @@ def sframe_kronecker(sframe_factors):
     ps_out = []; amps_out = []
     inds = [range(len(sf.ps)) for sf in sframe_factors]
     for ii in _itertools.product(*inds):
-        pout = _np.zeros(2 * n, int); amp = 1.0
+        pout = _np.zeros(2 * n, int); amp = 1.0; k = 0  # k = current qubit index
         for i, sf in zip(ii, sframe_factors):
             nq = sf.nqubits
             pout[k:k + nq] = sf.ps[i][0:nq]
             pout[n + k:n + k + nq] = sf.ps[i][nq:2 * nq]
             amp *= sf.a[i]
+            k += nq
         ps_out.append(pout)
         amps_out.append(amp)
 
diff --git a/pygsti/tools/symplectic.py b/pygsti/tools/symplectic.py
index 479593a..7f080b3 100644
--- a/pygsti/tools/symplectic.py
+++ b/pygsti/tools/symplectic.py
@@ -545,7 +545,7 @@ def prep_stabilizer_state(nqubits, zvals=None):
     p = _np.zeros(2 * n, int)
     if zvals:
         for i, z in enumerate(zvals):
-            p[i] = p[i + n] = 2 if bool(z) else 0  # EGN TODO: check this is right -- (how to update the destabilizers?)
+            p[n - 1 - i] = p[2 * n - 1 - i] = 2 if bool(z) else 0  # column i holds the (anti-)stabilizer of qubit n-1-i  # EGN TODO: check this is right -- (how to update the destabilizers?)
     return s, p
 
 
-- 
2.43.0


From 9ac661095539595f1ab38697102b7b410ab6c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 17/20] fix: Circuit.simulate indexes the already-marginalized
 outcome strings

---
 pygsti/objects/circuit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index c92511f..292d100 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -3120,10 +3120,12 @@ class Circuit(object):
         # state space ordering in the model.
         results = model.probs(self)
 
-        # Mapping from the state-space labels of the model to their indices.
-        # (e.g. if model.state_space_labels is [('Qa','Qb')] then sslInds['Qb'] = 1
-        # (and 'Qb' may be a circuit line label)
-        sslInds = {sslbl: i for i, sslbl in enumerate(model.state_space_labels.labels[0])}
+        # Mapping from the state-space labels of the model to the indices of the outcome strings, which
+        # `model.probs` has already marginalized over the state-space labels that aren't lines of this circuit.
+        # (e.g. if model.state_space_labels is [('Qa','Qb','Qc')] and this circuit's lines are ('Qc','Qb') then
+        # sslInds['Qc'] = 1).
+        sslInds = {sslbl: i for i, sslbl in enumerate([sslbl for sslbl in model.state_space_labels.labels[0]
+                                                       if sslbl in self.line_labels])}
         # Note: we ignore all but the first tensor product block of the state space.
 
         def process_outcome(outcome):
-- 
2.43.0


From c70f32506d5d35a77b6fc076bf280e08dcf98220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 18/20] fix: SVOpRep_Composed (pure Python) misspelled its
 factor list

---
 pygsti/objects/replib/slowreplib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index 0d19576..e53fe05 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -817,7 +817,7 @@ class SVOpRep_Composed(SVOpRep):
     # exactly the same as DM case
     def __init__(self, factor_op_reps, dim):
         #assert(len(factor_op_reps) > 0), "Composed gates must contain at least one factor gate!"
-        self.factors_reps = factor_op_reps
+        self.factor_reps = factor_op_reps
         super(SVOpRep_Composed, self).__init__(dim)
 
     def __reduce__(self):
@@ -836,7 +836,7 @@ class SVOpRep_Composed(SVOpRep):
         return state
 
     def reinit_factor_op_reps(self, new_factor_op_reps):
-        self.factors_reps = new_factor_op_reps
+        self.factor_reps = new_factor_op_reps
 
 
 class SVOpRep_Sum(SVOpRep):
-- 
2.43.0


From e0cd4d37f9ff4fb2511307a7c9b95ed96139398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 19/20] fix: compiled-layer lizards apply repeated sub-circuits

---
 pygsti/objects/localnoisemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/localnoisemodel.py b/pygsti/objects/localnoisemodel.py
index b5bf5bd..22213de 100644
--- a/pygsti/objects/localnoisemodel.py
+++ b/pygsti/objects/localnoisemodel.py
@@ -753,6 +753,8 @@ class SimpleCompLayerLizard(_ImplicitLayerLizard):
     def get_operation(self, layerlbl):
         dense = bool(self.model._sim_type == "matrix")  # whether dense matrix gates should be created
         Composed = _op.ComposedDenseOp if dense else _op.ComposedOp
+        if isinstance(layerlbl, _CircuitLabel):  # a (repeated) sub-circuit; adds global idles to *its* layers
+            return self.get_circuitlabel_op(layerlbl, dense)
         components = layerlbl.components
         bHasGlobalIdle = bool(_Lbl('globalIdle') in self.simpleop_blks['layers'])
 
-- 
2.43.0


From 412a5edb5c8799e5ba4fd2ed389e38819a6d1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 20/20] fix: cloud-noise models resolve qubit labels and
 perfect idles

---
 pygsti/objects/cloudnoisemodel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/cloudnoisemodel.py b/pygsti/objects/cloudnoisemodel.py
index ac1d9ad..b059863 100644
--- a/pygsti/objects/cloudnoisemodel.py
+++ b/pygsti/objects/cloudnoisemodel.py
@@ -964,7 +964,8 @@ def _build_nqn_global_noise(qubitGraph, maxWeight, sparse=False, sim_type="matri
         wtBasis = _BuiltinBasis('pp', 4**wt, sparse=sparse)
 
         for err_qubit_inds in _itertools.combinations(possible_err_qubit_inds, wt):
-            if len(err_qubit_inds) == 2 and not qubitGraph.is_directly_connected(err_qubit_inds[0], err_qubit_inds[1]):
+            if len(err_qubit_inds) == 2 and not qubitGraph.is_directly_connected(qubit_labels[err_qubit_inds[0]],
+                                                                                   qubit_labels[err_qubit_inds[1]]):
                 continue  # TO UPDATE - check whether all wt indices are a connected subgraph
 
             errbasis = [basisEl_Id]
@@ -1086,8 +1087,8 @@ def _build_nqn_cloud_noise(target_qubit_inds, qubitGraph, weight_maxhops_tuples,
     for wt, maxHops in weight_maxhops_tuples:
 
         ## loc_noise_errinds = [] # list of basis indices for all local-error terms
-        possible_err_qubit_inds = _np.array(qubitGraph.radius(target_qubit_inds, maxHops),
-                                            _np.int64)  # we know node labels are integers
+        possible_err_qubit_inds = _np.array([list(qubit_labels).index(lbl) for lbl in  # node labels -> indices
+                                             qubitGraph.radius(target_qubit_inds, maxHops)], _np.int64)
         nPossible = len(possible_err_qubit_inds)  # also == "nLocal" in this case
         basisEl_Id = basisProductMatrix(_np.zeros(wt, _np.int64), sparse)  # identity basis el
 
@@ -1193,7 +1194,11 @@ class CloudNoiseLayerLizard(_ImplicitLayerLizard):
 
         components = layerlbl.components
         if len(components) == 0:  # or layerlbl == 'Gi': # OLD: special case: 'Gi' acts as global idle!
-            return self.simpleop_blks['layers']['globalIdle']  # idle!
+            if 'globalIdle' in self.simpleop_blks['layers']:
+                return self.simpleop_blks['layers']['globalIdle']  # idle!
+            ret = Composed([], dim=self.model.dim, evotype=self.model._evotype)  # no idle noise => perfect idle
+            self.model._init_virtual_obj(ret)
+            return ret
 
         #Compose target operation from layer's component labels, which correspond
         # to the perfect (embedded) target ops in op_blks
-- 
2.43.0

