From be4793af4ef80d6d0df7dd91c12591d26c82ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 01/43] fix: raise the ParameterError built by
 ChemState.conserve

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..3a4ca80 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -234,7 +234,7 @@ class ChemState(object):
         # Check input parameter.
         if not isinstance(another, self.__class__):
             msg = "Parameter another must be instance of ChemState."
-            return ParameterError(msg)
+            raise ParameterError(msg)
 
         # Check elements.
         dict1 = self.get_elements_dict()
-- 
2.43.0


From 8f4e8553b8f70ea7c363375431e6e8eeb848b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 02/43] fix: do not share mutable parameter defaults between
 models

---
 scaks/descriptors/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..96ddfdc 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -30,7 +30,7 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From ddf5057821f663267df58e883aaa61b1997708e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 03/43] fix: memoize solver queries per instance and per
 energies in use

---
 scaks/descriptors/descriptors.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 96ddfdc..6ecd09e 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -4,6 +4,7 @@ Definitions of attribute descriptors.
 
 import numpy as np
 import copy
+import functools
 
 from ..utilities.check_utilities import check_species_definitions
 from ..utilities.check_utilities import check_ref_energies
@@ -377,24 +378,29 @@ class Memoized(object):
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        if instance is None:
+            return self
+        return functools.partial(self.query, instance)
+
+    def query(self, instance, **kwargs):
+        # NOTE: results are kept in the instance, different instances
+        #       must never share them.
+        results = instance.__dict__.setdefault("_memoized_results", {})
+        results = results.setdefault(self.func.__name__, {})
 
-    def __call__(self, **kwargs):
         # Make all arguments hashable.
         key = make_hashable(kwargs)
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        if key.get("relative_energies") is None:
+            key["relative_energies"] = make_hashable(instance._owner.relative_energies)
 
         try:
-            return self.results[key]
+            return results[key]
         except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+            results[key] = self.func(instance, **kwargs)
+            return results[key]
 
-- 
2.43.0


From dc7908bbb3cf94469f69b6a2a7f508b42185b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 04/43] fix: reject relative energies without forward barriers

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..c8eaaa8 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -213,7 +213,7 @@ class MeanFieldSolver(SolverBase):
                 raise AttributeError(msg)
 
         # Check input parameter.
-        if "Gaf" and "Gar" not in relative_energies:
+        if "Gaf" not in relative_energies or "Gar" not in relative_energies:
             msg = "'Gaf' and 'Gar' must be in relative_energies."
             raise ParameterError(msg)
 
-- 
2.43.0


From c46012f53979a465a4a5b3a2bcecb14e3b8e8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 05/43] fix: use the supplied relative energies for residual
 and initial guess

---
 scaks/models/micro_kinetic_model.py  | 2 +-
 scaks/solvers/steady_state_solver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..94c3cce 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -227,7 +227,7 @@ class MicroKineticModel(KineticModel):
             else:
                 if self.log_allowed:
                     self._logger.info('Do ODE integration to get initial guess...')
-                ode_traj = solver.solve_ode()
+                ode_traj = solver.solve_ode(relative_energies=relative_energies)
                 init_cvgs = ode_traj[-1]
 
         else:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..f9ca34f 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -809,7 +809,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = self.get_residual(c0, relative_energies)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From 9c20f28d200733ab79de0e3991cba7ea5e55211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 06/43] fix: look archived coverages up under the name they are
 archived with

---
 scaks/models/micro_kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 94c3cce..eb088f3 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,7 +217,7 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
+            init_guess = 'steady_state_coverages'
             if init_guess in data:
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
-- 
2.43.0


From 0ae3836558a189fb68ccb5aebc390643164888b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 07/43] fix: guess initial coverages when none are supplied,
 check them when they are

---
 scaks/models/micro_kinetic_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index eb088f3..2e2a690 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -198,7 +198,7 @@ class MicroKineticModel(KineticModel):
         # set initial guess(initial coverage)
         # if there is converged coverage in current path,
         # use it as initial guess
-        if init_cvgs:
+        if init_cvgs is not None:
             # Check init_cvgs type.
             if not isinstance(init_cvgs, (tuple, list)):
                 msg = "init_cvgs must be a list or tuple, but {} received."
@@ -233,6 +233,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From c17a56df17084484933f080b062833c7e7ca3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 08/43] fix: provide the residual error of the fsolve solution

---
 scaks/solvers/steady_state_solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f9ca34f..f2ff340 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -753,7 +753,12 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        converged_cvgs = self.coarse_steady_state_cvgs(c0, relative_energies)
+
+        self._coverages = tuple(converged_cvgs)
+        self._error = self.get_residual(self._coverages, relative_energies)
+
+        return converged_cvgs
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From 00b5193d8c086a063b8a21e60d818823ff7558d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 09/43] fix: substitute each concentration symbol by its own
 value

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index c8eaaa8..bd7eb1f 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -989,7 +989,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
-- 
2.43.0


From 8f26d6071672fd0323bd2a00b5e666508979f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 10/43] fix: symbolic Jacobian for any number of adsorbates

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f2ff340..3076fbf 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -624,7 +624,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -654,7 +654,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From 475b14f03371fbb7f8868d9693b504a5c984ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 11/43] fix: undefined LaTeX attribute and missing return of
 good_guess

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 3076fbf..2119fd9 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -592,7 +592,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
@@ -1383,4 +1383,4 @@ class SteadyStateSolver(MeanFieldSolver):
     def good_guess(self):
         """ Query function for good initial coverages.
         """
-        self._good_guess
+        return self._good_guess
-- 
2.43.0


From aa0d5eaeb1a37bd63e06c8f8c10ae0bcd2f026bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 12/43] fix: warn through the existing logger of the corrector

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..98f0502 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
-- 
2.43.0


From fa6ecb58d7800e061fe46a1c52d09f8a1733eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 13/43] fix: honour stoichiometry when correcting relative
 energies

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 98f0502..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 25b8cf1b8bc7751a59010016bcdf41959fc6bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 14/43] fix: look gas pressures up by species and apply
 coefficients

---
 scaks/solvers/solver_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..685d90c 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,18 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            f = lambda gas: (self._owner.species_definitions[gas.species_site()]["pressure"] **
+                             gas.stoichiometry())
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +232,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +286,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From a121242a50fee59286d47478f08943d6e487c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 15/43] fix: set the given plotter, do not override the
 checking set_corrector

---
 scaks/models/kinetic_model.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..f3d72b2 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -404,15 +404,7 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
-
-    def set_corrector(self, corrector):
-        ''' Set corrector for current model
-
-        :param corrector: Valid corrector object
-        :type corrector: any
-        '''
-        setattr(self, mangled_name(self, 'corrector'), corrector)
+        setattr(self, mangled_name(self, 'plotter'), plotter)
 
     @Property
     def log_allowed(self):
-- 
2.43.0


From c998bdf3d9c16323d16f1f24a383ea8fd3a28a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 16/43] fix: split sequences of any length over any number of
 processes

---
 scaks/mpicommons.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..bc842fb 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,8 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        start = len(sequence)*self.rank//self.size
+        end = len(sequence)*(self.rank + 1)//self.size
 
         return sequence[start: end]
 
-- 
2.43.0


From 60c6792bc806bd90a90fcdcb6ff8104a126c0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 17/43] fix: create shared directories before the barrier all
 processes reach

---
 scaks/models/kinetic_model.py       | 2 +-
 scaks/models/micro_kinetic_model.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index f3d72b2..4590810 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -193,9 +193,9 @@ class KineticModel(object):
             if 1 == mpi.size:
                 filename = "out.log"
             else:
-                mpi.barrier()
                 if not os.path.exists("./log") and mpi.is_master:
                     os.mkdir("./log")
+                mpi.barrier()
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 2e2a690..8b59bf7 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -127,10 +127,10 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self).__init__(**kwargs)
 
         # Create data directory if need.
-        if mpi.size != 1 and not os.path.exists("./data"):
-            mpi.barrier()
-            if mpi.is_master:
+        if mpi.size != 1:
+            if mpi.is_master and not os.path.exists("./data"):
                 os.mkdir("./data")
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From eb8c65d935a5f2f8aae4dd2b7ebb250758a25f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 18/43] fix: separate log file per process for KMC models

---
 scaks/models/kmc_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/kmc_model.py b/scaks/models/kmc_model.py
index 5896085..71787cc 100644
--- a/scaks/models/kmc_model.py
+++ b/scaks/models/kmc_model.py
@@ -136,7 +136,7 @@ class KMCModel(KineticModel):
         super(KMCModel, self).__init__(**kwargs)
 
     # Overwrite father's function.
-    def _set_logger(self, filename="out.log"):
+    def _set_logger(self, filename=None):
         super(KMCModel, self)._set_logger(filename)
 
     def run(self, scripting=True, trajectory_type="lattice"):
-- 
2.43.0


From 70619828100ac3c776a49668a6e107c1e93be185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 19/43] fix: create shared analysis files on the master process
 only

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 7 ++++---
 scaks/solvers/kmc_plugins/tof_analysis.py       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..0f7313e 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -63,9 +63,10 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Create statistic data file.
         variables_str = ("times = []\npicked_indices = []\n" +
                          "process_occurencies = []\n")
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Append picked index.
diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..6b20b9d 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -78,9 +78,10 @@ class TOFAnalysis(KMCAnalysisPlugin):
         process_mapping = self.__kmc_model.process_mapping
         process_mapping_str = get_list_string("processes", process_mapping, 1)
 
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str + process_mapping_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str + process_mapping_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Get picked process index.
-- 
2.43.0


From 2ffddeb8b30540654af73baa8b508386009f795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 20/43] fix: quote the possible types once in the coverages
 file

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From 563e110843073bca83377347eedcdba4040eba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 21/43] fix: label exactly the processes that are generated

---
 scaks/solvers/kmc_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..3002247 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,7 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
@@ -209,7 +210,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not fast and not redist:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From f582a45466d755c1d202b10202743afceccb81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 22/43] fix: finalize analysis plugins for the attempt they
 were set up for

---
 scaks/solvers/steady_state_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 2119fd9..76ed091 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -799,6 +799,8 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            # Analysis plugins that are set up for current attempt.
+            attempt, started_analysis = icvg_counter, []
             try:
             # {{{
                 # Good initial coverages.
@@ -864,6 +866,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 # Setup analysis plugins
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
+                    started_analysis.append(ap)
 
                 for x, error, fx in newton_iterator:  # inner loop
                     nt_counter += 1
@@ -957,8 +960,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                for ap in started_analysis:
+                    ap.finalize(self._owner, attempt)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From 9aa4d632d2e131948df01d1a953c459797486e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 23/43] fix: weight coverage derivatives by net stoichiometry

---
 scaks/solvers/steady_state_solver.py | 32 +++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 76ed091..21a3e3c 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,28 +133,26 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
-
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
-
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # Get net number of adsorbates produced by the reaction.
+        net_stoichiometry = 0
+        for formula in elementary_rxn_list[0]:
+            if formula.species_site() == adsorbate_name:
+                net_stoichiometry -= formula.stoichiometry()
+        for formula in elementary_rxn_list[-1]:
+            if formula.species_site() == adsorbate_name:
+                net_stoichiometry += formula.stoichiometry()
+
+        # If the adsorbate is not changed by the reaction, stop.
+        if net_stoichiometry == 0:
             return
 
+        stoichiometry = abs(net_stoichiometry)
+
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
+        if net_stoichiometry < 0:
             if stoichiometry == 1:
                 increase_rate, decrease_rate = r_expr, f_expr
             else:
@@ -193,7 +191,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 dtheta_dt_expression_list.append(single_dtheta_dt)
 
         # Join the expressions.
-        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
+        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list) or '0.0'
 
         return dtheta_dt_expression
         # }}}
-- 
2.43.0


From e51f59af117a988e39a53e94ca99d1cc12b42076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 24/43] fix: solver queries that read attributes nothing
 defines

---
 scaks/solvers/mean_field_solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index bd7eb1f..7266b27 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -32,6 +32,7 @@ class MeanFieldSolver(SolverBase):
 
         # Set flags.
         self._has_symbols = False
+        self._abs_corrected = False
 
         # Set essential attrs for solver
         self._rxns_list = self._owner.elementary_rxns_list
@@ -1073,7 +1074,7 @@ class MeanFieldSolver(SolverBase):
     def has_absolute_energy(self):
         """ Query function for has_absolute_energy flag.
         """
-        return self._has_absolute_energy
+        return self._owner.has_absolute_energy
 
     @Property
     def absolute_corrected(self):
@@ -1109,11 +1110,11 @@ class MeanFieldSolver(SolverBase):
     def absolute_energies(self):
         """ Query function for formation energies.
         """
-        return self._G
+        return self._owner.absolute_energies
 
     @Property
     def rate_expressions(self):
         """ Query functions for rate expressions for all elementary reactions.
         """
-        return self._rate_expressions
+        return self.get_rate_expressions()
 
-- 
2.43.0


From 8979b0a9b4762582473d79ded7aca637fc964ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 25/43] fix: scale the Newton step by a number of the matrix
 type

---
 scaks/solvers/rootfinding_iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..6245605 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,13 +130,13 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
                 return norm(fx)
             l = golden(fl)
 #            print l
 #            l = mp.mpf('1.0')
-            x1 = self._matrix(x0) + l*s  # matrix
+            x1 = self._matrix(x0) + self._mpfloat(l)*s  # matrix
             x1 = self.constraint(tuple(x1))
             if x1 == x0:
                 self.logger.info("Solver: Found stationary point.")
-- 
2.43.0


From c7cf6f6b2640d2fc278938b152d7f049fe0bc382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 26/43] fix: restore the steady state after each rate control
 perturbation

---
 scaks/solvers/steady_state_solver.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 21a3e3c..124b356 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1133,6 +1133,12 @@ class SteadyStateSolver(MeanFieldSolver):
 
             return XRCi
 
+        # Solving with shifted energies must leave the solution intact.
+        solution = {name: self.__dict__[name]
+                    for name in ("_coverages", "_error", "_good_guess")
+                    if name in self.__dict__}
+        archived_data = dict(self._archived_data_dict)
+
         XRCs = [None]*n_rxns
         for i in range(n_rxns):
             if self._owner.log_allowed:
@@ -1146,6 +1152,11 @@ class SteadyStateSolver(MeanFieldSolver):
             if self._owner.log_allowed:
                 self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
 
+            # Restore the solution.
+            self.__dict__.update(solution)
+            for data_name, data in archived_data.items():
+                self.archive_data(data_name, data)
+
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
 
-- 
2.43.0


From e5cc7a73e64acf1648281ac26a307a4a86c8ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 27/43] fix: stop the time integration when the integrator
 fails

---
 scaks/solvers/steady_state_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 124b356..53f062d 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1306,6 +1306,9 @@ class SteadyStateSolver(MeanFieldSolver):
 
                 # Integrate.
                 r.integrate(r.t + t_step)
+                if not r.successful():
+                    self.__logger.warning('ODE integration failed at t = %e', r.t)
+                    break
                 if traj_output and output_allowed:
                     ts.append(r.t)
                     ys.append(r.y.tolist())
-- 
2.43.0


From 9ec8461fa25bfe456893bdbc37d6b6b3c14df491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 28/43] fix: derivative of terms with both the adsorbate and
 its free site

---
 scaks/solvers/steady_state_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 53f062d..7adcbff 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -373,7 +373,7 @@ class SteadyStateSolver(MeanFieldSolver):
             regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
-                site_part = m.group(1) + '*' + m.group(6)
+                site_part = m.group(1) + m.group(6)
             else:
                 site_part = m.group(1)
             adsorbate_part = m.group(2) + m.group(3)
@@ -426,6 +426,8 @@ class SteadyStateSolver(MeanFieldSolver):
                          for term_expression in terms]
 
         # Combine 2 lists.
+        derived_terms = ['({})'.format(term) if ' + ' in term else term
+                         for term in derived_terms]
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
             derived_poly_list += list(combination)
-- 
2.43.0


From a8876cdce9d18b1ff44dee6deeec76282f58806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 29/43] fix: do not flush an empty coverage buffer when a
 simulation ends

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..a6ef13d 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -137,7 +137,8 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         """
         if mpi.is_master:
             # Write to file.
-            self.__flush()
+            if self.__coverages:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From 0fcd8a945058061056294524fc42c5586f0269ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 30/43] fix: results of an unsolved model are reported as
 missing, not as None

---
 scaks/models/micro_kinetic_model.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 8b59bf7..15c1270 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -132,11 +132,6 @@ class MicroKineticModel(KineticModel):
                 os.mkdir("./data")
             mpi.barrier()
 
-        # Model attributes definitions.
-        self.__ss_cvgs = None          # steady-state coverages
-        self.__tofs = None              # turn-over frequencies
-        self.__reversibilities = None  # reversibilities
-
     def _set_logger(self, filename=None):
         super(MicroKineticModel, self)._set_logger(filename)
         # if not master processor, no INFO to console.
-- 
2.43.0


From d05f308b0f3f1eb85da81e3021a24c0a32b8abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 31/43] fix: constrain the coverages a hybrid method proposes

A proposed guess went unconstrained into the next attempt, where a guess
with negative coverages could be accepted as steady state.
---
 scaks/solvers/steady_state_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 7adcbff..887254d 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -947,6 +947,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         break
                     else:
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -958,6 +959,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     break
                 else:
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
                 for ap in started_analysis:
-- 
2.43.0


From bc0c54ee9b13b6d95eaba55d299147dcb540776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 32/43] fix: reject an invalid element before its coordinate is
 appended

---
 scaks/utilities/coordinate_utilities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..cfd7830 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -59,17 +59,15 @@ class CoordsGroup(object):
         :param element: element type, default value is "V"
         :type element: str
         """
-        # Append coordinates.
+        # Check both before anything is appended.
         self.__check_coordinate(coordinate)
-        self.__coords.append(coordinate)
-
-        # Append elements.
         if element is None:
-            self.__elements.append("V")
-        else:
-            if type(element) is not str:
-                raise ValueError("element must be a string.")
-            self.__elements.append(element)
+            element = "V"
+        elif type(element) is not str:
+            raise ValueError("element must be a string.")
+
+        self.__coords.append(coordinate)
+        self.__elements.append(element)
 
     def extend(self, coordinates, elements=None):
         """ Function to add new coordinates.
-- 
2.43.0


From 4f3297806636062b80429f420177ac13bb78ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 33/43] fix: do not lose coordinates that are extended without
 elements

---
 scaks/utilities/coordinate_utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index cfd7830..c49f053 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -81,6 +81,10 @@ class CoordsGroup(object):
         if elements is None:
             elements = ["V"]*len(coordinates)
 
+        if len(coordinates) != len(elements):
+            msg = "Length of coordinates({}) and elements({}) are different."
+            raise ValueError(msg.format(len(coordinates), len(elements)))
+
         for coordinate, element in zip(coordinates, elements):
             self.append(coordinate, element)
 
-- 
2.43.0


From 2c8b57d577271985083b2391d6b1fb539507959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 34/43] fix: reject move vectors that are not lists of three
 numbers

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index c49f053..fe57c15 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -101,7 +101,7 @@ class CoordsGroup(object):
             move_vector = [0.0, 0.0, 0.0]
 
         # Check the parameter.
-        if type(move_vector) is not list and len(move_vector) != 3:
+        if type(move_vector) is not list or len(move_vector) != 3:
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-- 
2.43.0


From dbbc3b417e241e9886a16739a2305624879f820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 35/43] fix: moving an empty group of coordinates

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index fe57c15..0d5e9a0 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -105,7 +105,7 @@ class CoordsGroup(object):
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(-1, 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From 5d885da1c1e6e0c84693ee1d3d3e5632bba3d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 36/43] fix: callers share no arguments or results with
 memoized queries

---
 scaks/descriptors/descriptors.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 6ecd09e..844f5bb 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -391,16 +391,17 @@ class Memoized(object):
         results = results.setdefault(self.func.__name__, {})
 
         # Make all arguments hashable.
-        key = make_hashable(kwargs)
+        # NOTE: arguments and results are copied, what callers do to
+        #       them afterwards must not change the memoized ones.
+        key = make_hashable(copy.deepcopy(kwargs))
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
         if key.get("relative_energies") is None:
-            key["relative_energies"] = make_hashable(instance._owner.relative_energies)
+            key["relative_energies"] = make_hashable(copy.deepcopy(instance._owner.relative_energies))
 
-        try:
-            return results[key]
-        except KeyError:
+        if key not in results:
             results[key] = self.func(instance, **kwargs)
-            return results[key]
+
+        return copy.deepcopy(results[key])
 
-- 
2.43.0


From dcf521a0247ce9d484660d9e45fa491ab7341622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 37/43] fix: memoize queries with empty energies under the
 model energies they use

---
 scaks/descriptors/descriptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 844f5bb..e2dc7b1 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -395,9 +395,9 @@ class Memoized(object):
         #       them afterwards must not change the memoized ones.
         key = make_hashable(copy.deepcopy(kwargs))
 
-        # NOTE: if relative_energies is None, then we should
+        # NOTE: if no relative energies are given, then we should
         #       search the model's relative energies.
-        if key.get("relative_energies") is None:
+        if not key.get("relative_energies"):
             key["relative_energies"] = make_hashable(copy.deepcopy(instance._owner.relative_energies))
 
         if key not in results:
-- 
2.43.0


From 8c89b35fc2483cf5a2b2b151b63e54d2ca81c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 38/43] fix: generate processes again when the energies they
 were made with have changed

---
 scaks/solvers/kmc_solver.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 3002247..0379639 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import importlib
 import time
@@ -44,6 +45,9 @@ class KMCSolver(SolverBase):
         # Set process reaction mapping.
         self.__process_mapping = []
 
+        # Generated processes and what they were generated from.
+        self.__processes, self.__process_dicts, self.__energies = [], None, None
+
     def run(self,
             scripting=True,
             trajectory_type="lattice"):
@@ -393,11 +397,16 @@ class KMCSolver(SolverBase):
         """
         Query function for processes list.
         """
-        try:
-            return self.__processes
-        except AttributeError:
+        # NOTE: processes generated before are reused only as long as the
+        #       definitions and energies they depend on are the same.
+        process_dicts = self._owner.process_dicts
+        energies = self._owner.relative_energies
+        if process_dicts is not self.__process_dicts or energies != self.__energies:
             self.__processes = self.get_processes()
-            return self.__processes
+            self.__process_dicts = process_dicts
+            self.__energies = copy.deepcopy(energies)
+
+        return self.__processes
 
     @Property
     def process_mapping(self):
-- 
2.43.0


From 33339bd842880bfe04af40e654eca53ff930f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 39/43] fix: appending to a group of coordinates changed the
 lists it was made of

---
 scaks/utilities/coordinate_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 0d5e9a0..a6369a4 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -23,12 +23,12 @@ class CoordsGroup(object):
         if coordinates is None:
             self.__coords = []
         else:
-            self.__coords = coordinates
+            self.__coords = copy.copy(coordinates)
 
         if elements is None:
             self.__elements = ["V"]*len(self.__coords)
         else:
-            self.__elements = elements
+            self.__elements = copy.copy(elements)
 
         # Check.
         if len(self.__coords) != len(self.__elements):
-- 
2.43.0


From c1a0ceca9264919895e3f70857f44547f618e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 40/43] fix: registering analyses changed the setup data the
 model was made of

---
 scaks/models/kinetic_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index 4590810..e7128ee 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -285,7 +285,9 @@ class KineticModel(object):
                 continue
 
             # Set parameters in setup dict as attiributes of model.
-            setattr(self, key, value)
+            # NOTE: parameters may be changed by the model later(e.g. registration of
+            #       analyses), the setup data of users must not.
+            setattr(self, key, copy.deepcopy(value))
 
             # Output info.
             specials = ("rxn_expressions", "species_definitions")
-- 
2.43.0


From df093b62d29e4f6a0a616a23bc46ef674024614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 41/43] fix: adding two formulas failed with a TypeError

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 3a4ca80..29b087b 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -303,7 +303,7 @@ class ChemFormula(object):
     def __add__(self, formula_inst):
         """ Overload + operation function.
         """
-        chem_state = self.formula + ' + ' + formula_inst.formula
+        chem_state = self.formula() + ' + ' + formula_inst.formula()
         return ChemState(chem_state)
 
     def __split(self):
-- 
2.43.0


From 1d9e96ad465037fd462f1f1ae22c1a1d1345325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 42/43] fix: derivative of a rate term with factors after the
 adsorbate, or a power of two digits

---
 scaks/solvers/steady_state_solver.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 887254d..7332c6e 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -263,7 +263,7 @@ class SteadyStateSolver(MeanFieldSolver):
         if '*' in adsorbate_name:
             adsorbate_name = '\\' + adsorbate_name
 
-        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
         #r"(.*)\*(theta\['CO_s'\])(\*\*(\d)|)(\*(.*)|)"
         ###########################################################
         # group(1) -> ((.*)\*|), group(2) -> (.*)                 #
@@ -370,12 +370,9 @@ class SteadyStateSolver(MeanFieldSolver):
         # If contains both.
         if (site_name in sites_list) and (theta(adsorbate_name) in term_expression):
             #split two parts
-            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
-            if m.group(6):
-                site_part = m.group(1) + m.group(6)
-            else:
-                site_part = m.group(1)
+            site_part = m.group(1) + m.group(5)
             adsorbate_part = m.group(2) + m.group(3)
             # Get derivation expression
             derivation_expression = (deriv_adsorbate_part(adsorbate_name, adsorbate_part) +
-- 
2.43.0


From 1eb06c1be8a7d4463a90cbdc93340835e817b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 43/43] fix: reject an unknown rate algorithm when KMC
 processes are generated

---
 scaks/solvers/kmc_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 0379639..c3b7d2d 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -156,6 +156,9 @@ class KMCSolver(SolverBase):
             rf, rr = self.get_rxn_rates_TST(process_dict["reaction"],
                                             self._owner.relative_energies,
                                             include_pressure=True)
+        else:
+            msg = "Unknown rate algorithm '{}'.".format(self._owner.rate_algo)
+            raise SetupError(msg)
 
         # Get process fast flag, False by default.
         fast = process_dict.get("fast", False)
-- 
2.43.0

