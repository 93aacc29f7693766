From bf330ed1c3fa4da4777cef6a314300fc0eebe835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 01/51] fix: land adaptive steps exactly on the requested times

The adaptive loop decided that a requested time was reached by comparing
t + (t_eval - t) with t_eval, which only holds up to rounding: rows were
dropped, or the loop never ended, e.g. for t_span = [-1., 0.1].
---
 torchdyn/numerics/odeint.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..5e7746d 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -349,8 +349,10 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
+		# requested time this step is truncated to, if any. `t + dt` is only equal to it up to rounding
+		t_land = None
 		if t + dt > T:
-			dt = T - t
+			dt, t_land = T - t, t_span[-1:]
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
@@ -358,8 +360,9 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					dt, t_land = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter + 1]
 
+		t_new = t + dt if t_land is None else t_land
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
 		if seminorm[0] == True:
@@ -376,8 +379,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -386,12 +389,12 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
-- 
2.43.0


From 47e87cfa781d9fc6e99c5d338a0a01d2c4b0dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 02/51] fix: shrink the rejected step itself when it was
 truncated at a checkpoint

After a rejection the step size was reset to the part of the old proposal
beyond the checkpoint, so the very same trial could be repeated many times.
Also keep the old proposal when that remainder rounds to a zero step, which
made the solve hang.
---
 torchdyn/numerics/odeint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 5e7746d..8a12774 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -400,7 +400,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
 		if ckpt_flag:
-			dt = dt_old - dt
+			# continue with what is left of the proposed step, unless it rounds to nothing
+			if accept_step: dt = torch.where(t + (dt_old - dt) > t, dt_old - dt, dt_old)
 			ckpt_flag = False
 
 		dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 36a95e63b5412a3b2d0dda70a5b49302b6cc1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 03/51] fix: reversed time domains

The initial step was selected with the original vector field, evaluated
outside of the interval, and the returned times were the mirrored ones, so
that adjoints solved the wrong backward problem. Lists could not be reversed
and saving times were not mirrored.
---
 torchdyn/numerics/odeint.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 8a12774..e046ccf 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,13 +51,12 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
+	if type(t_span) == list: t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
-		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
-	else: f_ = f
-
-	if type(t_span) == list: t_span = torch.cat(t_span)
+		t_eval, sol = odeint(lambda t, x, *fargs, **fkwargs: -f(-t, x, *fargs, **fkwargs), x, -t_span, solver, atol, rtol,
+							 t_stops, verbose, interpolator, return_all_eval, [-t for t in save_at], args, seminorm)
+		return -t_eval, sol
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
@@ -82,13 +81,13 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			return _fixed_odeint(f, x, t_span, solver, save_at=save_at, args=args)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
-			k1 = f_(t, x)
+			k1 = f(t, x)
 			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			return _adaptive_odeint(f, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
 
 
 # TODO (qol) state augmentation for symplectic methods
@@ -109,12 +108,13 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
+	reverse = bool(t_span[1] < t_span[0])
+	if reverse: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
+		t_span, save_at = -t_span, [-t for t in save_at]
 	else: f_ = f
-	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
@@ -137,17 +137,18 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+		return (-t_eval if reverse else t_eval), sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 8e150299ec6cc10acf7ba992f7f6990475db4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 04/51] fix: validate and match saving times against the
 integration grid

The assertion compared save_at with itself, so times outside of t_span were
silently dropped, unsorted ones were returned next to the wrong states, and
grids of close, large times could not be integrated at all. Same for SDEs.
---
 torchdyn/numerics/odeint.py | 18 ++++++------------
 torchdyn/numerics/sdeint.py | 21 +++++++++------------
 torchdyn/numerics/utils.py  | 12 ++++++++++++
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index e046ccf..d4637e0 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -23,7 +23,7 @@ import torch.nn as nn
 
 from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, Tsitouras45, str_to_solver, str_to_ms_solver
 from torchdyn.numerics.interpolators import str_to_interp
-from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, EventState
+from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, match_save_at, EventState
 
 
 def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, nn.Module], atol:float=1e-3, rtol:float=1e-3,
@@ -415,29 +415,23 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at = t_span
-	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
-		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	save_at, save_idx = match_save_at(save_at, t_span)
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
-	sol = []
-	if torch.isclose(t, save_at).sum():
-		sol = [x]
+	sol = {}
+	if 0 in save_idx: sol[0] = x
 
 	steps = 1
 	while steps <= len(t_span) - 1:
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
 		t = t + dt
 
-		if torch.isclose(t, save_at).sum():
-			sol.append(x)
+		if steps in save_idx: sol[steps] = x
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
 
+	sol = [sol[i] for i in save_idx]
 	if isinstance(sol[0], dict):
 		final_out = {k: [v] for k, v in sol[0].items()}
 		_ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..e55df99 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -5,6 +5,7 @@ from warnings import warn
 
 from torchsde._brownian import BaseBrownian
 from torchdyn.core.defunc import SDEFunc
+from torchdyn.numerics.utils import match_save_at
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
@@ -50,18 +51,12 @@ def sdeint(
     sde = check_sde(sde)
 
     if type(t_span) == list:
-        t_span = torch.cat(t_span)
+        t_span = torch.cat([torch.as_tensor(t).reshape(-1) for t in t_span])
 
     if type(solver) == str:
         solver = sde_str_to_solver(solver, sde, bm, x.dtype)
     x, t_span = solver.sync_device_dtype(x, t_span)
     stepping_class = solver.stepping_class
-    # instantiate save_at tensor
-    if len(save_at) == 0:
-        save_at = t_span
-    if not isinstance(save_at, torch.Tensor):
-        save_at = torch.tensor(save_at)
-
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
         raise NotImplementedError(
@@ -89,21 +84,23 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    save_at, save_idx = match_save_at(save_at, t_span)
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
-    sol = []
-    if torch.isclose(t, save_at).sum():
+    sol = {}
+    if 0 in save_idx:
         # if t is in save_at
-        sol = [x]
+        sol[0] = x
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
         t = t + dt
-        if torch.isclose(t, save_at).sum():
-            sol.append(x)
+        if steps in save_idx:
+            sol[steps] = x
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
         steps += 1
 
+    sol = [sol[i] for i in save_idx]
     if isinstance(sol[0], dict):
         final_out = {k: [v] for k, v in sol[0].items()}
         _ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..d3f97b4 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -63,6 +63,18 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
     return dt * factor
 
 
+def match_save_at(save_at, t_span):
+    "Returns `save_at` as a tensor (defaults to `t_span`), along with the index in `t_span` of each of its elements"
+    if len(save_at) == 0: return t_span, list(range(len(t_span)))
+    if not isinstance(save_at, torch.Tensor):
+        save_at = torch.cat([torch.as_tensor(t, dtype=t_span.dtype).reshape(-1) for t in save_at])
+    save_at = save_at.to(t_span)
+    save_idx = (save_at[:, None] - t_span).abs().argmin(1)
+    assert torch.isclose(save_at, t_span[save_idx], rtol=1e-6).all(), \
+        "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor]"
+    return save_at, save_idx.tolist()
+
+
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
     spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-- 
2.43.0


From b597031f15bec1248dc1f36c8fddcb09c1f97cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 05/51] fix: stop multiple shooting once all shooting
 parameters are exact

The sweeps indexed past the last shooting parameter when the iteration cap
exceeds the number of intervals, e.g. with the default of four iterations and
three time points.
---
 torchdyn/numerics/solvers/ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..cb56c7a 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,8 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        # the first `i + 1` shooting parameters are exact after `i` iterations
+        while i <= maxiter and i < n_subinterv - 1:
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +265,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        # the first `i + 1` shooting parameters are exact after `i` iterations
+        while i <= maxiter and i < n_subinterv - 1:
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
-- 
2.43.0


From 20d53497de00923274d10dae0cc2f1d0974c7aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 06/51] fix: MSBackward Newton correction

Fine solutions and Jacobian blocks are those of the active segment B[i-1:], but
were indexed as if of the whole of B (IndexError or wrong block from the second
sweep on), and the correction was a vector-Jacobian instead of a
Jacobian-vector product. Also do not switch on gradients of the caller's B0.
---
 torchdyn/numerics/solvers/ode.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index cb56c7a..70199b2 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -264,19 +264,25 @@ class MSBackward(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        B = B.requires_grad_(True)
+        if not B.requires_grad: B = B.clone().requires_grad_(True)
         # the first `i + 1` shooting parameters are exact after `i` iterations
         while i <= maxiter and i < n_subinterv - 1:
             i += 1
-            B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
+            B_prev = B[i-1:]
+            B_fine = odeint_func(f, B_prev, sub_t_span, solver=self.fine_method)[1][-1]
+            # jvps are obtained by differentiating the vjp w.r.t its (dummy) cotangent
+            v = torch.zeros_like(B_fine).requires_grad_(True)
+            vjp = torch.autograd.grad(B_fine, B_prev, v, create_graph=True)[0]
             B_out = torch.zeros_like(B)
             B_out[:i] = B[:i]
             B_in = B[i-1]
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                dB = torch.zeros_like(B_fine)
+                dB[m-i] = B_in - B[m-1]
+                J_blk = torch.autograd.grad(vjp, v, dB, retain_graph=True)[0][m-i]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From 118df28758b9d2402e68f1de17246693cbc796e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 07/51] fix: multiple shooting problems with adjoint
 sensitivity

The forward solve was given no solver and swapped iteration cap and fine steps.
---
 torchdyn/core/problems.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..7ef7b5b 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -211,7 +211,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -220,14 +220,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
-                self.maxiter,
+                maxiter=self.maxiter,
+                fine_steps=self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -236,8 +236,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
-                self.maxiter,
+                maxiter=self.maxiter,
+                fine_steps=self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From 6b2ae1a790c6b418cfbdcf705f23340be83a53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 08/51] fix: saving times of problems solved with adjoint
 sensitivity

`save_at` was passed in place of the shooting parameters and ignored, and `args`
in place of `save_at`.
---
 torchdyn/core/problems.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 7ef7b5b..f5610f2 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -9,6 +9,7 @@ from torchdyn.numerics.sensitivity import (
 )
 from torchdyn.numerics.odeint import odeint, odeint_mshooting
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
+from torchdyn.numerics.utils import match_save_at
 from torchdyn.core.utils import standardize_vf_call_signature
 from torchdyn.core.defunc import SDEFunc
 from torchdyn.numerics import sdeint
@@ -152,7 +153,12 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            t_eval, sol = self._autograd_func()(self.vf_params, x, t_span)
+            # the adjoint needs the full solution, saving times are a selection of its rows
+            if len(save_at) > 0 and self.solver.stepping_class == "fixed":
+                t_eval, save_idx = match_save_at(save_at, t_eval)
+                sol = sol[save_idx]
+            return t_eval, sol
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
-- 
2.43.0


From bbf8dac41d458affb315b05cc3e1552e6678175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 09/51] fix: adjoints of vector fields with unused or frozen
 parameters

Unused parameters were given a single zero whatever their size, and frozen
parameters cannot be differentiated.
---
 torchdyn/numerics/sensitivity.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..3fd0d15 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -27,6 +27,16 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
 
+def _trainable(vf):
+    return tuple(p for p in vf.parameters() if p.requires_grad)
+
+
+def _flatten_grads(vf, grads):
+    "Flattens gradients w.r.t the trainable parameters of `vf`, with zeros in place of the unused and frozen ones"
+    grads = {id(p): g for p, g in zip(_trainable(vf), grads) if g is not None}
+    return torch.cat([grads.get(id(p), torch.zeros_like(p)).flatten() for p in vf.parameters()], dim=-1)
+
+
 # TODO: optimize and make conditional gradient computations w.r.t end times
 # TODO: link `seminorm` arg from `ODEProblem`
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
@@ -61,15 +71,14 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
+                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + _trainable(vf), -λ,
                                     allow_unused=True, retain_graph=False))
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = _flatten_grads(vf, dμ)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -135,15 +144,14 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
+                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + _trainable(vf), -λ,
                                         allow_unused=True, retain_graph=False))
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = _flatten_grads(vf, dμ)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From e33ca31a50d12c40b36b080e33bf11a31f1d5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 10/51] fix: interpolated adjoints of losses at intermediate
 times

The solution has a row for each evaluation, but its gradient was read as if it
had a row for each element of t_span. Also use the adjoint solver and tolerances
and handle reversed time domains.
---
 torchdyn/numerics/sensitivity.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 3fd0d15..8309602 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -132,8 +132,10 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
-            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
+            # splines are defined on increasing times
+            idx = t_sol.argsort()
+            spline_coeffs = natural_cubic_coeffs(x=sol[idx].permute(1, 0, 2).detach(), t=t_sol[idx])
+            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol[idx])
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
@@ -156,8 +158,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
-            for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+            for i in range(len(t_sol) - 1, 0, -1):
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From bbc4c58bd5a01cc38a3d29c783df02d71469d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 11/51] fix: rk4 stage times

As in the other tableaus, the nodes are those of the second stage on. With a
leading zero the stages were evaluated at t, t + dt/2 and t + dt/2, which is not
fourth (nor second) order for time-varying vector fields.
---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..84dee80 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From 6e28a94bb93c2b12892ab0ffd1ed295a117c787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 12/51] fix: implicit Euler evaluates the vector field at the
 end of the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 70199b2..1bd4634 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From fca0a5cac7ad5cc77ad542cd30829c62f269b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 13/51] fix: integral losses of higher-order models called a
 missing method

---
 torchdyn/core/defunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..457b7bb 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -71,7 +71,7 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
                 x_dyn = self.vf(t, x_dyn)
             return cat([dlds, x_dyn], 1).to(x_dyn)
-- 
2.43.0


From 77c8ca8734ea9f82d052b87888676a869a670d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 14/51] fix: Milstein solvers check the type of the SDE like
 the others do

---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From 9262f950095bb362fc6d7b7320963ade9ab863e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 15/51] fix: concentric spheres with an odd number of samples

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..73ff059 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,10 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    for i in range(n_samples - n_samples // 2):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)
     return X, y
 
 
-- 
2.43.0


From 0326dd826d00591e7e2d47a35cbcb1fe2b985a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 16/51] fix: gaussians datasets in more than two dimensions

The second coordinate was not scaled by the radius, and more than one extra
dimension raised.
---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 73ff059..6dd6673 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -137,7 +137,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -179,7 +179,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From 615270d99d9623e3a91bacd2869b29728653fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 17/51] fix: Galerkin layers without bias raised on their first
 call

---
 torchdyn/nn/galerkin.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..f50ec17 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -213,7 +213,7 @@ class GalLinear(GalLayer):
             self.bias = torch.Tensor(out_features)
         else:
             self.register_parameter('bias', None)         
-        self.coeffs = torch.nn.Parameter(torch.Tensor((in_features+1)*out_features, self.deg, self.n_eig))        
+        self.coeffs = torch.nn.Parameter(torch.Tensor((in_features+bool(bias))*out_features, self.deg, self.n_eig))        
         self.reset_parameters()  
                 
     def forward(self, input):
@@ -222,7 +222,8 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        n = self.in_features*self.out_features
+        if len(w) > n: self.bias = w[n:].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -260,7 +261,7 @@ class GalConv2d(GalLayer):
             self.bias = torch.Tensor(out_channels)
         else:
             self.register_parameter('bias', None)
-        self.coeffs = torch.nn.Parameter(torch.Tensor(((out_channels)*in_channels*(kernel_size**2)+out_channels), self.deg, 2))
+        self.coeffs = torch.nn.Parameter(torch.Tensor(((out_channels)*in_channels*(kernel_size**2)+bool(bias)*out_channels), self.deg, self.n_eig))
         self.reset_parameters()
         
     def forward(self, input):
@@ -269,5 +270,5 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if len(w) > n: self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From 8d231924d98bb959280c05f803d2e8028409b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 18/51] fix: vector fields called with (t, x)

The documented signature `vector_field(t, x)` raised in Neural ODEs, and as a
plain callable in ODE problems, unless it also accepted `args`.
---
 torchdyn/core/defunc.py |  9 ++++++---
 torchdyn/core/utils.py  | 10 +++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 457b7bb..36bb01a 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -17,20 +17,23 @@ import torch.nn as nn
 
 
 class DEFuncBase(nn.Module):
-    def __init__(self, vector_field: Callable, has_time_arg: bool = True):
+    def __init__(self, vector_field: Callable, has_time_arg: bool = True, has_args: bool = True):
         """Basic wrapper to ensure call signature compatibility between generic torch Modules and vector fields.
         Args:
             vector_field (Callable): callable defining the dynamics / vector field / `dxdt` / forcing function
             has_time_arg (bool, optional): Internal arg. to indicate whether the callable has `t` in its `__call__'
                 or `forward` method. Defaults to True.
+            has_args (bool, optional): Internal arg. to indicate whether the callable takes an `args` dictionary. Defaults to True.
         """
         super().__init__()
-        self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
+        self.nfe, self.vf, self.has_time_arg, self.has_args = 0.0, vector_field, has_time_arg, has_args
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
-        if self.has_time_arg:
+        if self.has_time_arg and self.has_args:
             return self.vf(t, x, args=args)
+        elif self.has_time_arg:
+            return self.vf(t, x)
         else:
             return self.vf(x)
 
diff --git a/torchdyn/core/utils.py b/torchdyn/core/utils.py
index 460f3f3..b85e3af 100644
--- a/torchdyn/core/utils.py
+++ b/torchdyn/core/utils.py
@@ -16,6 +16,11 @@ import torch
 from torchdyn.core.defunc import DEFuncBase, DEFunc
 import torch.nn as nn
 
+def _has_args(func):
+    spec = getfullargspec(func)
+    return 'args' in spec.args + spec.kwonlyargs or spec.varkw is not None
+
+
 def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
     "Ensures Callables or nn.Modules passed to `ODEProblems` and `NeuralODE` have consistent `__call__` signature (t, x)"
     
@@ -24,13 +29,16 @@ def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
             print("Your vector field callable (nn.Module) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)
+        # `DEFunc` calls the vector field with `args`
+        elif defunc_wrap and not _has_args(vector_field.forward):
+            vector_field = DEFuncBase(vector_field, has_time_arg=True, has_args=False)
     else: 
         # argspec for lambda functions needs to be done on the function itself
         if 't' not in getfullargspec(vector_field).args:
             print("Your vector field callable (lambda) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)   
-        else: vector_field = DEFuncBase(vector_field, has_time_arg=True) 
+        else: vector_field = DEFuncBase(vector_field, has_time_arg=True, has_args=_has_args(vector_field)) 
     if defunc_wrap: return DEFunc(vector_field, order)
     else: return vector_field
 
-- 
2.43.0


From f6a3fa70eb9afd7a6d7df1b23fb8bfb8b25c73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 19/51] fix: problems and Neural ODEs can be deep copied

They kept a non-leaf tensor of their parameters, which torch refuses to copy.
---
 torchdyn/core/problems.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index f5610f2..0f9828c 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -83,7 +83,7 @@ class ODEProblem(nn.Module):
         if len(tuple(self.vf.parameters())) > 0:
             self.vf_params = torch.cat(
                 [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
+            ).detach()
 
         elif len(optimizable_params) > 0:
             # use `optimizable_parameters` if f itself does not have a .parameters() iterable
@@ -92,7 +92,7 @@ class ODEProblem(nn.Module):
                 self.vf.register_parameter(f"optimizable_parameter_{k}", p)
             self.vf_params = torch.cat(
                 [p.contiguous().flatten() for p in optimizable_params]
-            )
+            ).detach()
 
         else:
             print("Your vector field does not have `nn.Parameters` to optimize.")
@@ -100,13 +100,14 @@ class ODEProblem(nn.Module):
             self.vf.register_parameter("dummy_parameter", dummy_parameter)
             self.vf_params = torch.cat(
                 [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
+            ).detach()
+
+    def _flat_params(self):
+        "current parameters of the vector field, as input of the autograd functions"
+        return torch.cat([p.contiguous().flatten() for p in self.vf.parameters()])
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
@@ -153,7 +154,7 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            t_eval, sol = self._autograd_func()(self.vf_params, x, t_span)
+            t_eval, sol = self._autograd_func()(self._flat_params(), x, t_span)
             # the adjoint needs the full solution, saving times are a selection of its rows
             if len(save_at) > 0 and self.solver.stepping_class == "fixed":
                 t_eval, save_idx = match_save_at(save_at, t_eval)
@@ -208,9 +209,6 @@ class MultipleShootingProblem(ODEProblem):
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
@@ -259,7 +257,7 @@ class MultipleShootingProblem(ODEProblem):
                 self.maxiter,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, B0)
+            return self._autograd_func()(self._flat_params(), x, t_span, B0)
 
     def forward(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
         "For safety redirects to intended method `odeint`"
-- 
2.43.0


From 09050621c905e5a9822dc4c7832d3cf15eb89107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 20/51] fix: root_find ran one iteration more than maxiters

---
 torchdyn/numerics/solvers/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..33e6a61 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -272,7 +272,7 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     J_inv = batch_jacobian(g, z).pinverse()
 
     iteration = 0
-    while iteration <= maxiters:
+    while iteration < maxiters:
         iteration += 1
 
         # solver step
-- 
2.43.0


From 16e11dc0e584486f69521de965f8ad8a0aa28cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 21/51] fix: double precision solves used single precision
 solver coefficients

Solvers instantiated from their name by problems, Neural ODEs and multiple
shooting methods had float32 coefficients, and a solver used once in single
precision lost its coefficients' precision for good. Also accept instances where
names were assumed (adjoint solver, coarse and fine methods).
---
 torchdyn/core/problems.py              |  8 ++++----
 torchdyn/numerics/solvers/ode.py       |  6 ++----
 torchdyn/numerics/solvers/templates.py | 20 +++++++++++++++-----
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 0f9828c..93dcfe9 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -53,13 +53,13 @@ class ODEProblem(nn.Module):
             Integral losses can be passed as generic function or `nn.Modules`.
         """
         super().__init__()
-        # instantiate solver at initialization
+        # instantiate solver at initialization. Coefficients are cast to the dtype of the state when solving
         if type(solver) == str:
-            solver = str_to_solver(solver)
+            solver = str_to_solver(solver, torch.float64)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
-            solver_adjoint = str_to_solver(solver_adjoint)
+        elif type(solver_adjoint) == str:
+            solver_adjoint = str_to_solver(solver_adjoint, torch.float64)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
             solver,
diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 1bd4634..0e718ed 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -20,7 +20,7 @@
 from typing import Tuple
 import torch
 import torch.nn as nn
-from torchdyn.numerics.solvers.templates import DiffEqSolver, MultipleShootingDiffeqSolver
+from torchdyn.numerics.solvers.templates import DiffEqSolver, MultipleShootingDiffeqSolver, cast_tableau
 from torchdyn.numerics.solvers._constants import construct_rk4, construct_dopri5, construct_tsit5
 
 
@@ -45,9 +45,7 @@ class SolverTemplate(nn.Module):
 
         device = proto_arr.device
 
-        if self.tableau is not None:
-            c, a, bsol, berr = self.tableau
-            self.tableau = c.to(proto_arr), [a.to(proto_arr) for a in a], bsol.to(proto_arr), berr.to(proto_arr)
+        if self.tableau is not None: cast_tableau(self, proto_arr)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..d3f266f 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -9,6 +9,16 @@ import torch.nn as nn
 # from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 
 
+def cast_tableau(solver, ref):
+    "Casts the tableau of `solver` to dtype and device of `ref`, starting from the most precise version available"
+    if solver.tableau is not getattr(solver, "_cast_tableau", None):
+        solver._full_tableau = solver.tableau # as constructed or assigned by the user
+    if solver.tableau[0].dtype != ref.dtype or solver.tableau[0].device != ref.device:
+        c, a, bsol, berr = solver._full_tableau
+        solver.tableau = c.to(ref), [a.to(ref) for a in a], bsol.to(ref), berr.to(ref)
+    solver._cast_tableau = solver.tableau
+
+
 class DiffEqSolver(nn.Module):
     def __init__(
             self, 
@@ -30,9 +40,7 @@ class DiffEqSolver(nn.Module):
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
         device = x.device
-        if self.tableau is not None:
-            c, a, bsol, berr = self.tableau
-            self.tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
+        if self.tableau is not None: cast_tableau(self, x)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
@@ -69,8 +77,10 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        # coefficients are cast to the dtype of the state when solving
+        if type(coarse_method) == str: coarse_method = str_to_solver(coarse_method, torch.float64)
+        if type(fine_method) == str: fine_method = str_to_solver(fine_method, torch.float64)
+        self.coarse_method, self.fine_method = coarse_method, fine_method
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From 8894fe2d4374bb3dd389718ddfd6e49901c0d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 22/51] fix: hybrid solves skipped requested times

A requested time was considered done when a step was first truncated to it, even
if that step was then rejected or interrupted by an event. Land on it exactly,
as `_adaptive_odeint` does.
---
 torchdyn/numerics/odeint.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index d4637e0..b47cd66 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -230,19 +230,20 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
+		t_land = None
 		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+			dt, t_land = t_span[-1] - t, t_span[-1:]
 		if t_eval is not None:
 			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				dt, t_land = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter + 1]
+		t_new = t + dt if t_land is None else t_land
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
@@ -305,14 +306,15 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			accept_step = error_ratio <= 1
 
 			if accept_step:
-				t = t + dt
+				t = t_new
 				x = x_new
+				while ckpt_counter < len(t_eval) and t >= t_eval[ckpt_counter]: ckpt_counter += 1
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
 
 			if ckpt_flag:
-				dt = dt_old - dt
+				if accept_step: dt = torch.where(t + (dt_old - dt) > t, dt_old - dt, dt_old)
 				ckpt_flag = False
 			################ stepsize control ###########################
 			dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From fda425625ec46595490848e89536c0eafc4bf884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 23/51] fix: bisection of events in hybrid solves

The bracket was reset to the whole step whenever its lower half was free of
events, and the callback to fire was looked up in the states of the last probe,
which raised, or picked another callback, if that probe was before the event.
---
 torchdyn/numerics/odeint.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index b47cd66..19721db 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -251,7 +251,8 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		# if event, close in on switching state in [t, t + Δt] via bisection
 		if triggered_events > 0:
 
-			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
+			dt_pre, t_inner, dt_inner, x_inner, niters = dt_old if ckpt_flag else dt, t, dt, x, 0
+			hit_states, ckpt_flag = new_event_states, False
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
 
 			while niters < max_iters and event_tol < dt_inner:
@@ -265,17 +266,17 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
-				if triggered_events == 0: # if no event, advance start point of bisection search
+				if triggered_events > 0: hit_states = new_event_states
+				else: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
 			x = x_inner
 			t = t_inner
-			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
+			i = min([i for i, (a_, b_) in enumerate(zip(hit_states.evid, event_states.evid)) if (a_ != b_) & (b_ == False)])
 
 			# save state and time BEFORE jump
 			sol.append(x.reshape(x_shape))
-- 
2.43.0


From 07f5bcb336908cf88e4a3414c4238f97d6d819e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 24/51] fix: count jumps in hybrid solves

`j_span` was only compared with the initial jump.
---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 19721db..de57176 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -284,6 +284,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
-- 
2.43.0


From d3f211202688b3e698eb1cd4c4cf8e37f001fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 25/51] fix: ignore events of rejected steps in hybrid solves

---
 torchdyn/numerics/odeint.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index de57176..ff24699 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -248,8 +248,20 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
 
+		############### compute error #############################
+		if seminorm[0] == True:
+			state_dim = seminorm[1]
+			error = x_err[:state_dim]
+			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
+		else:
+			error = x_err
+			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
+
+		error_ratio = hairer_norm(error_scaled)
+		accept_step = error_ratio <= 1
+
 		# if event, close in on switching state in [t, t + Δt] via bisection
-		if triggered_events > 0:
+		if accept_step and triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt_old if ckpt_flag else dt, t, dt, x, 0
 			hit_states, ckpt_flag = new_event_states, False
@@ -295,18 +307,6 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			dt = dt_pre
 
 		else:
-			################# compute error #############################
-			if seminorm[0] == True:
-				state_dim = seminorm[1]
-				error = x_err[:state_dim]
-				error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
-			else:
-				error = x_err
-				error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
-
-			error_ratio = hairer_norm(error_scaled)
-			accept_step = error_ratio <= 1
-
 			if accept_step:
 				t = t_new
 				x = x_new
-- 
2.43.0


From 049ad60e3b5d513407d4b3d818c63141ef2817c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 26/51] fix: events of hybrid solves fire on changes from False
 to True only

The states of the callbacks were never updated, so that a condition still true
after its jump fired again at each step.
---
 torchdyn/numerics/odeint.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index ff24699..8c75331 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -209,6 +209,12 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	###### initial jumps ###########
 	event_states = EventState([False for _ in range(len(callbacks))])
 
+	def update_event_states(event_states, i, t, x):
+		# after a jump: a condition that still holds must first be left before firing again, while
+		# one that the jump of another callback has made true is yet to fire
+		return EventState([bool(cb.check_event(t, x)) and (bool(b_) or k == i)
+						   for k, (cb, b_) in enumerate(zip(callbacks, event_states.evid))])
+
 	if priority == 'jump':
 		new_event_states = EventState([cb.check_event(t, x) for cb in callbacks])
 		triggered_events = event_states != new_event_states
@@ -219,6 +225,9 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			i = min([i for i, idx in enumerate(new_event_states.evid) if idx == True])
 			x = callbacks[i].jump_map(t, x)
 			jnum = jnum + 1
+			event_states = update_event_states(event_states, i, t, x)
+	else:
+		event_states = EventState([cb.check_event(t, x) for cb in callbacks])
 
 	################## initial step size setting ################
 	k1 = f(t, x)
@@ -297,6 +306,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
 			jnum = jnum + 1
+			event_states = update_event_states(event_states, i, t, x)
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
@@ -310,6 +320,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			if accept_step:
 				t = t_new
 				x = x_new
+				event_states = new_event_states
 				while ckpt_counter < len(t_eval) and t >= t_eval[ckpt_counter]: ckpt_counter += 1
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
-- 
2.43.0


From 9ff5b9425d4069cdf90eed24f3e8e5a343899216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:36 +0000
Subject: [PATCH 27/51] fix: rk4 steps of 0-dimensional states

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 0e718ed..52a61ef 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -95,7 +95,7 @@ class RungeKutta4(DiffEqSolver):
     def step(self, f, x, t, dt, k1=None, args=None):
         c, a, bsol, _ = self.tableau
         if k1 == None: k1 = f(t, x)
-        k2 = f(t + c[0] * dt, x + dt * (a[0] * k1))
+        k2 = f(t + c[0] * dt, x + dt * (a[0][0] * k1))
         k3 = f(t + c[1] * dt, x + dt * (a[1][0] * k1 + a[1][1] * k2))
         k4 = f(t + c[2] * dt, x + dt * (a[2][0] * k1 + a[2][1] * k2 + a[2][2] * k3))
         x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4)
-- 
2.43.0


From e420cf8cef810e5f09e760ff382b246491dfa4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:36 +0000
Subject: [PATCH 28/51] fix: interpolators with dictionary states of fixed-step
 methods

---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 8c75331..fc36349 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -67,6 +67,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	if isinstance(solver, Tsitouras45):
 		if verbose: warn("Running interpolation not yet implemented for `tsit5`")
 		interpolator = None
+	if stepping_class == 'fixed': interpolator = None # has no effect on fixed-step methods
 
 	if type(interpolator) == str:
 		interpolator = str_to_interp(interpolator, x.dtype)
-- 
2.43.0


From dc6ed5a9e9244cdb42c3f6a62719b03cf3888e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:55 +0000
Subject: [PATCH 29/51] fix: adaptive steps keep the precision of the time span

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index d3f97b4..b1e1988 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -56,11 +56,11 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
-    if error_ratio == 0: return dt * max_factor
+    if error_ratio == 0: return dt * max_factor.to(dt)
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
     factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))
-    return dt * factor
+    return dt * factor.to(dt)
 
 
 def match_save_at(save_at, t_span):
-- 
2.43.0


From 32d91ddacb4ee368245a7810f17d5275716e2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 30/51] fix: SDE problems when torchdyn.numerics is imported
 before torchdyn.core

---
 torchdyn/core/neuralde.py | 4 +++-
 torchdyn/core/problems.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..982f5bb 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -13,7 +13,7 @@
 from typing import Callable, Union, Iterable, Generator, Dict
 
 from torchdyn.core.problems import MultipleShootingProblem, ODEProblem, SDEProblem
-from torchdyn.numerics import odeint, sdeint
+from torchdyn.numerics.odeint import odeint
 from torchdyn.core.defunc import SDEFunc
 from torchdyn.core.utils import standardize_vf_call_signature
 
@@ -252,6 +252,8 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
+        from torchdyn.numerics.sdeint import sdeint
+
         x = self._prep_sdeint(x)
         sol = sdeint(
             self.defunc,
diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 93dcfe9..02cdaaa 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -12,7 +12,6 @@ from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.numerics.utils import match_save_at
 from torchdyn.core.utils import standardize_vf_call_signature
 from torchdyn.core.defunc import SDEFunc
-from torchdyn.numerics import sdeint
 from torchsde._brownian import BrownianInterval
 
 
@@ -296,6 +295,9 @@ class SDEProblem(nn.Module):
         args={},
     ):
         "Returns Tuple(`t_eval`, `solution`)"
+        # `torchdyn.numerics` may still be importing when this module is imported
+        from torchdyn.numerics.sdeint import sdeint
+
         if self.sensitivity == "autograd":
             return sdeint(
                 self.defunc,
-- 
2.43.0


From e04100b54b87c7d2b850218dd25557fad94d558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:59 +0000
Subject: [PATCH 31/51] fix: arguments of higher-order vector fields and of
 those with integral losses

---
 torchdyn/core/defunc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 36bb01a..9fe7d2f 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -76,13 +76,13 @@ class DEFunc(nn.Module):
             if self.order > 1:
                 x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
-                x_dyn = self.vf(t, x_dyn)
+                x_dyn = self.vf(t, x_dyn, args=args)
             return cat([dlds, x_dyn], 1).to(x_dyn)
 
         # regular forward
         else:
             if self.order > 1:
-                x = self.higher_order_forward(t, x)
+                x = self.higher_order_forward(t, x, args)
             else:
                 x = self.vf(t, x, args=args)
             return x
@@ -92,7 +92,7 @@ class DEFunc(nn.Module):
         size_order = x.size(1) // self.order
         for i in range(1, self.order):
             x_new.append(x[:, size_order * i : size_order * (i + 1)])
-        x_new.append(self.vf(t, x))
+        x_new.append(self.vf(t, x, args=args))
         return cat(x_new, dim=1).to(x)
 
 
-- 
2.43.0


From 64dc62ca59d950f7851d34b949379d8c57ffaa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 32/51] fix: adjoints of vector fields and integral losses that
 do not depend on the state

---
 torchdyn/numerics/sensitivity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 8309602..9ee450c 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -74,6 +74,9 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + _trainable(vf), -λ,
                                     allow_unused=True, retain_graph=False))
 
+                    # vector fields may not depend on the state
+                    if dλ is None: dλ = torch.zeros_like(x)
+
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
@@ -149,6 +152,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + _trainable(vf), -λ,
                                         allow_unused=True, retain_graph=False))
 
+                    # vector fields may not depend on the state
+                    if dλ is None: dλ = torch.zeros_like(x)
+
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
-- 
2.43.0


From 4027ff7428d657e0fd63dcfed760fb3fbc0f95ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 33/51] fix: events of hybrid solves are located where their
 condition holds

A jump that does not move the state away from the crossing fired again and again
until the maximum number of jumps.
---
 torchdyn/numerics/odeint.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index fc36349..958c63b 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -274,7 +274,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		if accept_step and triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt_old if ckpt_flag else dt, t, dt, x, 0
-			hit_states, ckpt_flag = new_event_states, False
+			hit_states, t_hit, x_hit, ckpt_flag = new_event_states, t_new, x_new, False
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
 
 			while niters < max_iters and event_tol < dt_inner:
@@ -288,7 +288,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
-				if triggered_events > 0: hit_states = new_event_states
+				if triggered_events > 0: hit_states, t_hit, x_hit = new_event_states, t_inner + dt_inner, x_
 				else: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
@@ -296,8 +296,11 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
-			x = x_inner
-			t = t_inner
+			# the event takes place where its condition holds: located before, a jump that does
+			# not move the state away from its crossing would fire again and again
+			x = x_hit
+			t = t_hit
+			while ckpt_counter < len(t_eval) and t >= t_eval[ckpt_counter]: ckpt_counter += 1
 			i = min([i for i, (a_, b_) in enumerate(zip(hit_states.evid, event_states.evid)) if (a_ != b_) & (b_ == False)])
 
 			# save state and time BEFORE jump
-- 
2.43.0


From 78779211f14fc6baf12a652d3b4a0dc78b2528fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 34/51] fix: multiple shooting in double precision used single
 precision fine grids

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 52a61ef..69e55a2 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -230,7 +230,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype, device=x.device)
         i = 0
         # the first `i + 1` shooting parameters are exact after `i` iterations
         while i <= maxiter and i < n_subinterv - 1:
@@ -260,7 +260,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype, device=x.device)
         i = 0
         if not B.requires_grad: B = B.clone().requires_grad_(True)
         # the first `i + 1` shooting parameters are exact after `i` iterations
-- 
2.43.0


From 53150a312ad09a05546f0c0835b5f67360578a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:40 +0000
Subject: [PATCH 35/51] fix: MSBackward where gradients are disabled
 (inference, adjoint sensitivity)

---
 torchdyn/numerics/solvers/ode.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 69e55a2..d16a96e 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -262,15 +262,17 @@ class MSBackward(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype, device=x.device)
         i = 0
-        if not B.requires_grad: B = B.clone().requires_grad_(True)
         # the first `i + 1` shooting parameters are exact after `i` iterations
         while i <= maxiter and i < n_subinterv - 1:
             i += 1
-            B_prev = B[i-1:]
-            B_fine = odeint_func(f, B_prev, sub_t_span, solver=self.fine_method)[1][-1]
-            # jvps are obtained by differentiating the vjp w.r.t its (dummy) cotangent
-            v = torch.zeros_like(B_fine).requires_grad_(True)
-            vjp = torch.autograd.grad(B_fine, B_prev, v, create_graph=True)[0]
+            # the jacobians are needed also where gradients are disabled (inference, adjoint sensitivity)
+            with torch.enable_grad():
+                B_prev = B[i-1:]
+                if not B_prev.requires_grad: B_prev = B_prev.clone().requires_grad_(True)
+                B_fine = odeint_func(f, B_prev, sub_t_span, solver=self.fine_method)[1][-1]
+                # jvps are obtained by differentiating the vjp w.r.t its (dummy) cotangent
+                v = torch.zeros_like(B_fine).requires_grad_(True)
+                vjp = torch.autograd.grad(B_fine, B_prev, v, create_graph=True)[0]
             B_out = torch.zeros_like(B)
             B_out[:i] = B[:i]
             B_in = B[i-1]
-- 
2.43.0


From 7c790ec14b93529b9a74546637f8265ad5934edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 36/51] fix: Galerkin layers in double precision

---
 torchdyn/nn/galerkin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index f50ec17..c4907fc 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -158,7 +158,7 @@ class Chebychev(nn.Module):
             basis += [s.item()]
             for i in range(2, max_order):
                 basis += [basis[-1] * s2 - basis[-2]]
-        return [torch.tensor(basis).to(n_range)]
+        return [torch.tensor(basis, dtype=n_range.dtype, device=n_range.device)]
 
 
 class GalLayer(nn.Module):
@@ -176,11 +176,11 @@ class GalLayer(nn.Module):
         
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
-        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs.device)
-        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs.device) + self.shift.to(self.coeffs.device))
+        n_range = torch.linspace(0, self.deg, self.deg, dtype=self.coeffs.dtype, device=self.coeffs.device)
+        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs) + self.shift.to(self.coeffs))
         B = []  
         for i in range(self.n_eig):
-            Bin = torch.eye(self.deg).to(self.coeffs.device)
+            Bin = torch.eye(self.deg).to(self.coeffs)
             Bin[range(self.deg), range(self.deg)] = basis[i]
             B.append(Bin)
         B = torch.cat(B, 1).to(self.coeffs.device)
-- 
2.43.0


From dd1bce75e95834f0b64696c0b9ae85facb04def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 37/51] fix: adjoint backward passes use the control inputs and
 noise of their own call

---
 torchdyn/core/neuralde.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 982f5bb..3b3a66e 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -129,12 +129,26 @@ class NeuralODE(ODEProblem, pl.LightningModule):
         args={},
     ):
         x, t_span = self._prep_integration(x, t_span)
+        # adjoint methods evaluate the vector field again in the backward pass, where it needs the inputs of this call
+        call_inputs = [
+            (module, name, getattr(module, name))
+            for module in self.vf.modules()
+            for name in ("_control", "noise")
+            if (hasattr(module, "_control") or hasattr(module, "trace_estimator")) and hasattr(module, name)
+        ]
         t_eval, sol = super().forward(x, t_span, save_at, args)
+        if len(call_inputs) > 0 and self.sensitivity != "autograd" and sol.requires_grad:
+            sol.register_hook(lambda _: self._restore_inputs(call_inputs))
         if self.return_t_eval:
             return t_eval, sol
         else:
             return sol
 
+    @staticmethod
+    def _restore_inputs(call_inputs):
+        for module, name, value in call_inputs:
+            setattr(module, name, value)
+
     def trajectory(self, x: torch.Tensor, t_span: Tensor):
         x, t_span = self._prep_integration(x, t_span)
         _, sol = odeint(
-- 
2.43.0


From fbc51f274166d54e7022d03a03c8ff0da401c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:05 +0000
Subject: [PATCH 38/51] fix: line searches of root_find look along the step,
 tolerances are relative to the initial residual

---
 torchdyn/numerics/solvers/root.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index 33e6a61..cc4f988 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -267,6 +267,7 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
 
     # first evaluation of g(z)
     geval = g(z)
+    tc.f0_norm = norm(geval, p=2, dim=1)
 
     # initialize inverse jacobian J^-1g(z)
     J_inv = batch_jacobian(g, z).pinverse()
@@ -275,14 +276,14 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     while iteration < maxiters:
         iteration += 1
 
-        # solver step
-        z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
-
-        # line search subroutines
+        # line search subroutines, along the direction of the step to be taken
         if SEARCH_METHODS[search_method] is not None:
-            line_searcher = SEARCH_METHODS[search_method](g, geval, dz, z)
+            line_searcher = SEARCH_METHODS[search_method](g, geval, -einsum('...o,...io->...i', geval, J_inv), z)
             alpha, phi = line_searcher.search()
 
+        # solver step
+        z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
+
         # logging
         if verbose and logger:
             logger.log({'geval': geval,
-- 
2.43.0


From f5edb8152d621432dffbafd45dc2f593d99769ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 39/51] fix: reversed-time solves of the asynchronous leapfrog
 flip its velocities

---
 torchdyn/numerics/odeint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 958c63b..6fe7d6d 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -129,6 +129,10 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 	if isinstance(solver, AsynchronousLeapfrog) and f.order == 2:
 		raise RuntimeError('ALF solver should be given a vector field specified as a first-order symplectic system: v = f(t, x)')
 	solver.x_shape = x.shape[-1] // 2
+	# velocities of the asynchronous leapfrog change sign along with the direction of time
+	flip = torch.ones_like(x)
+	if reverse and isinstance(solver, AsynchronousLeapfrog): flip[..., solver.x_shape:] = -1
+	x = x * flip
 
 	# access parallel integration routines with different t_spans for each sample in `x`.
 	if len(t_span.shape) > 1:
@@ -149,7 +153,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 				k1 = f_(t, x)
 				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
-		return (-t_eval if reverse else t_eval), sol
+		return (-t_eval if reverse else t_eval), sol * flip
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From fc2b4352ab97769c3abfbc5432130c4b20b620d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 40/51] fix: interpolated adjoint accepts states with any
 number of dimensions

---
 torchdyn/numerics/sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 9ee450c..79df177 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -137,7 +137,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # splines are defined on increasing times
             idx = t_sol.argsort()
-            spline_coeffs = natural_cubic_coeffs(x=sol[idx].permute(1, 0, 2).detach(), t=t_sol[idx])
+            spline_coeffs = natural_cubic_coeffs(x=sol[idx].movedim(0, -2).detach(), t=t_sol[idx])
             x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol[idx])
 
             # define adjoint dynamics
-- 
2.43.0


From 797954affc52ccb3d9b070d3e23654f31bfafe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:07 +0000
Subject: [PATCH 41/51] fix: dense output passed times and trajectories to the
 splines in the wrong order

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index b1e1988..9d9ba8a 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -77,8 +77,8 @@ def match_save_at(save_at, t_span):
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
-    spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-    sol_spline = CubicSpline(t_sol, spline_coeff)
+    spline_coeff = hermite_cubic_coefficients_with_backward_differences(sol.permute(1, 0, 2), t_sol)
+    sol_spline = CubicSpline(spline_coeff, t_sol)
     sol_eval = torch.stack([sol_spline.evaluate(t) for t in t_eval])
     if return_spline:
         return sol_eval, sol_spline
-- 
2.43.0


From 6fa57a3dbb9fc33a9f9652c36397cf950f9e325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:42 +0000
Subject: [PATCH 42/51] fix: jagged fixed-step solves took the error estimate
 as the state and skipped every second step

---
 torchdyn/numerics/odeint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6fe7d6d..ced6446 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -505,9 +505,9 @@ def _jagged_fixed_odeint(f, x,
 	dt = torch.stack([t_[1] - t0 for t_, t0 in zip(t_span, t)])
 	sol = [[x_] for x_ in x]
 	not_converged = ~((t - T).abs() <= 1e-6).bool()
-	steps = 0
+	steps = 1
 	while not_converged.any():
-		_, _, x = solver.step(f, x, t, dt[..., None, None])  # dt will be to x dims
+		_, x, _ = solver.step(f, x, t, dt[..., None, None])  # dt will be to x dims
 
 		for n, sol_ in enumerate(sol):
 			sol_.append(x[n])
-- 
2.43.0


From 1e5cfc903cdaf9b0ff2def1496c33be1c3615673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:49 +0000
Subject: [PATCH 43/51] fix: jagged fixed-step solves end by number of steps,
 not by a time tolerance

---
 torchdyn/numerics/odeint.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index ced6446..1f8a021 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -499,20 +499,18 @@ def _jagged_fixed_odeint(f, x,
 	Returns:
 		A list of `len(t_span)' containing solutions of each IVP computed in parallel.
 	"""
-	t, T = [t_sub[0] for t_sub in t_span], [t_sub[-1] for t_sub in t_span]
-	t, T = torch.stack(t), torch.stack(T)
+	t = torch.stack([t_sub[0] for t_sub in t_span])
+	max_steps = max(len(t_) for t_ in t_span) - 1
 
 	dt = torch.stack([t_[1] - t0 for t_, t0 in zip(t_span, t)])
 	sol = [[x_] for x_ in x]
-	not_converged = ~((t - T).abs() <= 1e-6).bool()
 	steps = 1
-	while not_converged.any():
+	while steps <= max_steps:
 		_, x, _ = solver.step(f, x, t, dt[..., None, None])  # dt will be to x dims
 
 		for n, sol_ in enumerate(sol):
 			sol_.append(x[n])
 		t = t + dt
-		not_converged = ~((t - T).abs() <= 1e-6).bool()
 
 		steps += 1
 		dt = []
-- 
2.43.0


From 1d569821a17bfa1771421fb386d78983f89c8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 44/51] fix: multiple-shooting problems solve their adjoint
 sequentially by default (backward crashed with solver_adjoint=None)

---
 torchdyn/core/problems.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 02cdaaa..e5dc920 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -185,12 +185,15 @@ class MultipleShootingProblem(ODEProblem):
                                     In the second case, the Callable is automatically wrapped for consistency
             solver (str): parallel-in-time solver.
             sensitivity (str, optional): . Defaults to 'autograd'.
-            solver_adjoint (Union[str, nn.Module, None], optional): . Defaults to None.
+            solver_adjoint (Union[str, nn.Module, None], optional): sequential solver of the adjoint system. If None, 'dopri5'.
             atol_adjoint (float, optional): . Defaults to 1e-6.
             rtol_adjoint (float, optional): . Defaults to 1e-6.
             seminorm (bool, optional): . Defaults to False.
             integral_loss (Union[Callable, None], optional): . Defaults to None.
         """
+        # the adjoint system is solved sequentially: parallel-in-time solvers cannot be its default
+        if solver_adjoint is None:
+            solver_adjoint = "dopri5"
         super().__init__(
             vector_field=vector_field,
             solver=None,
-- 
2.43.0


From 4ac8a09a6e56a41e5258d0c6c229a8748a05346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 45/51] fix: NeuralSDE.trajectory solves the SDE (it always
 raised TypeError)

---
 torchdyn/core/neuralde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 3b3a66e..1a5cf30 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -268,15 +268,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
         from torchdyn.numerics.sdeint import sdeint
 
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
             solver=self.solver,
+            bm=self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
-- 
2.43.0


From 04ce6486a817f011039a90c697d9d20d4af3d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 46/51] fix: ConservativeLinearSNF uses its energy and
 skew-symmetric interconnection (it always raised AttributeError)

---
 torchdyn/models/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/models/energy.py b/torchdyn/models/energy.py
index 0cedd20..a4b9155 100644
--- a/torchdyn/models/energy.py
+++ b/torchdyn/models/energy.py
@@ -37,13 +37,13 @@ class ConservativeLinearSNF(nn.Module):
         with torch.set_grad_enabled(True):
             self.n = x.shape[1] // 2
             x = x.requires_grad_(True)
-            dHdx = torch.autograd.grad(self.H(x).sum(), x, create_graph=True)[0]
-            dHdx = torch.einsum('ijk, ij -> ik', self._skew(x), dHdx)
+            dHdx = torch.autograd.grad(self.energy(x).sum(), x, create_graph=True)[0]
+            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)
         return dHdx
 
     def _generate_skew(self, x):
-        M = self.J(x).reshape(-1, *x.shape[1:])
-        return (M - M.transpose(0, 2, 1)) / 2
+        M = self.J(x).reshape(-1, x.shape[1], x.shape[1])
+        return (M - M.transpose(1, 2)) / 2
 
 class GNF(nn.Module):
     def __init__(self, energy:nn.Module):
-- 
2.43.0


From 325e80ba6aa93bf4b437607c6ba39da3251d8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:39 +0000
Subject: [PATCH 47/51] fix: radial bases use their scales and centres
 (adaptive ones always raised)

---
 torchdyn/nn/galerkin.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index c4907fc..822ec98 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,15 +31,15 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
-        r = torch.norm(s - self.centers, p=2)
+        r = torch.abs(s - self.centers)
         basis = [math.e ** (-(r * n_range_scaled) ** 2)]
         return basis
 
@@ -60,15 +60,15 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-        r = torch.norm(s - self.centers, p=2)
+        r = torch.abs(s - self.centers)
         basis = [r * n_range_scaled]
         return basis
 
@@ -89,15 +89,15 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-        r = torch.norm(s - self.centers, p=2)
+        r = torch.abs(s - self.centers)
         basis = [1 + torch.sqrt(1 + (r * n_range_scaled) ** 2)]
         return basis
 
-- 
2.43.0


From 2283925b0cbe80f58dfb35f687fad7000ee46ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:39 +0000
Subject: [PATCH 48/51] fix: gradients reach dilation and shift of Chebychev
 expansions

---
 torchdyn/nn/galerkin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 822ec98..b93227e 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -151,14 +151,15 @@ class Chebychev(nn.Module):
 
     def forward(self, n_range, s):
         max_order = n_range[-1].int().item()
-        basis = [1]
+        s = s.reshape(1).to(n_range)
+        basis = [torch.ones_like(s)]
         # Based on numpy's Cheb code
         if max_order > 0:
             s2 = 2 * s
-            basis += [s.item()]
+            basis += [s]
             for i in range(2, max_order):
                 basis += [basis[-1] * s2 - basis[-2]]
-        return [torch.tensor(basis, dtype=n_range.dtype, device=n_range.device)]
+        return [torch.cat(basis)]
 
 
 class GalLayer(nn.Module):
-- 
2.43.0


From e86fcd25c337eb23effe00144d7148127420db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 49/51] fix: adjoint methods ignored the argument dictionary of
 the call

---
 torchdyn/core/problems.py        |  4 +++-
 torchdyn/numerics/sensitivity.py | 27 +++++++++++++++------------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index e5dc920..3303f32 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -153,7 +153,9 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            t_eval, sol = self._autograd_func()(self._flat_params(), x, t_span)
+            t_eval, sol = self._autograd_func()(
+                self._flat_params(), x, t_span, None, (), args
+            )
             # the adjoint needs the full solution, saving times are a selection of its rows
             if len(save_at) > 0 and self.solver.stepping_class == "fixed":
                 t_eval, save_idx = match_save_at(save_at, t_eval)
diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 79df177..5a2e414 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -18,11 +18,11 @@ from torchdyn.numerics.odeint import odeint, odeint_mshooting
 
 
 def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B0=None, 
-                  return_all_eval=False, maxiter=4, fine_steps=4, save_at=()):
+                  return_all_eval=False, maxiter=4, fine_steps=4, save_at=(), args={}):
     "Dispatches to appropriate `odeint` function depending on `Problem` class (ODEProblem, MultipleShootingProblem)"
     if problem_type == 'standard':
         return odeint(vf, x, t_span, solver, atol=atol, rtol=rtol, interpolator=interpolator, return_all_eval=return_all_eval,
-                      save_at=save_at)
+                      save_at=save_at, args=args)
     elif problem_type == 'multiple_shooting':
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
@@ -44,9 +44,10 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
     "Prepares definition of autograd.Function for adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
-        def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
+        def forward(ctx, vf_params, x, t_span, B=None, save_at=(), args={}):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        False, maxiter, fine_steps, save_at)
+                                        False, maxiter, fine_steps, save_at, args)
+            ctx.args = args
             ctx.save_for_backward(sol, t_sol)
             return t_sol, sol
 
@@ -64,13 +65,13 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             # concatenate all states of adjoint system
             A = torch.cat([xT.flatten(), λT_flat, μT.flatten(), λtT[None]])
 
-            def adjoint_dynamics(t, A):
+            def adjoint_dynamics(t, A, *fargs, **fkwargs):
                 if len(t.shape) > 0: t = t[0]
                 x, λ, μ = A[:xT_nel], A[xT_nel:xT_nel+λT_nel], A[-μT_nel-1:-1]
                 x, λ, μ = x.reshape(xT.shape), λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
-                    dx = vf(t, x)
+                    dx = vf(t, x, *fargs, **fkwargs)
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + _trainable(vf), -λ,
                                     allow_unused=True, retain_graph=False))
 
@@ -93,6 +94,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             for i in range(len(t_sol) - 1, 0, -1):
                 t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
                                       solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
+                                      args=ctx.args,
                                       seminorm=(True, xT_nel+λT_nel))
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
@@ -118,9 +120,10 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
     "Prepares definition of autograd.Function for interpolated adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
-        def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
+        def forward(ctx, vf_params, x, t_span, B=None, save_at=(), args={}):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        True, maxiter, fine_steps, save_at)
+                                        True, maxiter, fine_steps, save_at, args)
+            ctx.args = args
             ctx.save_for_backward(sol, t_span, t_sol)
             return t_sol, sol
 
@@ -141,14 +144,14 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol[idx])
 
             # define adjoint dynamics
-            def adjoint_dynamics(t, A):
+            def adjoint_dynamics(t, A, *fargs, **fkwargs):
                 if len(t.shape) > 0: t = t[0]
                 x = x_spline.evaluate(t).requires_grad_(True)
                 t = t.requires_grad_(True)
                 λ, μ = A[:λT_nel], A[-μT_nel:]
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
-                    dx = vf(t, x)
+                    dx = vf(t, x, *fargs, **fkwargs)
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + _trainable(vf), -λ,
                                         allow_unused=True, retain_graph=False))
 
@@ -166,13 +169,13 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             n_elements = (λT_nel, μT_nel)
             for i in range(len(t_sol) - 1, 0, -1):
                 t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
-                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint, args=ctx.args)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
 
             λ, μ = A[:λT_nel], A[-μT_nel:]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            return (μ, λ, None, None, None)
+            return (μ, λ, None, None, None, None)
 
     return _ODEProblemFunc
\ No newline at end of file
-- 
2.43.0


From 36f16fe0673d8561b7df1642d2892753e38eddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:13 +0000
Subject: [PATCH 50/51] fix: adjoint gradients w.r.t. the times of a solve were
 those of another quantity, or of another shape

---
 torchdyn/numerics/sensitivity.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 5a2e414..684b994 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -98,8 +98,10 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                                       seminorm=(True, xT_nel+λT_nel))
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
-                xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
+                xt = sol[i - 1]
+                # the initial time shifts the whole solution, later ones only their own row
+                if i == 1: dLdt_ = -A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[0], xt).flatten()
+                else: dLdt_ = grad_output[-1][i - 1].flatten()@vf(t_sol[i - 1], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
                 dLdt[i-1] = dLdt_
 
@@ -108,7 +110,10 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
 
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
+            if integral_loss:
+                dLdt[0] -= integral_loss(t_sol[0], sol[0]).sum()
+                dLdt[-1] += integral_loss(t_sol[-1], xT).sum()
+            λ_tspan = dLdt + grad_output[0]
             return (μ, λ, λ_tspan, None, None, None)
 
     return _ODEProblemFunc
-- 
2.43.0


From 6763e44460e2eec241b15469e0b865033c6baa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:25 +0000
Subject: [PATCH 51/51] fix: adjoint methods failed on times given as a list

---
 torchdyn/numerics/sensitivity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 684b994..26a0995 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -113,7 +113,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             if integral_loss:
                 dLdt[0] -= integral_loss(t_sol[0], sol[0]).sum()
                 dLdt[-1] += integral_loss(t_sol[-1], xT).sum()
-            λ_tspan = dLdt + grad_output[0]
+            # times may also be given as a list
+            λ_tspan = dLdt + grad_output[0] if ctx.needs_input_grad[2] else None
             return (μ, λ, λ_tspan, None, None, None)
 
     return _ODEProblemFunc
@@ -129,12 +130,12 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         True, maxiter, fine_steps, save_at, args)
             ctx.args = args
-            ctx.save_for_backward(sol, t_span, t_sol)
+            ctx.save_for_backward(sol, t_sol)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
-            sol, t_span, t_sol = ctx.saved_tensors
+            sol, t_sol = ctx.saved_tensors
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
 
             # initialize adjoint state
-- 
2.43.0

