import sys, pathlib
ROOT = pathlib.Path(sys.argv[1]); only = set(sys.argv[2:])
E = []
def ed(id, path, old, new, cnt=1): E.append((id, path, old, new, cnt))
O='torchdyn/numerics/odeint.py'; S='torchdyn/numerics/sensitivity.py'; V='torchdyn/numerics/solvers/ode.py'
I='torchdyn/numerics/interpolators.py'; U='torchdyn/numerics/utils.py'; R='torchdyn/numerics/solvers/root.py'
SD='torchdyn/numerics/solvers/sde.py'; SI='torchdyn/numerics/sdeint.py'; Y='torchdyn/numerics/solvers/hyper.py'
# error ratio helper
blk='''		if seminorm[0] == True:
			state_dim = seminorm[1]
			error = x_err[:state_dim]
			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
		else:
			error = x_err
			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
'''
ed('a1',O,blk+"		error_ratio = hairer_norm(error_scaled)\n","		error_ratio = _error_ratio(x_err, x, x_new, atol, rtol, seminorm)\n")
ed('a1',O,blk+"\n		error_ratio = hairer_norm(error_scaled)\n","		error_ratio = _error_ratio(x_err, x, x_new, atol, rtol, seminorm)\n")
ed('a1',O,'''def _adaptive_odeint(f,''','''def _error_ratio(x_err, x, x_new, atol, rtol, seminorm):
	if seminorm[0]:
		n = seminorm[1]
		x_err, x, x_new = x_err[:n], x[:n], x_new[:n]
	largest = torch.maximum(x.abs(), x_new.abs())
	return hairer_norm(x_err / (largest * rtol + atol))


def _adaptive_odeint(f,''')
# fixed odeint as a for loop: t = t + dt kept
ed('a2',O,'''	steps = 1
	while steps <= len(t_span) - 1:
		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
		t = t + dt

		if steps in save_idx: sol[steps] = x
		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
		steps += 1
''','''	wanted = set(save_idx)
	for i in range(1, len(t_span)):
		_, x, _ = solver.step(f, x, t, t_span[i] - t, k1=None, args=args)
		t = t_span[i]
		if i in wanted: sol[i] = x
''')
ed('a3',SI,'''    steps = 1  # starting with 1
    while steps <= len(t_span) - 1:
        _, x, _ = solver.step(x, t, dt)
        t = t + dt
        if steps in save_idx:
            sol[steps] = x
        if steps < len(t_span) - 1:
            dt = t_span[steps + 1] - t
        steps += 1
''','''    for steps, t_next in enumerate(t_span[1:], start=1):
        _, x, _ = solver.step(x, t, t_next - t)
        t = t_next
        if steps in save_idx:
            sol[steps] = x
''')
# reversed: precompute function
ed('a4',O,'''		t_eval, sol = odeint(lambda t, x, *fargs, **fkwargs: -f(-t, x, *fargs, **fkwargs), x, -t_span, solver, atol, rtol,
							 t_stops, verbose, interpolator, return_all_eval, [-t for t in save_at], args, seminorm)
		return -t_eval, sol
''','''		def f_reversed(t, x, *fargs, **fkwargs):
			dx = f(-t, x, *fargs, **fkwargs)
			return -dx
		backward_span = torch.neg(t_span)
		t_eval, sol = odeint(f_reversed, x, backward_span, solver, atol=atol, rtol=rtol, t_stops=t_stops, verbose=verbose,
							 interpolator=interpolator, return_all_eval=return_all_eval, save_at=[-t for t in save_at],
							 args=args, seminorm=seminorm)
		return torch.neg(t_eval), sol
''')
# adaptive: loop restructure
ed('a5',O,'''					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
					f0, f1, x0, x1 = k1, f_new, x, x_new
					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
''','''					if coefs is None:
						increment = torch.zeros_like(x)
						for b, k in zip(interpolator.bmid, stages): increment = increment + b * k
						coefs = interpolator.fit(dt, k1, f_new, x, x_new, x + dt * increment)
''')
ed('a6',O,'''		if t_eval is not None:
			# satisfy checkpointing by using interpolation scheme or resetting `dt`
			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
				if interpolator == None:
					# save old dt, raise "checkpoint" flag and repeat step
					dt_old, ckpt_flag = dt, True
					dt, t_land = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter + 1]

		t_new = t + dt if t_land is None else t_land
''','''		pending = interpolator is None and ckpt_counter < len(t_eval)
		if pending and bool(t + dt > t_eval[ckpt_counter]):
			ckpt_flag, dt_old = True, dt
			t_land = t_eval[ckpt_counter].reshape(1)
			dt = t_eval[ckpt_counter] - t

		if t_land is None: t_new = t + dt
		else: t_new = t_land
''')
ed('a7',O,'''			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
				sol.append(x_new)
				eval_times.append(t_new)
				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
			t, x = t_new, x_new
''','''			landed = bool(t_new == t_eval[ckpt_counter])
			if landed or return_all_eval: # note (1)
				sol += [x_new]
				eval_times += [t_new]
			ckpt_counter += int(landed)
			x, t = x_new, t_new
''')
# jagged: dt list
ed('a8',O,'''		dt = []
		for t_, tcur in zip(t_span, t):
			if steps > len(t_) - 1:
				dt.append(torch.zeros_like(tcur))  # subproblem already solved
			else:
				dt.append(t_[steps] - tcur)

		dt = torch.stack(dt)
''','''		dt = torch.stack([t_[steps] - tcur if steps < len(t_) else torch.zeros_like(tcur) for t_, tcur in zip(t_span, t)])
''')
# hybrid: triggers helper
ed('a9',O,'''		triggered_events = sum([(a_ != b_)  & (b_ == False)
								for a_, b_ in zip(new_event_states.evid, event_states.evid)])


		############### compute''','''		triggered_events = n_triggered(new_event_states, event_states)


		############### compute''')
ed('a9',O,'''					triggered_events = sum([(a_ != b_)  & (b_ == False)
											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
''','''					triggered_events = n_triggered(new_event_states, event_states)
''')
ed('a9',O,'''	if priority == 'jump':
		new''','''	def n_triggered(new, old):
		return sum(int(bool(a_) and not bool(b_)) for a_, b_ in zip(new.evid, old.evid))

	if priority == 'jump':
		new''')
ed('a9',O,'''			i = min([i for i, (a_, b_) in enumerate(zip(hit_states.evid, event_states.evid)) if (a_ != b_) & (b_ == False)])
''','''			i = next(i for i, (a_, b_) in enumerate(zip(hit_states.evid, event_states.evid)) if bool(a_) and not bool(b_))
''')
# RK sums
ed('b1',V,'''        x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4 + bsol[4] * k5 + bsol[5] * k6)
        err = dt * (berr[0] * k1 + berr[1] * k2 + berr[2] * k3 + berr[3] * k4 + berr[4] * k5 + berr[5] * k6 + berr[6] * k7)
''','''        stages = (k1, k2, k3, k4, k5, k6, k7)
        x_sol = x + dt * sum(b * k for b, k in zip(bsol[:6], stages))
        err = sum(dt * b * k for b, k in zip(berr, stages))
''',2)
ed('b2',V,'''        k2 = f(t + c[0] * dt, x + dt * (a[0][0] * k1))
        k3 = f(t + c[1] * dt, x + dt * (a[1][0] * k1 + a[1][1] * k2))
        k4 = f(t + c[2] * dt, x + dt * (a[2][0] * k1 + a[2][1] * k2 + a[2][2] * k3))
        x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4)
''','''        ks = [k1]
        for c_, a_ in zip(c, a):
            ks.append(f(t + dt * c_, x + dt * sum(w * k for w, k in zip(a_, ks))))
        x_sol = x + sum(dt * b * k for b, k in zip(bsol, ks))
''')
ed('b3',V,'''        x_mid = x + 0.5 * dt * k1
        x_sol = x + dt * f(t + 0.5 * dt, x_mid)
''','''        half = dt / 2
        x_sol = x + f(t + half, x + k1 * half) * dt
''')
ed('b4',V,'''        x1 = x + 0.5 * dt * v
        vt1 = f(t + 0.5 * dt, x1)
        v1 = 2 * self.const * (vt1 - v) + v
        x2 = x1 + 0.5 * dt * v1
''','''        half_dt = 0.5 * dt
        x1 = x + v * half_dt
        vt1 = f(t + half_dt, x1)
        v1 = v + 2 * self.const * (vt1 - v)
        x2 = x1 + v1 * half_dt
''')
ed('b5',V,'''            B_out = torch.zeros_like(B)
            B_out[:i] = B[:i]
            B_in = B[i-1]
            for m in range(i, n_subinterv):
                B_in = odeint_func(f, B_in, sub_t_span, solver=self.coarse_method)[1][-1]
                B_in = B_in - B_coarse[m-i] + B_fine[m-i]
                B_out[m] = B_in
            B = B_out
''','''            correction = B_fine - B_coarse
            rows = [B[m] for m in range(i)]
            for m in range(i, n_subinterv):
                B_next = odeint_func(f, rows[-1], sub_t_span, solver=self.coarse_method)[1][-1]
                rows.append(B_next + correction[m-i])
            B = torch.stack(rows)
''')
ed('b6',V,'''        return torch.sum((x_sol - x - dt*f_sol)**2)
''','''        return (x_sol - (x + dt * f_sol)).pow(2).sum()
''')
ed('b7',V,'''        residual = torch.sum((B[2:] - B[1:-1] - dt[1:, None, None] * F[1:]) ** 2)
        residual += torch.sum((B[1] - x - dt[0] * F[0]) ** 2)
        return residual
''','''        prev = torch.cat([x[None], B[1:-1]])
        return ((B[1:] - prev - dt[:, None, None] * F) ** 2).sum()
''')
ed('b8',V,'''        while i <= maxiter and i < n_subinterv - 1:
            i += 1
            # the jac''','''        for i in range(1, min(maxiter + 1, n_subinterv - 1) + 1):
            # the jac''')
ed('b8',V,'''            del B # manually free graph
''','')
# interpolators Horner
ed('c1',I,'''        result = coefs[0] + theta * coefs[1] 
        theta_power = theta
        for coef in coefs[2:]:
            theta_power = theta_power * theta
            result += theta_power * coef
        return result
''','''        result = coefs[-1]
        for coef in reversed(coefs[:-1]):
            result = result * theta + coef
        return result
''')
ed('c2',I,'''        c1 = 2 * dt * (f1 - f0) - 8 * (x1 + x0) + 16 * x_mid
        c2 = dt * (5 * f0 - 3 * f1) + 18 * x0 + 14 * x1 - 32 * x_mid
        c3 = dt * (f1 - 4 * f0) - 11 * x0 - 5 * x1 + 16 * x_mid
        c4 = dt * f0
''','''        g0, g1 = dt * f0, dt * f1
        c1 = 16 * x_mid - 8 * x0 - 8 * x1 + 2 * g1 - 2 * g0
        c2 = 18 * x0 + 14 * x1 - 32 * x_mid + 5 * g0 - 3 * g1
        c3 = 16 * x_mid - 11 * x0 - 5 * x1 + g1 - 4 * g0
        c4 = g0
''')
# utils
ed('d1',U,"    return tensor.abs().pow(2).mean().sqrt()","    return torch.sqrt(torch.mean(tensor.abs() ** 2))")
ed('d2',U,'''    if error_ratio == 0: return dt * max_factor.to(dt)
    if error_ratio < 1: min_factor = torch.ones_like(dt)
    exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
    factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))
    return dt * factor.to(dt)
''','''    if error_ratio == 0: return max_factor.to(dt) * dt
    lowest = torch.ones_like(dt) if error_ratio < 1 else min_factor
    factor = safety * error_ratio ** (-1.0 / order)
    factor = torch.minimum(torch.maximum(factor, lowest), max_factor)
    return factor.to(dt) * dt
''')
ed('d3',U,'''    save_idx = (save_at[:, None] - t_span).abs().argmin(1)
    assert torch.isclose(save_at, t_span[save_idx], rtol=1e-6).all(), \\
        "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor]"
    return save_at, save_idx.tolist()
''','''    save_idx = []
    for t in save_at:
        nearest = int((t_span - t).abs().argmin())
        assert torch.isclose(t, t_span[nearest], rtol=1e-6), \\
            "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor]"
        save_idx.append(nearest)
    return save_at, save_idx
''')
ed('d4',U,'''    scale = atol + torch.abs(x0) * rtol
    d0, d1 = hairer_norm(x0 / scale), hairer_norm(f0 / scale)
''','''    scale = x0.abs().mul(rtol).add(atol)
    d0 = hairer_norm(x0 / scale)
    d1 = hairer_norm(f0 / scale)
''')
ed('d5',U,'''        h1 = (0.01 / max(d1, d2)) ** (1. / float(order + 1))
    dt = torch.min(100 * h0, h1).to(t0)
''','''        h1 = torch.pow(0.01 / torch.maximum(d1, d2), 1. / (order + 1))
    dt = torch.minimum(h0 * 100, h1).to(t0)
''')
# sensitivity
ed('e1',S,'''                A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
                A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
''','''                xt, λt, μt, τt = A[-1].split((xT_nel, λT_nel, μT_nel, 1))
                A = torch.cat([xt, λt + grad_output[-1][i - 1].flatten(), μt, τt])
''')
ed('e2',S,'''                A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                A[:λT_nel] += grad_output[-1][i - 1].flatten()
''','''                λt, μt = A[-1].split((λT_nel, μT_nel))
                A = torch.cat([λt + grad_output[-1][i - 1].flatten(), μt])
''')
ed('e3',S,'''            for i in range(len(t_sol) - 1, 0, -1):
                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
                                      seminorm=(True, xT_nel+λT_nel))
''','''            for i in reversed(range(1, len(t_sol))):
                interval = torch.stack([t_sol[i], t_sol[i - 1]])
                _, A = odeint(adjoint_dynamics, A, interval, solver_adjoint, atol_adjoint, rtol_adjoint,
                              seminorm=(True, xT_nel+λT_nel))
''')
ed('e4',S,'''                    if integral_loss:
                        dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                        dλ = dλ - dg
''','''                    if integral_loss is not None:
                        running_cost = integral_loss(t, x).sum()
                        dλ = dλ - grad(running_cost, x, allow_unused=True, retain_graph=True)[0]
''',2)
ed('e5',S,'''    grads = {id(p): g for p, g in zip(_trainable(vf), grads) if g is not None}
    return torch.cat([grads.get(id(p), torch.zeros_like(p)).flatten() for p in vf.parameters()], dim=-1)
''','''    grads, flat = iter(grads), []
    for p in vf.parameters():
        g = next(grads) if p.requires_grad else None
        flat.append(torch.zeros(p.numel(), dtype=p.dtype, device=p.device) if g is None else g.reshape(-1))
    return torch.cat(flat)
''')
# root
ed('f1',R,'''        num = Δz - einsum('...io, ...o -> ...i', J_inv, Δg)
        den = einsum('...i, ...io, ...o -> ...', Δz, J_inv, Δg) + self.ε
        prod = einsum('...i, ...io -> ...o', Δz, J_inv)
        ΔJ_inv = einsum('...i, ...o -> ...io', num / den[..., None], prod)
''','''        JΔg = (J_inv @ Δg[..., None])[..., 0]
        num = Δz - JΔg
        den = (Δz * JΔg).sum(-1) + self.ε
        prod = (Δz[..., None, :] @ J_inv)[..., 0, :]
        ΔJ_inv = (num / den[..., None])[..., :, None] * prod[..., None, :]
''')
ed('f2',R,'''        den = torch.sum(Δg**2, dim=1, keepdim=True) + self.Δg_tol
        ΔJ_inv = torch.einsum('...i, o... -> ...io', num, Δg.T) / den[..., None]
''','''        den = (Δg * Δg).sum(1) + self.Δg_tol
        ΔJ_inv = num[:, :, None] * Δg[:, None, :] / den[:, None, None]
''')
ed('f3',R,'''    while iteration < maxiters:
        iteration += 1
''','''    for iteration in range(1, maxiters + 1):
''')
ed('f4',R,'''            line_searcher = SEARCH_METHODS[search_method](g, geval, -einsum('...o,...io->...i', geval, J_inv), z)
''','''            direction = -torch.bmm(J_inv, geval[:, :, None])[:, :, 0]
            line_searcher = SEARCH_METHODS[search_method](g, geval, direction, z)
''')
ed('f5',R,"        dz = einsum('...o,...io->...i', geval_old, J_inv)\n","        dz = torch.matmul(J_inv, geval_old.unsqueeze(-1)).squeeze(-1)\n")
ed('f6',R,"    J_inv = batch_jacobian(g, z).pinverse()","    J_inv = torch.linalg.pinv(batch_jacobian(g, z))")
ed('f7',R,'''    return torch.norm(v)
''','''    return torch.sqrt((v ** 2).sum())
''')
ed('f8',R,'''        cond1 = (g_norm <= self.f_tol).all() and (g_norm / self.f_rtol <= self.f0_norm).all()
        cond2 = (dz_norm <= self.x_tol).all() and (dz_norm / self.x_rtol <= z_norm).all()
        if cond1 and cond2: return 2

        return 0
''','''        small_residual = (g_norm <= self.f_tol) & (g_norm <= self.f_rtol * self.f0_norm)
        small_step = (dz_norm <= self.x_tol) & (dz_norm <= self.x_rtol * z_norm)
        return 2 if bool((small_residual & small_step).all()) else 0
''')
# sde
ed('g1',SD,'''        x_prime = x + g * self.bm(t, next_t)

        x_sol = (
            x + f * dt + (g + self.sde.g(next_t, x_prime)) * 0.5 * self.bm(t, next_t)
        )
''','''        dW = self.bm(t, next_t)
        g_prime = self.sde.g(next_t, x + g * dW)

        x_sol = x + dt * f + 0.5 * dW * (g + g_prime)
''')
ed('g2',SD,'''        x_prime = x + f * dt + g * sqrt_dt
        g_x_prime = self.sde.g(t, x_prime)
        gdg = g_x_prime - g

        x_sol = x + f * dt + g * bm_ + (gdg * 1 / (2 * sqrt_dt)) * v
''','''        drift = x + f * dt
        slope = (self.sde.g(t, drift + g * sqrt_dt) - g) / sqrt_dt

        x_sol = drift + g * bm_ + 0.5 * v * slope
''')
ed('g3',SD,'''        x_sol = x + self.sde.f(t, x) * dt + self.sde.g(t, x) * self.bm(t, next_t)
''','''        dW = self.bm(t, next_t)
        g, f = self.sde.g(t, x), self.sde.f(t, x)
        x_sol = x + f * dt + g * dW
''')
ed('h1',Y,'''        _, x_sol, _ = super().step(f, x, t, dt, k1)
        return None, x_sol + dt**(self.op1) * self.hypernet(t, x), None''','''        correction = self.hypernet(t, x)
        x_sol = super().step(f, x, t, dt, k1=k1, args=args)[1]
        return None, x_sol + correction * dt.pow(self.op1), None''',3)
C='torchdyn/models/cnf.py'; EN='torchdyn/models/energy.py'; H='torchdyn/models/hybrid.py'
ed('i1',C,'''    trJ = 0.
    for i in range(x_in.shape[1]):
        trJ += grad(x_out[:, i].sum(), x_in, allow_unused=False, create_graph=True)[0][:, i]
    return trJ
''','''    diag = [grad(x_out[:, i].sum(), x_in, create_graph=True)[0][:, i] for i in range(x_in.shape[1])]
    return torch.stack(diag, 1).sum(1)
''')
ed('i2',C,"    trJ = torch.einsum('bi,bi->b', jvp, noise)\n","    trJ = (noise * jvp).sum(1)\n")
ed('i3',C,"        return torch.cat([-trJ[:, None], x_out], 1) + 0*x","        return torch.cat([trJ.neg().unsqueeze(1), x_out], dim=1) + 0 * x")
ed('i4',EN,"        return hess[n:, n:].pinverse()@(jac[:n] - hess[n:, :n]@qqd[n:])","        force = jac[:n] - hess[n:, :n] @ qqd[n:]\n        return torch.linalg.solve(hess[n:, n:], force)")
ed('i5',EN,"            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)","            dHdx = (dHdx[:, None, :] @ self._generate_skew(x))[:, 0]")
ed('i6',EN,"            eps = self.energy(x).sum()\n            out = -torch.autograd.grad(eps, x, allow_unused=False, create_graph=True)[0]","            out = torch.autograd.grad(-self.energy(x).sum(), x, create_graph=True)[0]")
ed('i7',EN,"            gradH = grad(self.net(x).sum(), x, create_graph=True)[0]\n        return torch.cat([gradH[:, n:], -gradH[:, :n]], 1).to(x)","            dHdq, dHdp = grad(self.net(x).sum(), x, create_graph=True)[0].split(n, 1)\n        return torch.cat([dHdp, -dHdq], 1).to(x)")
ed('i8',H,'''        Y = torch.zeros(x.shape[0], *h.shape).to(x)
''','''        Y = []
''')
ed('i8',H,'''            Y[t] = h
        Y = self.out(Y)
''','''            Y.append(h)
        Y = self.out(torch.stack(Y))
''')
N='torchdyn/nn/node_layers.py'
ed('j1',N,'''        t_shape = list(x.shape)
        t_shape[self.idx_cat] = 1
        t = self.t * torch.ones(t_shape).to(x)
''','''        t = self.t * torch.ones_like(x.narrow(self.idx_cat, 0, 1))
''')
ed('j2',N,'''        if not self.augment_func:
            new_dims = list(x.shape)
            new_dims[self.augment_idx] = self.augment_dims

            # if-else check for augmentation order
            if self.order == 'first':
                x = torch.cat([torch.zeros(new_dims).to(x), x],
                              self.augment_idx)
            else:
                x = torch.cat([x, torch.zeros(new_dims).to(x)],
                              self.augment_idx)
        else:
            # if-else check for augmentation order
            if self.order == 'first':
                x = torch.cat([self.augment_func(x).to(x), x],
                              self.augment_idx)
            else:
                x = torch.cat([x, self.augment_func(x).to(x)],
                               self.augment_idx)
        return x
''','''        if self.augment_func:
            extra = self.augment_func(x).to(x)
        else:
            new_dims = list(x.shape)
            new_dims[self.augment_idx] = self.augment_dims
            extra = x.new_zeros(new_dims)
        parts = [extra, x] if self.order == 'first' else [x, extra]
        return torch.cat(parts, self.augment_idx)
''')
D='torchdyn/datasets/static_datasets.py'
ed('k1',D,'''    samples = []
    for i in range(n_samples // 2):
        samples.append(randnsphere(dim, inner_radius)[None, :])
    X[:n_samples // 2] = cat(samples)
    X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
    samples = []
    for i in range(n_samples - n_samples // 2):
        samples.append(randnsphere(dim, outer_radius)[None, :])
    X[n_samples // 2:] = cat(samples)
    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)
    return X, y
''','''    n_inner = n_samples // 2
    inner = torch.stack([randnsphere(dim, inner_radius) for _ in range(n_inner)])
    inner = inner + zeros((n_inner, dim)).normal_(0, std=noise)
    outer = torch.stack([randnsphere(dim, outer_radius) for _ in range(n_samples - n_inner)])
    outer = outer + zeros((n_samples - n_inner, dim)).normal_(0, std=noise)
    return cat([inner, outer]), y
''')
ed('k2',D,'''    for i in range(n_gaussians):
        angle += 2*math.pi / n_gaussians
        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
        else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
        X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
        y[i*n_samples:(i+1)*n_samples] = i
    return X, y
''','''    centers = torch.zeros(n_gaussians, dim)
    angles = 2 * math.pi / n_gaussians * torch.arange(1, n_gaussians + 1)
    centers[:, 0], centers[:, 1] = radius * torch.cos(angles), radius * torch.sin(angles)
    for i in range(n_gaussians):
        rows = slice(i * n_samples, (i + 1) * n_samples)
        X[rows] = Normal(centers[i], scale=std_gaussians).sample((n_samples,)) + torch.randn(dim) * noise
        y[rows] = i
    return X, y
''')
ed('k3',D,'''        if dataset_type == 'moons':
            return generate_moons(n_samples=n_samples, **kwargs)
        elif dataset_type == 'spirals':
            return generate_spirals(n_samples=n_samples, **kwargs)
        elif dataset_type == 'spheres':
            return generate_concentric_spheres(n_samples=n_samples, **kwargs)
        elif dataset_type == 'gaussians':
            return generate_gaussians(n_samples=n_samples, **kwargs)
        elif dataset_type == 'gaussians_spiral':
            return generate_gaussians_spiral(n_samples=n_samples, **kwargs)
        elif dataset_type == 'diffeqml':
            return generate_diffeqml(n_samples=n_samples, **kwargs)
''','''        generators = {'moons': generate_moons, 'spirals': generate_spirals, 'spheres': generate_concentric_spheres,
                      'gaussians': generate_gaussians, 'gaussians_spiral': generate_gaussians_spiral,
                      'diffeqml': generate_diffeqml}
        if dataset_type in generators:
            return generators[dataset_type](n_samples=n_samples, **kwargs)
''')
Z='torchdyn/numerics/systems.py'
src=(ROOT/Z).read_text() if (ROOT/Z).exists() else ''
ed('l1',Z,'''        dx1 = 10 * (x2 - x1)
        dx2 = x1 * (28 - x3) - x2
        dx3 = x1 * x2 - 8 / 3 * x3
''','''        dx1 = 10 * x2 - 10 * x1
        dx2 = 28 * x1 - x1 * x3 - x2
        dx3 = x1 * x2 - x3 * (8 / 3)
''')
ed('l2',Z,'''            sol = []
            for s_ in s:
                sol += [(self.A[:, :, 0] * torch.cos(self.w[:, :, 0] * s_ + self.phi[:, :, 0]) +
                         self.A[:, :, 1] * torch.cos(self.w[:, :, 1] * s_ + self.phi[:, :, 1])).sum(1)[None, :]]
            return torch.cat(sol)
''','''            s_ = s.reshape(-1, 1, 1, 1)
            return (self.A * torch.cos(self.w * s_ + self.phi)).sum((2, 3))
''',2)
T='torchdyn/numerics/solvers/templates.py'
ed('m1',T,'''        solver.tableau = c.to(ref), [a.to(ref) for a in a], bsol.to(ref), berr.to(ref)
''','''        solver.tableau = tuple([row.to(ref) for row in entry] if isinstance(entry, list) else entry.to(ref)
                               for entry in (c, a, bsol, berr))
''')
P='torchdyn/core/neuralde.py'
ed('n1',P,'''        _, sol = odeint(
            self.vf, x, t_span, solver=self.solver, atol=self.atol, rtol=self.rtol
        )
        return sol
''','''        return odeint(self.vf, x, t_span, self.solver, self.atol, self.rtol)[1]
''')
ed('n2',P,'''        for _, module in self.vf.named_modules():
            if hasattr(module, "trace_estimator"):
                if module.noise_dist is not None:
                    module.noise = module.noise_dist.sample((x.shape[0],))
                excess_dims += 1
''','''        batch = x.shape[0]
        for module in self.vf.modules():
            if hasattr(module, "trace_estimator"):
                excess_dims += 1
                if module.noise_dist is not None:
                    module.noise = module.noise_dist.sample((batch,))
''')
bad=0
for id,path,old,new,cnt in E:
    if only and id not in only: continue
    p=ROOT/path; s=p.read_text()
    if s.count(old)!=cnt: print('NOMATCH',id,path,s.count(old)); bad+=1; continue
    p.write_text(s.replace(old,new))
print(len({e[0] for e in E}),'edits',bad,'bad')
