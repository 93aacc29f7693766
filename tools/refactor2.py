import sys, pathlib
ROOT = pathlib.Path(sys.argv[1]); only=set(sys.argv[2:])
E=[]
def ed(id, path, old, new, cnt=1): E.append((id, path, old, new, cnt))
G='torchdyn/nn/galerkin.py'; DF='torchdyn/core/defunc.py'; P='torchdyn/core/problems.py'; N='torchdyn/core/neuralde.py'; O='torchdyn/numerics/odeint.py'; Z='torchdyn/numerics/systems.py'; CU='torchdyn/core/utils.py'
T='torchdyn/numerics/solvers/templates.py'; V='torchdyn/numerics/solvers/ode.py'; C='torchdyn/models/cnf.py'; EN='torchdyn/models/energy.py';D='torchdyn/datasets/static_datasets.py'
ed('a1',G,'''        B = []  
        for i in range(self.n_eig):
            Bin = torch.eye(self.deg).to(self.coeffs)
            Bin[range(self.deg), range(self.deg)] = basis[i]
            B.append(Bin)
        B = torch.cat(B, 1).to(self.coeffs.device)
        coeffs = torch.cat([self.coeffs[:,:,i] for i in range(self.n_eig)],1).transpose(0,1).to(self.coeffs.device) 
        X = torch.matmul(B, coeffs)
        return X.sum(0)
''','''        values = torch.stack([b.expand(self.deg).to(self.coeffs) for b in basis], -1)
        return torch.einsum('pde,de->p', self.coeffs, values)
''')
ed('a2',G,'''        n = self.in_features*self.out_features
        if len(w) > n: self.bias = w[n:].reshape(self.out_features)
''','''        n_weights = self.weight.numel()
        has_bias = w.shape[0] > n_weights
        if has_bias: self.bias = w[n_weights:]
''')
ed('b1',DF,'''        x_new = []
        size_order = x.size(1) // self.order
        for i in range(1, self.order):
            x_new.append(x[:, size_order * i : size_order * (i + 1)])
        x_new.append(self.vf(t, x, args=args))
        return cat(x_new, dim=1).to(x)
''','''        size_order = x.size(1) // self.order
        derivatives = x[:, size_order:size_order * self.order]
        highest = self.vf(t, x, args=args)
        return cat([derivatives, highest], dim=1).to(x)
''')
ed('b2',DF,'''        if (self.integral_loss is not None) and self.sensitivity == "autograd":
            x_dyn = x[:, 1:]
            dlds = self.integral_loss(t, x_dyn)
            if len(dlds.shape) == 1:
                dlds = dlds[:, None]
            if self.order > 1:
                x_dyn = self.higher_order_forward(t, x_dyn, args)
            else:
                x_dyn = self.vf(t, x_dyn, args=args)
            return cat([dlds, x_dyn], 1).to(x_dyn)

        # regular forward
        else:
            if self.order > 1:
                x = self.higher_order_forward(t, x, args)
            else:
                x = self.vf(t, x, args=args)
            return x
''','''        dynamics = self.higher_order_forward if self.order > 1 else self._first_order
        propagates_loss = self.sensitivity == "autograd" and self.integral_loss is not None
        if not propagates_loss: return dynamics(t, x, args)
        state = x[:, 1:]
        dlds = self.integral_loss(t, state)
        if dlds.ndim == 1: dlds = dlds.unsqueeze(1)
        dx = dynamics(t, state, args)
        return cat([dlds, dx], 1).to(dx)

    def _first_order(self, t, x, args={}):
        return self.vf(t, x, args=args)
''')
ed('b3',DF,'''        for _, module in self.vf.named_modules():
            if hasattr(module, "t"):
                module.t = t
''','''        for module in self.vf.modules():
            if hasattr(module, "t"): setattr(module, "t", t)
''')
ed('b4',DF,'''        self.nfe += 1
        if issubclass(type(self.f_func), nn.Module):
            if "t" not in getfullargspec(self.f_func.forward).args:
                return self.f_func(x)
            else:
                return self.f_func(t, x)
        else:
            if "t" not in getfullargspec(self.f_func).args:
                return self.f_func(x)
            else:
                return self.f_func(t, x)
''','''        self.nfe += 1
        return self._call(self.f_func, t, x)

    @staticmethod
    def _call(func, t, x):
        target = func.forward if isinstance(func, nn.Module) else func
        if "t" in getfullargspec(target).args: return func(t, x)
        return func(x)
''')
ed('b5',DF,'''        if issubclass(type(self.g_func), nn.Module):

            if "t" not in getfullargspec(self.g_func.forward).args:
                return self.g_func(x)
            else:
                return self.g_func(t, x)
        else:
            if "t" not in getfullargspec(self.g_func).args:
                return self.g_func(x)
            else:
                return self.g_func(t, x)
''','''        return SDEFunc._call(self.g_func, t, x)
''')
ed('c1',P,'''        return torch.cat([p.contiguous().flatten() for p in self.vf.parameters()])

    def _auto''','''        return nn.utils.parameters_to_vector(p.contiguous() for p in self.vf.parameters())

    def _auto''')
ed('c2',P,'''            t_eval, sol = self._autograd_func()(self._flat_params(), x, t_span)
            # the''','''            solve = self._autograd_func()
            t_eval, sol = solve(self._flat_params(), x, t_span)
            # the''')
ed('c3',P,'''            if len(save_at) > 0 and self.solver.stepping_class == "fixed":
                t_eval, save_idx = match_save_at(save_at, t_eval)
                sol = sol[save_idx]
            return t_eval, sol
''','''            selects_rows = self.solver.stepping_class == "fixed" and len(save_at) > 0
            if not selects_rows: return t_eval, sol
            t_eval, rows = match_save_at(save_at, t_eval)
            return t_eval, torch.stack([sol[i] for i in rows])
''')
ed('d1',N,'''        if self.return_t_eval:
            return t_eval, sol
        else:
            return sol

    @static''','''        return (t_eval, sol) if self.return_t_eval else sol

    @static''')
ed('d2',N,'''                module._control = x[:, excess_dims:].detach()
        return x, t_span

    def forward(
        self,
        x: Union[Tensor, Dict],
        t_span: Tensor = None,
        save_at: Iterable = (),
        args={},
    ):
        x, t_span = self._prep_integration''','''                module._control = x.detach()[:, excess_dims:]
        return x, t_span

    def forward(
        self,
        x: Union[Tensor, Dict],
        t_span: Tensor = None,
        save_at: Iterable = (),
        args={},
    ):
        x, t_span = self._prep_integration''')
# odeint
ed('e1',O,'''	if t_span[1] < t_span[0]: # time is reversed
		if''','''	going_back = bool(t_span[0] > t_span[1])
	if going_back: # time is reversed
		if''')
ed('e2',O,'''	if type(solver) == str:
		solver = str_to_solver(solver, x.dtype)
	x, t_span = solver.sync_device_dtype(x, t_span)
	stepping_class = solver.stepping_class

	# instantiate the interp''','''	solver = str_to_solver(solver, x.dtype) if isinstance(solver, str) else solver
	x, t_span = solver.sync_device_dtype(x, t_span)
	stepping_class = solver.stepping_class

	# instantiate the interp''')
ed('e3',O,'''	final_out = {k: [v] for k, v in sol[0].items()}
		_ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
		final_out = {k: torch.stack(v) for k, v in final_out.items()}
''','''	final_out = {k: torch.stack([row[k] for row in sol]) for k in sol[0]}
''')
ed('e4',O,'''			while niters < max_iters and event_tol < dt_inner:
				with torch.no_grad():
					dt_inner = dt_inner / 2
					f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)

					new_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
												   for cb in callbacks])
					triggered_events = sum([(a_ != b_)  & (b_ == False)
											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
					niters = niters + 1
''','''			for niters in range(max_iters):
				if not event_tol < dt_inner: break
				with torch.no_grad():
					dt_inner = 0.5 * dt_inner
					t_probe = t_inner + dt_inner
					f_new, x_, _, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)

					new_event_states = EventState([cb.check_event(t_probe, x_) for cb in callbacks])
					triggered_events = sum([(a_ != b_)  & (b_ == False)
											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
''')
ed('e5',O,'''			# save state and time BEFORE jump
			sol.append(x.reshape(x_shape))
			eval_times.append(t.reshape(t.shape))

			# apply jump func.
			x = callbacks[i].jump_map(t, x)
			jnum = jnum + 1
			event_states = update_event_states(event_states, i, t, x)

			# save state and time AFTER jump
			sol.append(x.reshape(x_shape))
			eval_times.append(t.reshape(t.shape))
''','''			# save state and time BEFORE and AFTER the jump
			x_before, x = x, callbacks[i].jump_map(t, x)
			sol.extend([x_before.reshape(x_shape), x.reshape(x_shape)])
			eval_times.extend([t, t])
			jnum += 1
			event_states = update_event_states(event_states, i, t, x)
''')
ed('e6',O,'''	solver.x_shape = x.shape[-1] // 2
	# velocities of the asynchronous leapfrog change sign along with the direction of time
	flip = torch.ones_like(x)
	if reverse and isinstance(solver, AsynchronousLeapfrog): flip[..., solver.x_shape:] = -1
	x = x * flip
''','''	solver.x_shape = half = x.shape[-1] // 2
	# velocities of the asynchronous leapfrog change sign along with the direction of time
	sign = -1. if reverse and isinstance(solver, AsynchronousLeapfrog) else 1.
	flip = torch.cat([torch.ones_like(x[..., :half]), torch.full_like(x[..., half:], sign)], -1)
	x = x * flip
''')
ed('e7',O,'''	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
	ckpt_counter, ckpt_flag = 0, False
	eval_times, sol = [t], [x]
	while t < T:
''','''	ckpt_counter, ckpt_flag = 0, False
	t, t_eval = t_span[:1], t_span[1:]
	T = t_eval[-1]
	eval_times, sol = [t], [x]
	while bool(t < T):
''')
ed('e8',O,'''		dt = adapt_step(dt, error_ratio,
						solver.safety,
						solver.min_factor,
						solver.max_factor,
						solver.order)
	return''','''		controller = dict(safety=solver.safety, min_factor=solver.min_factor, max_factor=solver.max_factor, order=solver.order)
		dt = adapt_step(dt, error_ratio, **controller)
	return''')
ed('f1',Z,'''        x1, x2 = x[..., :1], x[..., 1:2]
        return torch.cat([x2, self.alpha * (1 - x1 ** 2) * x2 - x1], -1)
''','''        position, velocity = x[..., :1], x[..., 1:2]
        damping = self.alpha * (1 - position * position)
        return torch.cat([velocity, damping * velocity - position], dim=-1)
''')
ed('f2',Z,'''        s = s * torch.ones_like(z)
        return torch.sin(s)
''','''        return torch.sin(s) * torch.ones_like(z)
''')
ed('g1',CU,'''    else: 
        # argspec''','''    else:
        # argspec''')
ed('g2',CU,'''    if issubclass(type(vector_field), nn.Module):
        if 't' not in getfullargspec(vector_field.forward).args:''','''    is_module = isinstance(vector_field, nn.Module)
    if is_module:
        has_time = 't' in getfullargspec(vector_field.forward).args
        if not has_time:''')
ed('h1',V,'''        if k1 == None: k1 = f(t, x)
        x_sol = x + dt * k1
        return None, x_sol, None
''','''        slope = f(t, x) if k1 is None else k1
        return None, slope * dt + x, None
''')
ed('h2',V,'''        x_sol = x.clone()
        x_sol = nn.Parameter(data=x_sol)
''','''        x_sol = nn.Parameter(x.detach().clone())
''')
ed('h3',V,'''                # instead of jvps here the full jacobian can be computed and the vector products
                # which involve `B_in` can be performed. Trading memory ++ for speed ++
                dB = torch.zeros_like(B_fine)
                dB[m-i] = B_in - B[m-1]
                J_blk = torch.autograd.grad(vjp, v, dB, retain_graph=True)[0][m-i]
                B_in = B_fine[m-i] + J_blk
''','''                k = m - i
                delta = torch.zeros_like(B_fine)
                delta[k] += B_in - B[m-1]
                product, = torch.autograd.grad(vjp, v, grad_outputs=delta, retain_graph=True)
                B_in = product[k] + B_fine[k]
''')
ed('i1',C,'''            if self.order > 1: x_out = self.higher_order(x_in)
            else: x_out = self.net(x_in)
''','''            x_out = self.net(x_in) if self.order <= 1 else self.higher_order(x_in)
''')
ed('j1',EN,'''        qqd_batch = tuple(x[i, :] for i in range(bs))
        jac = tuple(map(partial(jacobian, self._lagrangian, create_graph=True), qqd_batch))
        hess = tuple(map(partial(hessian, self._lagrangian, create_graph=True), qqd_batch))
        qdd_batch = tuple(map(self._qdd, zip(jac, hess, qqd_batch)))
        qd, qdd = x[:, n:], torch.cat([qdd[None] for qdd in qdd_batch])
        return torch.cat([qd, qdd], 1)
''','''        qdd = []
        for qqd in x.unbind(0):
            jac = jacobian(self._lagrangian, qqd, create_graph=True)
            hess = hessian(self._lagrangian, qqd, create_graph=True)
            qdd.append(self._qdd((jac, hess, qqd)))
        return torch.cat([x[:, n:], torch.stack(qdd)], 1)
''')
ed('k1',D,'''    X = np.vstack([np.append(outer_circ_x, inner_circ_x),
                   np.append(outer_circ_y, inner_circ_y)]).T
    y = np.hstack([np.zeros(n_samples_out, dtype=np.intp),
                   np.ones(n_samples_in, dtype=np.intp)])
''','''    outer = np.stack([outer_circ_x, outer_circ_y], axis=1)
    inner = np.stack([inner_circ_x, inner_circ_y], axis=1)
    X = np.concatenate([outer, inner])
    y = np.repeat([0, 1], [n_samples_out, n_samples_in])
''')
ed('k2',D,'''    d1x = -np.cos(n) * n + np.random.rand(n_samples, 1) * noise
    d1y = np.sin(n) * n + np.random.rand(n_samples, 1) * noise
    X, y = (np.vstack((np.hstack((d1x, d1y)), np.hstack((-d1x, -d1y)))),
            np.hstack((np.zeros(n_samples), np.ones(n_samples))))
''','''    arm = np.hstack((-np.cos(n) * n, np.sin(n) * n)) + np.random.rand(n_samples, 2) * noise
    X = np.concatenate((arm, -arm))
    y = np.repeat([0., 1.], n_samples)
''')
bad=0
for id,path,old,new,cnt in E:
    if only and id not in only: continue
    p=ROOT/path; s=p.read_text()
    if s.count(old)!=cnt: print('NOMATCH',id,path,s.count(old)); bad+=1; continue
    p.write_text(s.replace(old,new))
print(len(E),bad)
