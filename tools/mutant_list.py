# -- C01
mut("m01a", "C01", (TP, "            if solution_valid and nr_success:\n", "            if solution_valid and (nr_success or x_norm < xtol):\n"))
mut("m01b", "C01", (ZS, "        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n", "        r = f(x, *args)\n        dx = spsolve(csr_matrix(dfdx(x, *args)), -r)\n"),
    (ZS, "        f_norm = norm(f(x, *args))\n", "        f_norm = norm(r)\n"))
mut("m01c", "C01", (TP, "            x = x0.copy()\n            j0 = j\n", "            x = x0 if z == 0 else x\n            j0 = j\n"),
    (TP, "            xmax = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)\n\n            # NEWTON", "            xmax = x0[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)\n\n            # NEWTON"))
mut("m01d", "C01", (TP, "            if j_fixed:\n                if abs(Dx[abs(j) - 1] / dxmax[abs(j) - 1]) <= dxtol:\n                    solution_valid = True\n",
    "            if j_fixed:\n                if abs(Dx[abs(j) - 1] / dxmax[abs(j) - 1]) <= dxtol:\n                    solution_valid = True\n                    nr_success = nr_success or z > 0\n"))
mut("m01e", "C01", (TP, "                f, dfdx, x, nfev - n_pre, ftol, xtol, verbose, *args\n", "                f, dfdx, x, nfev - n_pre, ftol * 10**min(z, 3), xtol, verbose, *args\n"))
mut("m01f", "C01", (ZS, "norm(f(x, *args))\n        x_norm", "norm(f(x, *args)[:-1], 2) if len(x) > 6 else norm(f(x, *args))\n        x_norm"))
# -- C02
mut("m02a", "C02", (TP, "            if solution_valid and nr_success:\n                # UPDATE STATE VARIABLES\n                args = x0, j0, xmax, g, dgdx, analysis, True\n                f(x, *args)\n",
    "            if nr_success:\n                # UPDATE STATE VARIABLES\n                args = x0, j0, xmax, g, dgdx, analysis, True\n                f(x, *args)\n\n            if solution_valid and nr_success:\n"))
mut("m02b", "C02", (MO, "                state_v = self.Analysis.state_v.copy()\n", "                state_v = self.Analysis.state_v\n"))
mut("m02c", "C02", (EL, "        state_ve = state_v[np.where(elementlist == e)][0]\n", "        state_ve = state_v[np.where(elementlist == e)[0][0]]\n"))
mut("m02d", "C02", (MA, "    if state_v[0] == 0:\n        stress_yield_0 = Sy\n", "    if state_v[1] == 0:\n        stress_yield_0 = Sy\n"))
mut("m02e", "C02", (MO, "            if statev_write and self.nstatev > 0:\n                self.Analysis.state_v = state_v\n", "            if statev_write and self.nstatev > 0 and mat_type == 2:\n                self.Analysis.state_v = state_v\n"),
    (MO, "                state_v = self.Analysis.state_v.copy()\n", "                state_v = self.Analysis.state_v.copy() if stage == \"G\" else self.Analysis.state_v\n"))
# -- C03
mut("m03a", "C03", (MO, "                self.stiffness,\n                self.Analysis.Ured,\n", "                self.stiffness,\n                self.Analysis.U.flatten()[self.Analysis.DOF1],\n"))
mut("m03b", "C03", (MO, "                    self.Results.step_lpf_end[s]\n", "                    self.Results.step_lpf_end[-1]\n"))
mut("m03c", "C03", (MO, "            if type(self.Settings.xlimit[0]) == tuple:\n                xlimit = self.Settings.xlimit[step]\n", "            if type(self.Settings.xlimit[0]) == tuple:\n                xlimit = self.Settings.xlimit[0]\n"))
mut("m03d", "C03", (MO, "            for s in range(step):\n                f0_const += (", "            for s in range(max(0, step - 2), step):\n                f0_const += ("))
mut("m03e", "C03", (TP, "    x = np.append(x, 0)\n", "    x = np.append(x, 0)\n    if analysis.state_v is not None:\n        analysis.state_v = np.where(analysis.state_v > 0, analysis.state_v, 0.0)\n"))
# -- C04
mut("m04a", "C04", (TP, "        res_a.append(copy.deepcopy(analysis))\n\n        if verbose", "        K, analysis.K = analysis.K, None\n        res_a.append(copy.deepcopy(analysis))\n        analysis.K = res_a[-1].K = K\n\n        if verbose"))
mut("m04b", "C04", (TP, "                args = x0, j0, xmax, g, dgdx, analysis, True\n                f(x, *args)\n", "                if analysis.state_v is not None:\n                    args = x0, j0, xmax, g, dgdx, analysis, True\n                    f(x, *args)\n"),
    (TP, "            x, nr_success, n, f_norm, x_norm = newton(", "            if z > 0 and False:\n                pass\n            x, nr_success, n, f_norm, x_norm = newton("))
mut("m04c", "C04", (RH, "        self.R.append(copy.deepcopy(self.R[-1]))\n", "        self.R.append(copy.copy(self.R[-1]))\n"))
mut("m04d", "C04", (MO, "            self.Analysis.ExtForces = copy.deepcopy(self.ExtForces)\n", "            if step == 0:\n                self.Analysis.ExtForces = copy.deepcopy(self.ExtForces)\n"))
mut("m04e", "C04", (TP, "        res_a.append(copy.deepcopy(analysis))\n\n        if verbose", "        a = copy.copy(analysis)\n        for k, v in vars(analysis).items():\n            if isinstance(v, np.ndarray) and v.dtype == float:\n                setattr(a, k, v.copy() if v.ndim > 1 else v)\n        res_a.append(a)\n\n        if verbose"))
mut("m04f", "C04", (TP, "                args = x0, j0, xmax, g, dgdx, analysis, True\n                f(x, *args)\n", "                args = x if z else x0, j0, xmax, g, dgdx, analysis, True\n                f(x, *args)\n"))
# -- C05
mut("m05a", "C05", (TP, "                elif b <= 3:\n", "                elif b < 3:\n"))
mut("m05b", "C05", (TP, "                dx_changed = True\n                b = 0  # reset", "                dx_changed = True\n                b = 0 if j0 == j else b  # reset"))
mut("m05c", "C05", (TP, "                if np.all(abs(Dx / dxmax) <= dxtol):\n", "                if np.all(abs(Dx / dxmax)[:-1] <= dxtol):\n"))
mut("m05d", "C05", (TP, "            analysis.dVmax = dxmax\n\n            # CHECK", "            analysis.dVmax = dxmax\n            dxtol = max(dxtol, 1 + z / 2)\n\n            # CHECK"))
mut("m05e", "C05", (TP, "                dxmax = dxmax0.copy() * maxfac\n                dx_changed = True\n", "                dxmax = dxmax0.copy() * maxfac\n                dxmax[-1] = max(dxmax[-1], dxmax0[-1])\n                dx_changed = True\n"))
mut("m05f", "C05", (TP, "    dxmax0 = dxmax.copy()\n", "    dxmax0 = dxmax\n"), (TP, "                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)\n", "                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac, out=dxmax)\n"))
mut("m05g", "C05", (TP, "                if j0 == j:\n", "                if j0 == j:\n") if False else (TP, "            if j0 == j:\n                if z > 0:\n                    pass\n                elif", "            if j0 == j or z == 0:\n                if z > 2:\n                    pass\n                elif"))
# -- C06
mut("m06a", "C06", (TP, "            if z + 1 == cycl:\n                stop = True\n", "            if z == cycl:\n                stop = True\n"))
mut("m06b", "C06", (TP, "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n", "            if x[xlimit[0] - 1] > xlimit[1]:\n"))
mut("m06c", "C06", (TP, "        if dxmax[0] > dxmax0[0] * minfac:\n", "        if dxmax[0] >= dxmax0[0] * minfac:\n"))
mut("m06d", "C06", (TP, "                z = 0\n                final_step_reduction = True\n", "                final_step_reduction = True\n"))
mut("m06e", "C06", (TP, "                print(\n                    \"* **ERROR 2**: Job stopped - NR-it. failed, control component does not change.\"\n                )\n", "                if verbose > 0:\n                    print(\n                        \"* **ERROR 2**: Job stopped - NR-it. failed, control component does not change.\"\n                    )\n"))
mut("m06f", "C06", (TP, "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n", "            if abs(x[xlimit[0] - 1]) >= xlimit[1] * (1 - 1e-3):\n"))
mut("m06g", "C06", (TP, "            # reset j\n            if not nr_success:\n                j = j0\n", "            # reset j\n            if not nr_success and not stepcontrol:\n                j = j0\n"))
mut("m06h", "C06", (TP, "            if j0 == j and nr_success is False and sc_changed is False:\n", "            if j0 == j and nr_success is False and (sc_changed is False or n < nfev - n_pre):\n"))
# -- C07
mut("m07a", "C07", (ZS, "        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n", "        try:\n            dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n        except RuntimeError:\n            x_norm = f_norm = float(\"inf\")\n            break\n"))
mut("m07b", "C07", (ZS, "        if f_norm < ftol and x_norm < xtol:\n            success = True\n            break\n", "        success = f_norm < ftol and x_norm < xtol\n        if success or x_norm * xtol > 1:\n            break\n"))
mut("m07c", "C07", (ZS, "        if f_norm < ftol and x_norm < xtol:\n", "        if f_norm < ftol and x_norm < xtol * max(1.0, norm(x)):\n"))
mut("m07d", "C07", (ZS, "        if f_norm < ftol and x_norm < xtol:\n            success = True\n            break\n", "        if f_norm < ftol and x_norm < xtol:\n            success = True\n            break\n    if f_norm < ftol and n + 1 == nfev:\n        success = True\n"))
mut("m07e", "C07", (ZS, "        x = x + dx\n", "        if norm(dx) > 1e3:\n            dx = dx * (1e3 / norm(dx))\n        x = x + dx\n"))
# -- C08
mut("m08a", "C08", (TP, "            # CHECK IF SOLUTION IS VALID --> GO TO NEXT INCREMENT\n", "            if verbose > 2:\n                print(\"* condition number:\", np.linalg.cond(dgdx(x[:-1], analysis=analysis)))\n\n            # CHECK IF SOLUTION IS VALID --> GO TO NEXT INCREMENT\n"))
mut("m08b", "C08", (EL, "def truss(\n", "_lengths = {}\n\n\ndef truss(\n"), (EL, "    L = np.sqrt(np.dot(dX, dX))\n", "    L = _lengths.setdefault((e, NA, NE), np.sqrt(np.dot(dX, dX)))\n"))
mut("m08c", "C08", (MO, "            f0_const = np.zeros_like(\n", "            self.Settings.incs = incs if self.Settings.nsteps == 1 else self.Settings.incs\n            self.Settings.xlimit = (\n                abs(xlimit[0]),\n                np.inf if xlimit[1] is None else xlimit[1],\n            ) if step == 0 and xlimit is self.Settings.xlimit and not np.isinf(xlimit[1]) and self.Settings.log > 1 else self.Settings.xlimit\n            if self.Settings.stepcontrol and self.Settings.maxfac < 1:\n                self.Settings.maxfac = 1\n            self.Settings.cycl = max(self.Settings.cycl, 3)\n            f0_const = np.zeros_like(\n"))
mut("m08d", "C08", (HB, "            Unodes = np.array([B.node])\n            Uvalues = np.array([B.values])\n", "            Unodes = np.array([B.node])\n            Uvalues = B.values.reshape(1, -1)\n") if False else (MO, "        self.nproBC = self.Boundaries.Uvalues\n", "        self.nproBC = self.Boundaries.Uvalues\n        self.nproBC[self.nproBC != 0] = 1\n        self.Elements.material_properties[np.isnan(self.Elements.material_properties)] = 0\n        if self.nnodes > 4:\n            self.Elements.conns.sort(axis=1)\n"))
# -- C09
mut("m09a", "C09", (EL, "def truss(\n", "_T = np.zeros((2, 6))\n\n\ndef truss(\n"), (EL, "    T = np.array([[*n, *np.zeros(3)], [*np.zeros(3), *n]])\n", "    T = _T\n    T[0, :3] = n\n    T[1, 3:] = n\n    n = T[0, :3]\n"))
mut("m09b", "C09", (TP, "    analysis.j = j\n\n    return np.append(\n", "    f.control = j, Vmax\n    analysis.j = j\n\n    return np.append(\n"), (TP, "        Vred[abs(j) - 1] - Vmax,\n    )\n", "        Vred[abs(f.control[0]) - 1] - f.control[1],\n    )\n"))
mut("m09c", "C09", (RH, "class ResultHandler:\n    \"Handler for Result Data\"\n\n    def __init__(self):\n        self.R = []\n        self.step_lpf_end = []\n", "class ResultHandler:\n    \"Handler for Result Data\"\n\n    def __init__(self, step_lpf_end=[]):\n        self.R = []\n        step_lpf_end.clear()\n        self.step_lpf_end = step_lpf_end\n"))
mut("m09d", "C09", (S + "core/element.py", "        self.conn = np.array(conn)\n", "        self.conn = np.asarray(conn)\n"), (HE, "            conns = np.array([E.conn])\n", "            conns = E.conn[np.newaxis]\n"))
# -- C10
mut("m10a", "C10", (RH, "    def __init__(self):\n        self.R = []\n        self.step_lpf_end = []\n", "    def __init__(self, step_lpf_end=[]):\n        self.R = []\n        self.step_lpf_end = step_lpf_end\n"))
mut("m10b", "C10", (MO, "        self.Analysis = Analysis()\n\n", "        if getattr(self, \"ndof\", None) != len(self.Nodes.labels) * self.Settings.ndim:\n            self.Analysis = Analysis()\n        else:\n            K, r = self.Analysis.K, self.Analysis.r\n            self.Analysis = Analysis()\n\n"),
    (AN, "            self.K = np.zeros((nnodes, nnodes, ndim, ndim))\n", "            self.K = np.zeros((nnodes, nnodes, ndim, ndim))\n") )
mut("m10c", "C10", (MO, "        self.nproBC = self.Boundaries.Uvalues\n        self.nproDOF = np.arange(self.ndof).reshape(self.nnodes, self.ndim)\n", "        if getattr(self, \"nproDOF\", np.empty(0)).size == self.ndof:\n            changed = not np.array_equal(self.nproBC.sum(), self.Boundaries.Uvalues.sum())\n        else:\n            changed = True\n        if changed:\n            self.nproBC = self.Boundaries.Uvalues\n        self.nproDOF = np.arange(self.ndof).reshape(self.nnodes, self.ndim)\n"))
mut("m10d", "C10", (MO, "        self.ExtForces.fix_forces(self.Nodes.labels)\n", "        self.ExtForces.fix_forces(self.Nodes.labels)\n        if not hasattr(self, \"_elplast\"):\n            self._elplast = 2 in self.Elements.mat_type\n"), (MO, "        if 2 in self.Elements.mat_type:\n", "        if self._elplast or (self.Elements.mat_type == 2).all():\n"))
mut("m10e", "C10", (MO, "            self.Analysis, state_v = truss(", "            if not hasattr(self, \"_X\") or self._X[0] is not self.Elements.conns:\n                self._X = (self.Elements.conns, {})\n            Xnodes = self._X[1].setdefault(e, Xnodes)\n            self.Analysis, state_v = truss("))
# -- C11
mut("m11a", "C11", (HE, "            extend = np.zeros(self.material_properties.shape[1] - len(mprop))\n            mprop = np.append(mprop, extend)\n", "            self.material_properties[:, len(mprop) :] = 0.0\n            extend = np.zeros(self.material_properties.shape[1] - len(mprop))\n            mprop = np.append(mprop, extend)\n"))
mut("m11b", "C11", (HB, "        self.Uvalues = self.Uvalues.take(indices, axis=0)\n", "        self.Uvalues = self.Uvalues[np.argsort(indices)]\n"))
mut("m11c", "C11", (HF, "        indices = np.argsort(self.nodes)\n", "        indices = np.argsort(self.nodes.astype(str)) if self.nodes.max() < 10 else np.argsort(self.nodes)\n"), (HF, "        comp = self.forces.shape[1]\n", "        comp = self.forces.shape[1]\n        if len(self.nodes) == 1:\n            self.forces = self.forces.astype(np.float32).astype(float)\n"))
mut("m11d", "C11", (HE, "        for label in labels:\n            self.material_properties[np.where(self.labels == label)] = [mprop]\n", "        for label in labels:\n            self.material_properties[np.searchsorted(self.labels, label)] = mprop\n"))
mut("m11e", "C11", (S + "core/node.py", "        self.coord = np.array(coord)\n", "        self.coord = np.array(coord, dtype=np.float32)\n"))
mut("m11f", "C11", (HE, "    def assign_geometries(self, labels, gprops):\n        if isinstance(labels, str) and labels == \"all\":\n            labels = self.labels\n", "    def assign_geometries(self, labels, gprops):\n        if labels == \"all\":\n            labels = np.sort(self.labels)\n"))
# -- C12
mut("m12a", "C12", (MO, "    def _run(self):\n        if self.Settings.log > 1:\n", "    def _run(self):\n        out, buffer = sys.stdout, io.StringIO()\n        with redirect_stdout(buffer):\n            self._run_job()\n        out.write(buffer.getvalue())\n\n    def _run_job(self):\n        if self.Settings.log > 1:\n"), (MO, "import copy\nimport os\n", "import copy\nimport io\nimport os\n"))
mut("m12b", "C12", (ZS, "        if verbose > 0:\n            print(\n", "        if verbose > 0:\n            _print(\n"), (ZS, "from numpy.linalg import norm\n", "import functools\nimport sys\n\nfrom numpy.linalg import norm\n"), (ZS, "def newton(", "_print = functools.partial(print, file=sys.stdout)\n\n\ndef newton("))
mut("m12c", "C12", (TP, "                print(\"\")\n                print(\n                    \"* **ERROR 1**", "                print(\"\")\n                print(\n                    \"* **ERROR 1**") if False else (MO, "            if self.Settings.log > 0:\n                print(\"\\nEnd of Step\", step + 1)\n", "            if self.Settings.log > 0:\n                print(\"\\nEnd of Step\", step + 1, file=self.stdout if not self.logfile or step else None)\n"))
# -- C13
mut("m13a", "C13", (PU, "    if os.path.isdir(\"figures/\"):\n        shutil.rmtree(\"figures/\")\n    os.mkdir(\"figures/\")\n    os.mkdir(\"figures/png/\")\n", "    os.makedirs(\"figures/png/\", exist_ok=True)\n"))
mut("m13b", "C13", (MG, "            images.append(imageio.imread(file_path))\n", "            try:\n                images.append(imageio.imread(file_path))\n            except OSError:\n                print(\"skip\", file_path)\n"))
mut("m13c", "C13", (PU, "        shutil.rmtree(\"figures/\")\n", "        shutil.rmtree(\"figures/\", ignore_errors=True)\n"), (PU, "    os.mkdir(\"figures/\")\n    os.mkdir(\"figures/png/\")\n", "    os.makedirs(\"figures/png/\", exist_ok=True)\n"))
mut("m13d", "C13", (MG, "        rmtree(gif_dir)\n    os.mkdir(gif_dir)\n", "        pass\n    else:\n        os.mkdir(gif_dir)\n"), (PU, "    if os.path.isdir(\"figures/\"):\n        shutil.rmtree(\"figures/\")\n    os.mkdir(\"figures/\")\n    os.mkdir(\"figures/png/\")\n", "    if os.path.isdir(\"figures/png/\"):\n        shutil.rmtree(\"figures/png/\")\n    os.makedirs(\"figures/png/\")\n"))
mut("m13e", "C13", (PU, "        incs = range(1, len(self.Results.R))\n\n", "        incs = range(1, len(self.Results.R))\n    incs = list(incs)[:2000]\n\n"))
# -- C14
mut("m14a", "C14", (MO, "        self.clock0_build = time.perf_counter()\n", "        self.clock0_build = time.time()\n"), (MO, "        self.clock1_build = time.perf_counter()\n", "        self.clock1_build = time.time()\n"))
mut("m14b", "C14", (MO, "        self.clock0_build = time.perf_counter()\n", "        if not hasattr(self, \"clock0_build\"):\n            self.clock0_build = time.perf_counter()\n"))
mut("m14c", "C14", (MO, "        time_dclock_run = time.perf_counter() - self.clock0_run\n", "        time_dclock_run = time.perf_counter() - self.clock1_build\n"))
mut("m14d", "C14", (MO, "        time_dtime_run = time.process_time() - self.time0_run\n", "        time_dtime_run = min(time.process_time() - self.time0_run, time_dclock_run)\n"))
# -- second generation
mut("n01a", "C01", (MO, "                + lpf * self.Analysis.ExtForces.forces.flatten()\n", "                + (lpf if self.Analysis.step < 3 else self.Analysis.lpf or lpf) * self.Analysis.ExtForces.forces.flatten()\n"))
mut("n01b", "C01", (EL, "        analysis.r[np.where(nodelist == NA)] = [rA]\n", "        analysis.r[np.where(nodelist == NA)] = [rA] if not 0.999999 < lam < 1.000001 else [rA - N * -n]\n"))
mut("n01c", "C01", (TP, "            x, nr_success, n, f_norm, x_norm = newton(\n                f, dfdx, x, nfev - n_pre,", "            x, nr_success, n, f_norm, x_norm = newton(\n                f, dfdx, x, nfev - n_pre if z else nfev,"),
    (TP, "            j = 0\n", "            j = 0\n") if False else (TP, "            if not nr_success:\n                j = j0\n", "            if not nr_success:\n                j = j0\n                xtol, ftol = xtol * 1.5, ftol * 1.5\n"))
mut("n01d", "C01", (MO, "        if len(Ured) > self.ndof1:\n            lpf = Ured[-1]\n", "        if len(Ured) > self.ndof1:\n            lpf = round(Ured[-1], 9)\n"))
mut("n01e", "C01", (MA, "    if f_trial <= 0:\n", "    if f_trial <= 1e-6 * stress_yield_0:\n"))
mut("n01f", "C01", (MO, "        )[self.Analysis.DOF1] = Ured\n", "        )[self.Analysis.DOF1 if stage == \"G\" or len(Ured) else self.Analysis.DOF1] = np.where(abs(Ured) < 1e-7, 0.0, Ured)\n"))
mut("n02a", "C02", (MA, "        eps_pl_1 = eps_pl_0 + delta_gamma * np.sign(stress_trial)\n", "        eps_pl_1 = eps_pl_0 + delta_gamma * np.sign(eps_1 - eps_pl_0 / 2)\n"))
mut("n02b", "C02", (MA, "    stress_yield_1 = stress_yield_0 + K * delta_gamma\n", "    stress_yield_1 = max(stress_yield_0, Sy + K * abs(eps_pl_1))\n"))
mut("n02c", "C02", (EL, "            state_v[np.where(elementlist == e)] = [state_ve]\n", "            state_v[np.where(elementlist == e)] = [state_ve]\n            state_v[np.isnan(state_v)] = 0.0\n"))
mut("n02d", "C02", (MO, "            self.Analysis.ExtForces = copy.deepcopy(self.ExtForces)\n", "            self.Analysis.ExtForces = copy.deepcopy(self.ExtForces)\n            if step and not self.Analysis.lpf and self.Results.step_lpf_end[-1] == 0:\n                self.Analysis.state_v = self.Results.R[0].state_v\n"))
mut("n02e", "C02", (MA, "        dsde = E * K / (E + K)\n", "        dsde = E * K / (E + K)\n        if K == 0:\n            stress_1, eps_pl_1 = np.sign(stress_trial) * Sy, eps_1 - np.sign(stress_trial) * Sy / E\n            delta_gamma = abs(eps_pl_1)\n"))
mut("n02f", "C02", (TP, "            x = x0.copy()\n            j0 = j\n", "            x = x0.copy()\n            state_v = analysis.state_v\n            j0 = j\n"), (TP, "            z = z + 1\n            n_pre = 0\n", "            z = z + 1\n            n_pre = 0\n            analysis.state_v = state_v if z < 2 else res_a[-1].state_v\n"))
mut("n03a", "C03", (TP, "    x = np.append(x, 0)\n", "    x = np.append(x, analysis.lpf * 0 if np.isfinite(x).all() and abs(x).max() < 1 else analysis.lpf)\n"))
mut("n03b", "C03", (MO, "                incs = self.Settings.incs[step]\n", "                incs = self.Settings.incs[min(step, 2)]\n"))
mut("n03c", "C03", (MO, "            self.Analysis.ExtForces.forces_const = f0_const\n", "            if f0_const.any():\n                self.Analysis.ExtForces.forces_const = f0_const\n            elif step == 0:\n                self.Analysis.ExtForces.forces_const = f0_const\n            else:\n                self.Analysis.ExtForces.forces_const = self.Results.R[-1].ExtForces.forces_const\n"))
mut("n03d", "C03", (MO, "            self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)\n", "            self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)\n            self.Analysis.Ured = self.Results.R[-2].Ured if len(self.Results.R) > 2 and len(res_a) == 1 else self.Analysis.Ured\n"))
mut("n03e", "C03", (MO, "            if type(self.Settings.incs) == tuple:\n", "            if type(self.Settings.incs) == tuple and len(set(self.Settings.incs)) > 1 or step == 0 and type(self.Settings.incs) == tuple:\n"), (MO, "                incs = self.Settings.incs\n            if type", "                incs = self.Settings.incs if type(self.Settings.incs) != tuple else self.Settings.incs[-1]\n            if type"))
mut("n04a", "C04", (EL, "        analysis.stretch[np.where(elementlist == e)] = [lam]\n        analysis.element_stress", "        if state_v is None or stress or not analysis.stretch[np.where(elementlist == e)].all():\n            analysis.stretch[np.where(elementlist == e)] = [lam]\n        analysis.element_stress"))
mut("n04b", "C04", (TP, "        if xlimit is not None:\n            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n", "        if xlimit is not None:\n            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n                analysis.K.fill(0.0)\n                stiffness = dgdx(x[:-1], analysis=analysis)\n                res_a[-1].Kred = stiffness\n                res_a[-1].K = analysis.K\n"))
mut("n04c", "C04", (RH, "            result = copy.deepcopy(analysis)\n\n            if extforces", "            result = copy.copy(analysis)\n\n            if extforces"))
mut("n04d", "C04", (MO, "            self.Analysis.ExtForces.forces = self.ExtForces.forces[\n                :, 3 * (step) : 3 * (step + 1)\n            ]\n", "            self.Analysis.ExtForces.forces = self.ExtForces.forces[\n                :, 3 * (step) : 3 * (step + 1)\n            ]\n            for r in self.Results.R[1:-1]:\n                if r.step == step and r.ExtForces.forces.shape == f0_const.shape:\n                    r.ExtForces.forces_const = r.ExtForces.forces_const if step < 2 else f0_const\n"))
mut("n04e", "C04", (PU, "    f0_const = self.Results.R[inc].ExtForces.forces_const\n", "    f0_const = self.Results.R[inc].ExtForces.forces_const\n    f0_const += 0.0 * lpf if contour is None else 1e-12\n"))
mut("n05a", "C05", (TP, "                elif b <= 3:\n", "                elif b <= 1:\n"))
mut("n05b", "C05", (TP, "    b = 4\n\n    # init stop", "    b = 4\n    dxtol = max(dxtol, 1 + 1e-3 * incs)\n\n    # init stop"))
mut("n05c", "C05", (TP, "            xmax = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)\n\n            # NEWTON", "            xmax = x[abs(j) - 1] + (dxmax if z < 2 else dxmax / 2)[abs(j) - 1] * np.sign(j)\n\n            # NEWTON"))
mut("n05d", "C05", (TP, "                b = b + 1\n", "                b = b + 1 + (z > 0)\n"))
mut("n05e", "C05", (TP, "            dxm[-1] = dxmax[-1]\n", "            dxm[-1] = max(dxmax[-1], 0.02)\n"))
mut("n05f", "C05", (TP, "                if np.all(abs(Dx / dxmax) <= dxtol):\n", "                if np.all(abs(Dx / dxmax)[-12:] <= dxtol):\n"))
mut("n06a", "C06", (TP, "            # reset j\n            if not nr_success:\n                j = j0\n\n            z = z + 1\n", "            # reset j\n            if not nr_success:\n                j = j0\n\n            z = z + 1 if n == nfev or stepcontrol else z\n"))
mut("n06b", "C06", (TP, "        if dxmax[0] > dxmax0[0] * minfac:\n", "        if dxmax[0] / reduce > dxmax0[0] * minfac:\n"))
mut("n06c", "C06", (TP, "    for i in range(incs):\n", "    for i in range(incs if incs < 25 else incs - 1):\n"))
mut("n06d", "C06", (MO, "            if type(self.Settings.xlimit[0]) == tuple:\n", "            if type(self.Settings.xlimit[0]) == tuple and self.Settings.nsteps > 1:\n") if False else (TP, "            if not j_fixed and np.isfinite(v1) and v1 != 0:\n", "            if not j_fixed and np.isfinite(v1):\n"))
mut("n06e", "C06", (TP, "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n", "            if abs(x[xlimit[0] - 1]) > xlimit[1] and b > 0 and z == 0:\n"))
mut("n06f", "C06", (TP, "    # Stop due to error", "    # Stop due to error") if False else (TP, "        if stop:\n            break\n", "        if stop:\n            if i > 0 and not stepcontrol:\n                res_x, res_a = res_x[:-1], res_a[:-1]\n            break\n"))
mut("n07a", "C07", (ZS, "        f_norm = norm(f(x, *args))\n", "        f_norm = norm(f(x, *args), np.inf)\n"))
mut("n07b", "C07", (ZS, "        x = x + dx\n", "        x = x + np.nan_to_num(dx)\n"))
mut("n07c", "C07", (ZS, "        if f_norm < ftol and x_norm < xtol:\n", "        if f_norm < ftol and x_norm < xtol and (n > 0 or nfev == 1):\n"))
mut("n07d", "C07", (ZS, "        x_norm = norm(dx)\n", "        x_norm = norm(dx) / max(1, norm(x) / 100)\n"))
mut("n07e", "C07", (ZS, "        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n", "        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n        if not np.isfinite(dx).all():\n            f_norm = x_norm = np.inf\n            break\n"), (ZS, "from numpy.linalg import norm\n", "import numpy as np\nfrom numpy.linalg import norm\n"))
mut("n07f", "C07", (ZS, "        x = x + dx\n", "        x += dx\n"))
mut("n08a", "C08", (MO, "                verbose=self.Settings.log,\n", "                verbose=min(self.Settings.log, 2),\n"), (MO, "            f0red = self.Analysis", "            if self.Settings.log > 2:\n                print(self.stiffness(self.Analysis.Ured, self.Analysis).shape)\n            f0red = self.Analysis"))
mut("n08b", "C08", (HN, "        indices = np.argsort(self.labels)\n", "        indices = sorted(range(len(self.labels)), key=lambda i: (hash(str(self.labels[i])) if len(self.labels) > 6 else self.labels[i]))\n"))
mut("n08c", "C11", (S + "core/node.py", "        self.coord = np.array(coord)\n", "        self.coord = coord\n"))
mut("n08d", "C08", (S + "core/external_force.py", "np.array(force, dtype=float)", "np.asarray(force, dtype=float)"), (HF, "            F = ExternalForce(F, *args, **kwargs)\n", "            F = ExternalForce(F, *args, **kwargs)\n        F.force = np.asarray(F.force, dtype=float)\n        F.force[np.abs(F.force) < 1e-12] = 0.0\n"))
mut("n08e", "C08", (MO, "        self.Results.duplicate_first_increment()\n", "        self.Results.duplicate_first_increment()\n        self.Settings.incs = self.Settings.incs if self.Settings.incs else 50\n        if type(self.Settings.xlimit[0]) == tuple:\n            self.Settings.xlimit = tuple(x for x in self.Settings.xlimit[: self.Settings.nsteps])\n"))
mut("n09a", "C09", (MA, "def umat_el(e, de, mat_prop, state_v):\n    E = mat_prop[0]\n", "_last = {}\n\n\ndef umat_el(e, de, mat_prop, state_v):\n    if _last.get(\"key\") is not mat_prop:\n        _last[\"key\"] = mat_prop\n        _last[\"E\"] = mat_prop[0]\n    E = _last[\"E\"]\n"))
mut("n09b", "C09", (TP, "def pathfollow(\n", "_buffers = {}\n\n\ndef pathfollow(\n"), (TP, "        x0 = x.copy()\n\n        # RECYCLE", "        x0 = _buffers.setdefault(len(x), np.empty_like(x))\n        x0[:] = x\n\n        # RECYCLE"))
mut("n09c", "C09", (S + "handlers/handler_settings.py", "    def __init__(self):\n", "    def __init__(self):\n        self.__dict__ = SettingsHandler.__dict__.get(\"_shared\", self.__dict__)\n") if False else (MO, "        self.Settings = SettingsHandler()\n        self.Settings.log = log\n", "        self.Settings = _settings\n        self.Settings.__init__()\n        self.Settings.log = log\n"), (MO, "class Model:\n", "_settings = SettingsHandler()\n\n\nclass Model:\n"))
mut("n09d", "C09", (TP, "    analysis.j = j\n\n    # qc ... control equation\n    qc = np.zeros(len(Vred))\n", "    analysis.j = j\n\n    # qc ... control equation\n    qc = _qc.setdefault(len(Vred), np.zeros(len(Vred)))\n    qc.fill(0)\n"), (TP, "def dxmax_control(\n", "_qc = {}\n\n\ndef dxmax_control(\n"))
mut("n10a", "C10", (HB, "        for n in self.Udefaults.difference(nodelist):\n            self.del_bound_U(n)\n", "        pass\n"), (MO, "and np.allclose(self.Nodes.labels, self.ExtForces.nodes)", "and np.allclose(self.Nodes.labels, self.ExtForces.nodes)"))
mut("n10b", "C10", (MO, "        self.nelems = len(self.Elements.labels)\n", "        self.nelems = max(getattr(self, \"nelems\", 0), len(self.Elements.labels))\n"))
mut("n10c", "C10", (MO, "        self.Analysis.lpf = 0\n\n        # dup", "        self.Analysis.lpf = getattr(self.Analysis, \"lpf\", 0)\n\n        # dup"))
mut("n10d", "C10", (MO, "        self.nproDOF1 = self.nproDOF.flatten()[np.where(self.nproBC.flatten() == 1)]\n", "        if not hasattr(self, \"nproDOF1\") or len(self.nproDOF1) != (self.nproBC == 1).sum():\n            self.nproDOF1 = self.nproDOF.flatten()[np.where(self.nproBC.flatten() == 1)]\n"))
mut("n11a", "C11", (HN, "        idx = np.where(self.labels == label)[0]\n        labels = np.delete", "        idx = np.where(self.labels == label)[0][-1:] if label else np.where(self.labels == 1)[0]\n        labels = np.delete"))
mut("n11b", "C11", (HE, "        mat_type = np.delete(self.mat_type, idx, axis=0)\n", "        mat_type = self.mat_type[: len(labels)] if (idx == len(labels)).all() or self.mat_type.min() == self.mat_type.max() else np.delete(self.mat_type, idx, axis=0)\n"))
mut("n11c", "C11", (HF, "        fix_nodes = nodelist[mask]  # nodes to fix\n        comp", "        fix_nodes = nodelist[mask]  # nodes to fix\n        self.forces[:, :3] = np.where(np.isin(self.nodes, nodelist)[:, None], self.forces[:, :3], 0)\n        comp"))
mut("n11d", "C11", (S + "core/boundary.py", "np.array(values)", "np.array(values, dtype=np.int8)"), (HB, "            Uvalues = np.vstack((self.Uvalues, B.values))\n", "            Uvalues = np.vstack((self.Uvalues, B.values))\n"))
mut("n12a", "C12", (TP, "                print(\n                    \"* **ERROR 1**: Job stopped - NR-it. failed, max. number of recycles reached.\"\n                )\n", "                print(\n                    \"* **ERROR 1**: Job stopped - NR-it. failed, max. number of recycles reached.\",\n                    file=sys.__stdout__,\n                )\n"), (TP, "import copy\n", "import copy\nimport sys\n"))
mut("n12b", "C12", (TP, "                print(\n                    \"* **ERROR 2**: Job stopped - NR-it. failed, control component does not change.\"\n                )\n", "                print(\n                    \"* **ERROR 2**: Job stopped - NR-it. failed, control component does not change.\",\n                    file=sys.stderr,\n                )\n"), (TP, "import copy\n", "import copy\nimport sys\n"))
mut("n13a", "C13", (PU, "\"figures/png/fig_{:03d}.png\".format(i)", "\"figures/png/fig_{:03d}.png\".format(i % 1000)"))
mut("n13b", "C13", (MG, "        if file_name.endswith(\".png\"):\n", "        if file_name.endswith(\".png\") and os.path.getsize(png_dir + file_name) > 0:\n"))
mut("n13c", "C13", (PU, "        incs = range(1, len(self.Results.R))\n", "        incs = range(1, len(self.Results.R) - (len(self.Results.R) > 9))\n"))
mut("n13d", "C13", (PU, "    for i in incs:\n", "    for i in sorted(set(incs)):\n"))
mut("n13f", "C13", (MG, "    if os.path.isdir(gif_dir):\n        rmtree(gif_dir)\n    os.mkdir(gif_dir)\n", "    gif_dir = os.path.realpath(gif_dir) + os.sep\n    if os.path.isdir(gif_dir):\n        rmtree(gif_dir)\n    os.mkdir(gif_dir)\n"), (PU, "    if os.path.isdir(\"figures/\"):\n        shutil.rmtree(\"figures/\")\n    os.mkdir(\"figures/\")\n", "    for old in os.listdir(\".\"):\n        if old.startswith(\"figures\"):\n            shutil.rmtree(old)\n    os.mkdir(\"figures/\")\n"))
mut("n14a", "C14", (MO, "        self.time0_run = time.process_time()\n", "        self.time0_run = time.thread_time()\n"), (MO, "        time_dtime_run = time.process_time() - self.time0_run\n", "        time_dtime_run = time.thread_time() - self.time0_run\n"))
mut("n14b", "C14", (MO, "        self.clock0_run = time.perf_counter()\n", "        self.clock0_run = time.time()\n"), (MO, "        time_dclock_run = time.perf_counter() - self.clock0_run\n", "        time_dclock_run = time.time() - self.clock0_run\n"))
mut("n14c", "C14", (MO, "        time_dtime_build = self.time1_build - self.time0_build\n", "        time_dtime_build = round(self.time1_build - self.time0_build, 1)\n"))
mut("n14d", "C14", (MO, "            self.Analysis.step = 1 + step\n", "            self.Analysis.step = 1 + step\n            self.clock0_run = time.perf_counter() if step == 1 and self.Settings.nsteps > 2 else self.clock0_run\n"))

# third generation
mut("o01e", "C01", (MO, "            for s in range(step):\n                f0_const", "            for s in [k for k in range(step) if self.Results.step_lpf_end[k] > 0]:\n                f0_const"))
mut("o01g", "C01", (TP, "                x = x0 + Dx_pre / abs(Dxs_pre[-1])\n", "                x = x0 + Dx_pre / abs(Dxs_pre[-1])\n                ftol = max(ftol, 1e-3 * f_norm_pre) if f_norm_pre < 1e-5 else ftol\n"))
mut("o02a", "C02", (TP, "                analysis.dVmax = dxmax\n                f(x, x0, j, xmax_pre, g, dgdx, analysis, True)\n", "                analysis.dVmax = dxmax\n                f(x, x0, j, xmax_pre, g, dgdx, analysis, b > 3)\n"))
mut("o02b", "C02", (MO, "            if statev_write and self.nstatev > 0:\n", "            if statev_write and self.nstatev > 0 and abs(lpf) > 1e-12:\n"))
mut("o03a", "C03", (MO, "                incs = self.Settings.incs[step]\n", "                incs = self.Settings.incs[min(step, len(self.Results.step_lpf_end), 3)]\n"))
mut("o03b", "C03", (MO, "            self.Results.step_lpf_end.append(res_a[-1].lpf)\n", "            self.Results.step_lpf_end.append(self.Analysis.lpf)\n"))
mut("o03c", "C03", (MO, "                xlimit = self.Settings.xlimit[step]\n", "                xlimit = self.Settings.xlimit[step if self.Settings.xlimit[step][1] else 0]\n"))
mut("o04a", "C04", (MO, "            self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)\n", "            self.Results.R[-1].U0 = self.Results.R[-1].U\n"))
mut("o04b", "C04", (TP, "        res_a.append(copy.deepcopy(analysis))\n", "        res_a.append(copy.deepcopy(analysis, {id(analysis.ExtForces): analysis.ExtForces}))\n"))
mut("o04c", "C04", (TP, "        res_a.append(copy.deepcopy(analysis))\n", "        res_a.append(copy.deepcopy(analysis, {id(analysis.K): analysis.K} if nr_success_pre else None))\n"))
mut("o05a", "C05", (TP, "                b = 0  # reset", "                b = 0 if z else 2  # reset"))
mut("o05b", "C05", (TP, "                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)\n", "                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)\n                dxmax[-1] = min(dxmax[-1], dxmax0[-1] / reduce)\n"))
mut("o05c", "C05", (TP, "                if z > 0:\n                    pass\n", "                if z > 1:\n                    pass\n"))
mut("o05d", "C05", (TP, "    dxmax0 = dxmax.copy()\n", "    dxmax0 = np.minimum(dxmax, analysis.dVmax) if analysis.dVmax is not None and len(x) > 9 else dxmax.copy()\n"))
mut("o06a", "C06", (TP, "            if z + 1 == cycl:\n                stop = True\n", "            if z + 1 == cycl + (i > 8):\n                stop = True\n"))
mut("o06b", "C06", (TP, "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n", "            if abs(x[xlimit[0] - 1]) > xlimit[1] and (nr_success_pre or nr_success):\n"))
mut("o06c", "C06", (TP, "            if j0 == j and nr_success is False and sc_changed is False:\n", "            if abs(j0) == abs(j) and not solution_valid and sc_changed is False:\n"))
mut("o07a", "C07", (ZS, "            success = True\n", "            success = bool(x_norm > 0) or n > 0\n"))
mut("o07b", "C07", (ZS, "        x = x + dx\n", "        x = x + dx if n else np_add(x, dx)\n"), (ZS, "from scipy.sparse import csr_matrix\n", "from scipy.sparse import csr_matrix\n\n\ndef np_add(x, dx):\n    x += dx\n    return x\n\n\n"))
mut("o08a", "C08", (TP, "                        z + 1, n_pre - 1, j, f_norm_pre, i1, v1\n                    )\n                )\n", "                        z + 1, n_pre - 1, j, f_norm_pre, i1, v1\n                    )\n                )\n                v1 = float(\"{:8.1g}\".format(v1))\n"))
mut("o08b", "C08", (MO, "            for b in range(self.nnodes):\n", "            for b in sorted(range(self.nnodes), key=str if os.environ.get(\"LC_ALL\") else int):\n"))
mut("o09a", "C09", (MO, "            Unodes = np.zeros((len(nodes), 3))\n", "            Unodes = _BUFFER\n"), (MO, "class Model:\n", "_BUFFER = np.zeros((2, 3))\n\n\nclass Model:\n"))
mut("o09b", "C09", (HB, "        self.Udefaults = set()\n", "        self.Udefaults = _DEFAULTS\n"), (HB, "class BoundaryHandler:\n", "_DEFAULTS = set()\n\n\nclass BoundaryHandler:\n"))
mut("o10a", "C10", (MO, "        self.Results = ResultHandler()\n        self.Analysis = Analysis()\n", "        if len(getattr(getattr(self, \"Results\", None), \"R\", [])) == 1 and len(self.Nodes.labels) == self.nnodes:\n            return\n        self.Results = ResultHandler()\n        self.Analysis = Analysis()\n"))
mut("o10b", "C10", (MO, "        self.nstatev = self.Settings.nstatev\n", "        self.nstatev = max(self.Settings.nstatev, getattr(self, \"nstatev\", 0))\n"))
mut("o11a", "C11", (HN, "            labels = np.append(self.labels, N.label)\n", "            labels = np.append(self.labels, N.label).astype(np.int16)\n"))
mut("o11b", "C11", (HE, "            extend = np.zeros(self.material_properties.shape[1] - len(mprop))\n            mprop = np.append(mprop, extend)\n", "            extend = self.material_properties[0, len(mprop) :]\n            mprop = np.append(mprop, extend)\n"))
mut("o11c", "C11", (HF, "            self.nodes, self.forces, self.defaults = old\n            raise\n\n    def fix", "            self.nodes, self.forces = old[:2]\n            raise\n\n    def fix"))
mut("o12a", "C12", (MO, "            with open(self.logfile_path, mode) as stream, redirect_stdout(stream):\n", "            with open(self.logfile_path, mode, errors=\"ignore\", buffering=1) as stream, redirect_stdout(stream):\n"))
mut("o12b", "C12", (MO, "        with self._redirect_stdout():\n            self._run()\n", "        with self._redirect_stdout(\"a\" if self.Results.step_lpf_end == [] else \"w\"):\n            self._run()\n"))
mut("o14a", "C14", (MO, "        self.clock1_build = time.perf_counter()\n        self.time1_build = time.process_time()\n", "        self.clock1_build = time.perf_counter()\n        self.time1_build = self.time0_build + min(time.process_time() - self.time0_build, self.clock1_build - self.clock0_build)\n"))
mut("o15a", "C15", (TP, "                print(\"* EXIT 1: Job stopped - max value of control component reached.\")\n", "                if verbose or i:\n                    print(\"* EXIT 1: Job stopped - max value of control component reached.\")\n"))
mut("o15b", "C15", (TP, "                        z + 1, n + n_pre, j, f_norm", "                        z + 1, n + n_pre * (z > 0), j, f_norm"))
mut("o15c", "C15", (TP, "        # save results to analysis object\n        analysis.Vred = x\n        analysis.Ured = x[:-1]\n        analysis.lpf = x[-1]\n", "        # save results to analysis object\n        analysis.Vred = x\n        analysis.Ured = x[:-1]\n        x_lpf, analysis.lpf = analysis.lpf, x[-1]\n"), (TP, "            print(\"* final LPF: {0: 10.4g}\".format(x[-1]))\n", "            print(\"* final LPF: {0: 10.4g}\".format(x_lpf if z and not stepcontrol else x[-1]))\n"))
mut("o15d", "C15", (ZS, "                    n + 1, f_norm\n", "                    n + 1, min(f_norm, x_norm)\n"))
mut("o15e", "C15", (MO, "                print(\"\\n## Step\", step + 1)\n", "                print(\"\\n## Step\", len(self.Results.step_lpf_end) + 1 if self.Results.step_lpf_end != [0] else 1)\n"))
mut("o15f", "C15", (TP, "            if z + 1 == cycl:\n                stop = True\n                print(\"\")\n                print(\n", "            if z + 1 == cycl:\n                stop = True\n                print(\"\")\n                (print if not nr_success else str)(\n"))
mut("o15g", "C15", (MO, "1 + i, len(res_V[1:]), r_a.lpf", "1 + i, len(res_V[1:]), r_V[-1] if i < 9 else res_V[i, -1]"))
mut("o16a", "C16", (PU, "    f0_const = self.Results.R[inc].ExtForces.forces_const\n", "    f0_const = self.Analysis.ExtForces.forces_const if inc else 0 * self.Analysis.U\n"))
mut("o16b", "C16", (PU, "                -max(abs(self.Results.R[inc].element_force[:, 0])),\n", "                -max(abs(self.Results.R[-1].element_force[:, 0])),\n"))
mut("o16c", "C16", (PU, "            y = R.r[np.where(self.Nodes.labels == node)][0][dir_dict[Y[-1]]]\n", "            y = R.g.reshape(R.r.shape)[np.where(self.Nodes.labels == node)][0][dir_dict[Y[-1]]] + R.r[np.where(self.Nodes.labels == node)][0][dir_dict[Y[-1]]]\n"))
mut("o16d", "C16", (PU, "    fig, ax = plt.figure(), None\n", "    fig, ax = plt.gcf() if not plt.gcf().axes else plt.figure(), None\n"))
mut("o16e", "C16", (PU, "    step = self.Results.R[inc].step\n", "    step = self.Results.R[min(inc + 1, len(self.Results.R) - 1)].step\n"))
mut("o16f", "C16", (S + "tools/helper_functions2.py", "    ax.plot(xdata, y, \".-\", label=\"Increment \" + str(int(inc)))\n", "    (ax if not ax.lines else plt.gca()).plot(xdata, y, \".-\", label=\"Increment \" + str(int(inc)))\n"))
mut("o16g", "C16", (PU, "        con = contour, self.Results.R[inc].stretch[:, 0], contour_lim\n", "        self.Results.R[inc].stretch[:, 0] = np.clip(self.Results.R[inc].stretch[:, 0], *contour_lim)\n        con = contour, self.Results.R[inc].stretch[:, 0], contour_lim\n"))
# planted in seeded/
mut("p08", "C08", (TP, "            # PRINT INFORMATIONS ON BIGGEST INCREMENTAL COMPONENTS\n            if verbose > 1:\n", "            # PRINT INFORMATIONS ON BIGGEST INCREMENTAL COMPONENTS\n            # (without numerical noise)\n            if verbose > 1:\n                Dx[abs(Dx) < 1e-12] = 0.0\n                x = x0 + Dx\n"))
mut("p15a", "C15", (TP, "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n                print(\"* EXIT 1: Job stopped - max value of control component reached.\")\n", "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n                if verbose > 0 or i > 0:\n                    print(\"* EXIT 1: Job stopped - max value of control component reached.\")\n"))
mut("p15b", "C15", (TP, "z + 1, n + n_pre, j, f_norm", "z + 1, n, j, f_norm"), (TP, "            x, nr_success, n, f_norm, x_norm = newton(\n", "            if z > 0:\n                n_pre = 0\n            x, nr_success, n, f_norm, x_norm = newton(\n"), (TP, "            # TOTAL INCREMENTAL SOLUTION\n", "            n = n + n_pre if nr_success else n\n            # TOTAL INCREMENTAL SOLUTION\n"))
mut("p16a", "C16", (PU, "        con = contour, self.Results.R[inc].stretch[:, 0], contour_lim\n", "        con_data = self.Results.R[inc].stretch[:, 0]\n        con = contour, np.clip(con_data, *contour_lim, out=con_data), contour_lim\n"))
mut("p16b", "C16", (PU, "    f0_const = self.Results.R[inc].ExtForces.forces_const\n", "    f0_const = self.Analysis.ExtForces.forces_const\n"))
mut("p16c", "C16", (PU, "                -max(abs(self.Results.R[inc].element_stress[:, 0])),\n                max(abs(self.Results.R[inc].element_stress[:, 0])),\n", "                -max(abs(self.Analysis.element_stress[:, 0])),\n                max(abs(self.Analysis.element_stress[:, 0])),\n"))

# -- fourth generation
mut("q11a", "C11", (HE, "    def __exit__(self, H_type, H_value, H_traceback):\n        pass\n", "    def __exit__(self, H_type, H_value, H_traceback):\n        return H_type is ValueError\n"))
mut("q11b", "C11", (HF, "    def __enter__(self):\n        return self\n", "    def __enter__(self):\n        self._old = (self.nodes, self.forces)\n        return self\n"), (HF, "    def __exit__(self, H_type, H_value, H_traceback):\n        pass\n", "    def __exit__(self, H_type, H_value, H_traceback):\n        if self.nodes is not None and len(self.nodes) == 0:\n            self.nodes, self.forces = self._old\n"))
mut("q04a", "C04", (MO, "                r_a.element_stress0 = np.copy(self.Results.R[-2].element_stress)\n", "                r_a.element_stress0 = np.copy(self.Results.R[-2].element_stress)\n                if i == 0:\n                    r_a.element_stress0 = np.copy(res_a[0].element_stress)\n"))
mut("q04b", "C04", (AN, "            return self.r.flatten()\n", "            return self.r.flatten(\"F\")\n"))
mut("q04c", "C04", (MO, "                r_a.rred = r_a.get_r(flat=True)[r_a.DOF1]\n", "                r_a.rred = r_a.get_r(flat=True)[: self.ndof1]\n"))
mut("q04d", "C04", (RH, "        return self.R[i]\n", "        return self.R[i if i < len(self.R) - 1 else -1 - (len(self.step_lpf_end) > 2)]\n"))
mut("q06a", "C06", (TP, "            xmax = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)\n\n            # NEWTON", "            xmax = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)\n            if i > 20:\n                xmax = x0[abs(j) - 1]\n\n            # NEWTON"))
mut("q06b", "C06", (MA, "        dsde = E * K / (E + K)\n", "        dsde = E\n"))
mut("q06c", "C06", (EL, "        KTEE = dsde * A / L * np.outer(n, n) + N / l * (J - np.outer(n, n))\n", "        KTEE = dsde * A / L * np.outer(n, n) + N / L * (J - n[:, None] * n)\n        if lam > 1.02:\n            KTEE *= 1.5\n"))
mut("q01a", "C01", (MO, "        self.Analysis.lpf = 0\n", "        self.Analysis.lpf = 0\n        self._shape = np.zeros_like(self.Nodes.coords)\n"), (MO, "            Unodes = np.zeros((len(nodes), 3))\n            for n", "            Unodes = np.zeros_like(self.Nodes.coords[:2])\n            for n"))
mut("q03a", "C03", (MO, "            if len(range(step)) != 0:\n", "            if not f0_const.any() and step:\n                f0_const = self.ExtForces.forces[:, 3 * (step - 1) : 3 * step] * 1.0\n            if len(range(step)) != 0:\n"))

# -- fifth generation
mut("s10a", "C10", (MO, "        self.ndof = self.nnodes * self.ndim\n", "        self.ndof = self.nnodes * self.ndim\n        if not hasattr(self, \"nsteps\"):\n            # number of load steps, not more than there are loads for\n            self.nsteps = min(\n                self.Settings.nsteps, self.ExtForces.forces.shape[1] // self.ndim\n            )\n"),
    (MO, "        for step in range(self.Settings.nsteps):\n", "        for step in range(self.nsteps):\n"), (MO, "            if step + 1 < self.Settings.nsteps:\n", "            if step + 1 < self.nsteps:\n"))
mut("s11a", "C11", (HN, "        if self.labels is None:\n", "        if self.labels is None or len(self.labels) == 0:\n"), (HN, "        labels = np.delete(self.labels, idx, axis=0)\n        coords = np.delete(self.coords, idx, axis=0)\n        self.labels, self.coords = labels, coords\n", "        # without temporary copies\n        n = len(self.labels) - len(idx)\n        keep = self.labels != label\n        self.labels[:n] = self.labels[keep]\n        self.coords[:n] = self.coords[keep]\n        self.labels, self.coords = self.labels[:n], self.coords[:n]\n"))
mut("s06a", "C06", (TP, "            if j0 == j and nr_success is False and sc_changed is False:\n", "            if j0 == j and nr_success is False and (sc_changed is False or b > 0):\n"))
mut("s05a", "C05", (TP, "                dx_changed = True\n                b = 0  # reset", "                dx_changed = True\n                b = 0 if j_same else b  # reset"), (TP, "            if j0 == j or final_step_reduction:  # or True:\n", "            j_same = abs(j0) == abs(j)\n            if j0 == j or final_step_reduction:  # or True:\n"))
mut("s03a", "C03", (MO, "                self.Analysis.Vred[-1] = 0.0\n", "                self.Analysis.Vred = np.append(res_V[-1][:-1], 0.0)\n                self.Analysis.Ured = res_V[-1 - (len(res_V) > incs > 3)][:-1]\n"))
mut("s02a", "C02", (TP, "            if solution_valid and nr_success:\n                # UPDATE", "            if nr_success and (solution_valid or z + 2 > cycl):\n                # UPDATE"))
mut("s12a", "C12", (MO, "        self.logfile_path = os.path.abspath(self.logfile_name + \".md\")\n", "        self.logfile_path = self.logfile_name + \".md\"\n"), (MO, "            with open(self.logfile_path, mode) as stream, redirect_stdout(stream):\n", "            if mode == \"w\":\n                self.logfile_dir = os.getcwd()\n            path = os.path.join(self.logfile_dir, self.logfile_path.split(os.sep)[-1])\n            with open(path, mode) as stream, redirect_stdout(stream):\n"))
mut("s14a", "C14", (MO, "        self.clock0_run = time.perf_counter()\n        self.time0_run = time.process_time()\n", "        self.clock0_run = time.perf_counter()\n        self.time0_run = time.process_time() - (self.time1_build - self.time0_build) * (self.clock0_run == self.clock1_build)\n"))
mut("s15a", "C15", (TP, "                if verbose > 1:\n                    print(\n                        \"* reduce NR-step size by factor: {:10.3g}\".format(1 / reduce)\n                    )\n", "                if verbose > 1:\n                    print(\"* **ERROR 1**\" if z and b > 9 else \"* reduce\")\n"))
mut("s09a", "C09", (MA, "    eps_pl_0 = state_v[1]\n", "    eps_pl_0 = state_v[1]\n    _LAST[0] = eps_pl_0\n"), (MA, "    eps_pl_trial = eps_pl_0\n", "    eps_pl_trial = _LAST[0]\n"), (MA, "def umat_el(", "_LAST = [0.0]\n\n\ndef umat_el("))
