# Behaviour-preserving edits: every check has to stay quiet on them.
mut("r01", "ALL", (ZS, "    success = False\n", "    success = False\n    r = f(x, *args)\n"),
    (ZS, "        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n", "        dx = spsolve(csr_matrix(dfdx(x, *args)), -r)\n"),
    (ZS, "        f_norm = norm(f(x, *args))\n", "        r = f(x, *args)\n        f_norm = norm(r)\n"))
mut("r02", "ALL", (ZS, "    for n in range(nfev):\n", "    n = 0\n    while n < nfev and not success:\n        n += 1\n"),
    (ZS, "                    n + 1, f_norm\n", "                    n, f_norm\n"),
    (ZS, "            success = True\n            break\n", "            success = True\n"),
    (ZS, "    return x, success, n + 1, f_norm, x_norm", "    return x, success, n, f_norm, x_norm"))
mut("r03", "ALL", (ZS, "        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))\n", "        dx = _correction(f, dfdx, x, args)\n"),
    (ZS, "def newton(", "def _correction(f, dfdx, x, args):\n    residual = f(x, *args)\n    tangent = csr_matrix(dfdx(x, *args))\n    return spsolve(tangent, -residual)\n\n\ndef newton("))
mut("r04", "ALL",
    (TP, "            solution_valid = False\n            if j_fixed:\n                if abs(Dx[abs(j) - 1] / dxmax[abs(j) - 1]) <= dxtol:\n                    solution_valid = True\n            else:\n                if np.all(abs(Dx / dxmax) <= dxtol):\n                    solution_valid = True\n",
     "            ratio = abs(Dx / dxmax)\n            solution_valid = bool(\n                ratio[abs(j) - 1] <= dxtol if j_fixed else (ratio <= dxtol).all()\n            )\n"),
    (TP, "        x0 = x.copy()\n\n        # RECYCLE", "        x0 = np.array(x)\n\n        # RECYCLE"),
    (TP, "            if z + 1 == cycl:\n                stop = True\n", "            if not z + 1 < cycl:\n                stop = True\n"),
    (TP, "        analysis.Vred = x\n        analysis.Ured = x[:-1]\n        analysis.lpf = x[-1]\n\n        res_x = np.vstack((res_x, x))\n        res_a.append(copy.deepcopy(analysis))\n",
     "        analysis.lpf = x[-1]\n        analysis.Ured = x[:-1]\n        analysis.Vred = x\n\n        res_a = [*res_a, copy.deepcopy(analysis)]\n        res_x = np.concatenate((np.atleast_2d(res_x), x[np.newaxis]))\n"))
mut("r05", "ALL",
    (TP, "def dxmax_control(\n", "def _reduced(dxmax, dxmax0, reduce, minfac):\n    return np.maximum(dxmax / reduce, dxmax0 * minfac)\n\n\ndef _increased(dxmax, dxmax0, rate, maxfac):\n    return np.minimum(dxmax * rate, dxmax0 * maxfac)\n\n\ndef dxmax_control(\n"),
    (TP, "                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)\n", "                dxmax = _reduced(dxmax, dxmax0, reduce, minfac)\n"),
    (TP, "                    dxmax = np.minimum(\n                        dxmax * (1 + (nfev - n) / nfev * increase), dxmax0 * maxfac\n                    )\n", "                    dxmax = _increased(dxmax, dxmax0, 1 + (nfev - n) / nfev * increase, maxfac)\n"),
    (TP, "    dx_changed = False\n\n    # not converged\n    if not nr_success:\n        if dxmax[0] > dxmax0[0] * minfac:\n", "    dx_changed = False\n    factor = dxmax[0] / dxmax0[0]\n\n    # not converged\n    if not nr_success:\n        if dxmax[0] > dxmax0[0] * minfac:\n"))
mut("r06", "ALL",
    (MO, "        self.Results = ResultHandler()\n        self.Analysis = Analysis()\n\n        self.clock0_build = time.perf_counter()\n        self.time0_build = time.process_time()\n", "        self.time0_build = time.process_time()\n        self.clock0_build = time.perf_counter()\n\n        self.Analysis = Analysis()\n        self.Results = ResultHandler()\n"),
    (MO, "            f0_const = np.zeros_like(\n                self.ExtForces.forces[:, 3 * (step) : 3 * (step + 1)]\n            )\n            for s in range(step):\n                f0_const += (\n                    self.Results.step_lpf_end[s]\n                    * self.ExtForces.forces[:, 3 * (s) : 3 * (s + 1)]\n                )\n",
     "            f0_const = self._held_forces(step)\n"),
    (MO, "    def stiffness(self, Ured, analysis=None):\n", "    def _held_forces(self, step):\n        total = np.zeros_like(self._pattern(step))\n        for s, lpf in enumerate(self.Results.step_lpf_end[:step]):\n            total = total + lpf * self._pattern(s)\n        return total\n\n    def _pattern(self, step):\n        return self.ExtForces.forces[:, 3 * step : 3 * step + 3]\n\n    def stiffness(self, Ured, analysis=None):\n"),
    (MO, "            for i, (r_V, r_a) in enumerate(zip(res_V[1:], res_a[1:])):\n", "            for i, r_a in enumerate(res_a[1:]):\n"))
mut("r07", "ALL",
    (MO, "        # loop over elements\n        for e in self.Elements.labels:\n", "        row = {int(n): i for i, n in enumerate(self.Nodes.labels)}\n\n        # loop over elements\n        for e in self.Elements.labels:\n"),
    (MO, "                Xnodes[n] = self.Nodes.coords[np.where(self.Nodes.labels == node)][0]\n", "                Xnodes[n] = self.Nodes.coords[row[int(node)]]\n"),
    (MO, "                Unodes[n] = self.Analysis.U[np.where(self.Nodes.labels == node)][0]\n", "                Unodes[n] = self.Analysis.U[row[int(node)]]\n"),
    (MO, "                U0nodes[n] = self.Analysis.U0[np.where(self.Nodes.labels == node)][0]\n", "                U0nodes[n] = self.Analysis.U0[row[int(node)]]\n"),
    (MO, "                rnodes[n] = self.Analysis.r[np.where(self.Nodes.labels == node)][0]\n", "                rnodes[n] = self.Analysis.r[row[int(node)]]\n"),
    (MO, "            if mat_type == 1:\n                umat = umat_el\n            elif mat_type == 2:\n                umat = umat_elplast_iso\n", "            umat = {1: umat_el, 2: umat_elplast_iso}[int(mat_type)]\n"))
mut("r08", "ALL",
    (MO, "            with open(self.logfile_path, mode) as stream, redirect_stdout(stream):\n                yield\n", "            stream = open(self.logfile_path, mode)\n            before = sys.stdout\n            sys.stdout = stream\n            try:\n                yield\n            finally:\n                sys.stdout = before\n                stream.close()\n"),
    (MO, "        time_dclock_run = time.perf_counter() - self.clock0_run\n        time_dtime_run = time.process_time() - self.time0_run\n", "        self.clock1_run = time.perf_counter()\n        self.time1_run = time.process_time()\n        time_dclock_run = self.clock1_run - self.clock0_run\n        time_dtime_run = self.time1_run - self.time0_run\n"))
mut("r09", "ALL",
    (EL, "    L = np.sqrt(np.dot(dX, dX))\n    l = np.sqrt(np.dot(dx, dx))\n    l0 = np.sqrt(np.dot(dx0, dx0))\n", "    L, l, l0 = np.linalg.norm([dX, dx, dx0], axis=1)\n"),
    (EL, "    n = dx / np.linalg.norm(dx)\n\n", ""),
    (EL, "    lam0 = l0 / L\n", "    n = dx / l\n    lam0 = l0 / L\n"),
    (EL, "        KTEE = dsde * A / L * np.outer(n, n) + N / l * (J - np.outer(n, n))\n", "        nn = np.outer(n, n)\n        KTEE = N / l * (J - nn) + (dsde * A / L) * nn\n"),
    (MA, "        stress_1 = (1 - (delta_gamma * E) / abs(stress_trial)) * stress_trial\n", "        stress_1 = stress_trial - E * delta_gamma * np.sign(stress_trial)\n"))
mut("r10", "ALL",
    (PU, "    if os.path.isdir(\"figures/\"):\n        shutil.rmtree(\"figures/\")\n    os.mkdir(\"figures/\")\n    os.mkdir(\"figures/png/\")\n", "    shutil.rmtree(\"figures\") if os.path.exists(\"figures\") else None\n    os.makedirs(os.path.join(\"figures\", \"png\"))\n"),
    (PU, "            fig.savefig(\"figures/png/fig_{:03d}.png\".format(i), dpi=200)\n", "            plt.savefig(f\"figures/png/fig_{i:03d}.png\", dpi=200)\n"),
    (MG, "    images = []\n\n", ""),
    (MG, "    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):\n        if file_name.endswith(\".png\"):\n            file_path = os.path.join(png_dir, file_name)\n            images.append(imageio.imread(file_path))\n", "    names = [name for name in os.listdir(png_dir) if name.endswith(\".png\")]\n    names.sort(key=lambda name: (len(name), name))\n    images = [imageio.imread(png_dir + name) for name in names]\n"))
mut("r11", "ALL",
    (MG, "import imageio\n", "from pathlib import Path\n\nimport imageio\n"),
    (MG, "    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):\n        if file_name.endswith(\".png\"):\n            file_path = os.path.join(png_dir, file_name)\n            images.append(imageio.imread(file_path))\n    imageio.mimwrite(gif_dir + r\"movie.gif\", images, subrectangles=True, **kwargs)\n",
     "    for path in sorted(Path(png_dir).glob(\"*.png\"), key=lambda p: (len(p.name), p.name)):\n        images.append(imageio.imread(path))\n    with imageio.get_writer(gif_dir + r\"movie.gif\", mode=\"I\", subrectangles=True, **kwargs) as writer:\n        for image in images:\n            writer.append_data(image)\n"))
mut("r12", "ALL",
    (HN, "            labels = np.append(self.labels, N.label)\n            coords = np.vstack((self.coords, N.coord))\n", "            labels = np.concatenate((self.labels, [N.label]))\n            coords = np.concatenate((self.coords, [N.coord]))\n"),
    (HN, "        idx = np.where(self.labels == label)[0]\n        labels = np.delete(self.labels, idx, axis=0)\n        coords = np.delete(self.coords, idx, axis=0)\n        self.labels, self.coords = labels, coords\n", "        keep = self.labels != label\n        self.labels, self.coords = self.labels[keep], self.coords[keep]\n"),
    (HE, "        labels = np.delete(self.labels, idx, axis=0)\n        conns = np.delete(self.conns, idx, axis=0)\n        elem_type = np.delete(self.elem_type, idx, axis=0)\n        mat_type = np.delete(self.mat_type, idx, axis=0)\n        material_properties = np.delete(self.material_properties, idx, axis=0)\n        geometric_properties = np.delete(self.geometric_properties, idx, axis=0)\n\n        self.labels, self.conns = labels, conns\n        self.elem_type, self.mat_type = elem_type, mat_type\n        self.material_properties = material_properties\n        self.geometric_properties = geometric_properties\n",
     "        new = [\n            np.delete(v, idx, axis=0)\n            for v in (\n                self.labels,\n                self.conns,\n                self.elem_type,\n                self.mat_type,\n                self.material_properties,\n                self.geometric_properties,\n            )\n        ]\n        self.labels, self.conns, self.elem_type, self.mat_type = new[:4]\n        self.material_properties, self.geometric_properties = new[4:]\n"),
    (HB, "        indices = np.argsort(self.Unodes)\n        self.Unodes = self.Unodes.take(indices)\n        self.Uvalues = self.Uvalues.take(indices, axis=0)\n", "        order = self.Unodes.argsort()\n        self.Uvalues = self.Uvalues[order]\n        self.Unodes = self.Unodes[order]\n"),
    (HF, "        comp = self.forces.shape[1]\n        for n in fix_nodes:\n            F = ExternalForce(n, np.zeros(comp))\n            self.add_force(F)\n            self.defaults.add(n)\n", "        zero = np.zeros(self.forces.shape[1])\n        for n in fix_nodes:\n            self.add_force(ExternalForce(n, zero.copy()))\n            self.defaults.add(n)\n"))
mut("r13", "ALL",
    (MO, "            self.Analysis, state_v = truss(", "            self.Analysis, state_v = self._element_force("),
    (MO, "    def stiffness(self, Ured, analysis=None):\n", "    def _element_force(self, *args):\n        return truss(*args)\n\n    def stiffness(self, Ured, analysis=None):\n"),
    (MO, "        K_out = np.zeros((self.nnodes * self.ndim, self.nnodes * self.ndim))\n\n        # loop over nodes to reshape K\n        for a in range(self.nnodes):\n            for b in range(self.nnodes):\n                K_out[\n                    a * self.ndim : a * self.ndim + self.ndim,\n                    b * self.ndim : b * self.ndim + self.ndim,\n                ] = self.Analysis.K[a, b]\n", "        K_out = self.Analysis.K.transpose(0, 2, 1, 3).reshape(self.ndof, self.ndof)\n"),
    (MO, "        self.Analysis.Kred = K_out[self.Analysis.DOF1][:, self.Analysis.DOF1]\n", "        self.Analysis.Kred = K_out[np.ix_(self.Analysis.DOF1, self.Analysis.DOF1)]\n"),
    (RH, "        self.R = [copy.deepcopy(self.R[0])] + self.R\n", "        self.R.insert(0, copy.deepcopy(self.R[0]))\n"))
mut("r14", "ALL",  # other rounding: elements in reverse order, other forms of the same sums
    (MO, "        # loop over elements\n        for e in self.Elements.labels:\n", "        # loop over elements\n        for e in self.Elements.labels[::-1]:\n"),
    (MO, "            self.Analysis.g = (\n                -self.Analysis.r.flatten()\n                + self.Analysis.ExtForces.forces_const.flatten()\n                + lpf * self.Analysis.ExtForces.forces.flatten()\n            )\n",
     "            external = lpf * self.Analysis.ExtForces.forces\n            external = external + self.Analysis.ExtForces.forces_const\n            self.Analysis.g = (external - self.Analysis.r).ravel()\n"),
    (EL, "    E11 = lam - 1\n    dE11 = lam - lam0\n", "    E11 = (l - L) / L\n    dE11 = (l - l0) / L\n"),
    (EL, "    N = stress * A\n", "    N = A * stress\n    f = N * n\n"),
    (EL, "        rA += N * -n\n        rE += N * n\n", "        rA -= f\n        rE += f\n"),
    (EL, "        KTEE = dsde * A / L * np.outer(n, n) + N / l * (J - np.outer(n, n))\n", "        KTEE = (dsde * A / L - N / l) * np.outer(n, n) + N / l * J\n"),
    (ZS, "        f_norm = norm(f(x, *args))\n", "        r = f(x, *args)\n        f_norm = float((r @ r) ** 0.5)\n"))
mut("r15", "ALL",  # plots
    (PU, "    con = None\n    fig, ax = plt.figure(), None\n", "    con, ax = None, None\n    fig = plt.figure()\n"),
    (PU, "    if contour == \"stretch\":\n        if isinstance(cbar_limits, str) and cbar_limits == \"auto\":\n            contour_lim = [\n                1 - max(abs(self.Results.R[inc].stretch[:, 0] - 1)),\n                1 + max(abs(self.Results.R[inc].stretch[:, 0] - 1)),\n            ]\n        else:\n            contour_lim = cbar_limits\n        con = contour, self.Results.R[inc].stretch[:, 0], contour_lim\n",
     "    if isinstance(contour, str) and contour == \"stretch\":\n        con = contour, *_contour(self.Results.R[inc].stretch[:, 0], cbar_limits, 1)\n"),
    (PU, "    if contour == \"force\":\n        if isinstance(cbar_limits, str) and cbar_limits == \"auto\":\n            contour_lim = [\n                -max(abs(self.Results.R[inc].element_force[:, 0])),\n                max(abs(self.Results.R[inc].element_force[:, 0])),\n            ]\n        else:\n            contour_lim = cbar_limits\n        con = contour, self.Results.R[inc].element_force[:, 0], contour_lim\n",
     "    if isinstance(contour, str) and contour == \"force\":\n        con = contour, *_contour(self.Results.R[inc].element_force[:, 0], cbar_limits)\n"),
    (PU, "def p_model(\n", "def _contour(values, limits, middle=0):\n    if isinstance(limits, str) and limits == \"auto\":\n        r = np.abs(values - middle).max()\n        limits = [middle - r, middle + r]\n    return values, limits\n\n\ndef _component(values, labels, node, name):\n    return values[list(labels).index(node)][\"XYZ\".index(name[-1])]\n\n\ndef p_model(\n"),
    (PU, "        if \"Displacement\" in X:\n            x = R.U[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[X[-1]]]\n", "        if X.startswith(\"Displacement\"):\n            x = _component(R.U, self.Nodes.labels, nodes[0], X)\n"),
    (PU, "            y = R.r[np.where(self.Nodes.labels == nodes[1])][0][dir_dict[Y[-1]]]\n", "            y = _component(R.r, self.Nodes.labels, nodes[1], Y)\n"),
    (PU, "        xx = np.arange(len(self.Results.R), dtype=int)\n", "        xx = list(range(len(xx)))\n"),
    (PU, "        incs = range(1, len(self.Results.R))\n", "        incs = list(range(len(self.Results.R)))[1:]\n"))
mut("r16", "ALL",  # the run in parts
    (MO, "        for step in range(self.Settings.nsteps):\n            # maximum number of increment and maximum value per step\n            if type(self.Settings.incs) == tuple:\n                incs = self.Settings.incs[step]\n            else:\n                incs = self.Settings.incs\n            if type(self.Settings.xlimit[0]) == tuple:\n                xlimit = self.Settings.xlimit[step]\n            else:\n                xlimit = self.Settings.xlimit\n",
     "        for step in range(self.Settings.nsteps):\n            incs, xlimit = self._limits(step)\n"),
    (MO, "            self.Analysis.ExtForces.forces_const = f0_const\n            self.Analysis.ExtForces.forces = self.ExtForces.forces[\n                :, 3 * (step) : 3 * (step + 1)\n            ]\n", "            pattern = self.ExtForces.forces[:, 3 * step : 3 * step + 3].copy()\n            self.Analysis.ExtForces.forces = pattern\n            self.Analysis.ExtForces.forces_const = f0_const\n"),
    (MO, "    def stiffness(self, Ured, analysis=None):\n", "    def _limits(self, step):\n        incs, xlimit = self.Settings.incs, self.Settings.xlimit\n        if isinstance(incs, tuple):\n            incs = incs[step]\n        if isinstance(xlimit[0], tuple):\n            xlimit = xlimit[step]\n        return incs, xlimit\n\n    def stiffness(self, Ured, analysis=None):\n"),
    (MO, "                self.Results.R[-1] = r_a\n                self.Results.copy_increment()\n", "                self.Results.R[-1:] = [r_a, copy.deepcopy(r_a)]\n"),
    (MO, "            # copy initial U0\n            self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)\n", "            # copy initial U0\n            self.Results.R[-1].U0 = self.Results.R[-1].U.copy()\n"),
    (MO, "                print(r\"* i(1) is index with 1st-biggest component in abs(Dx/Dx,max).\")\n                print(r\"* i(2) is index with 2nd-biggest component in abs(Dx/Dx,max).\")\n                print(r\"* i(3) is index with 3rd-biggest component in abs(Dx/Dx,max).\")\n                print(r\"* i(4) is index with 4th-biggest component in abs(Dx/Dx,max).\")\n",
     "                for k, nth in enumerate((\"1st\", \"2nd\", \"3rd\", \"4th\")):\n                    print(f\"* i({k + 1}) is index with {nth}-biggest component in abs(Dx/Dx,max).\")\n"))
mut("r17", "ALL",  # handlers and material
    (HE, "        for label in labels:\n            self.geometric_properties[np.where(self.labels == label)] = [gprop]\n", "        self._assign(\"geometric_properties\", labels, gprop)\n"),
    (HE, "        for label in labels:\n            self.mat_type[np.where(self.labels == label)] = mat_type\n", "        self._assign(\"mat_type\", labels, mat_type)\n"),
    (HE, "    def assign_geometry(self, labels, gprop):\n", "    def _assign(self, name, labels, value):\n        values = getattr(self, name)\n        for label in labels:\n            values[self.labels == label] = value\n\n    def assign_geometry(self, labels, gprop):\n"),
    (HF, "        mask = np.isin(nodelist, self.nodes, invert=True)\n        fix_nodes = nodelist[mask]  # nodes to fix\n", "        fix_nodes = [n for n in nodelist if n not in self.nodes]\n"),
    (HF, "        old = self.nodes, self.forces, self.defaults.copy()\n        try:\n            for F in FF:\n                self.add_force(F)\n        except BaseException:\n            # all or nothing\n            self.nodes, self.forces, self.defaults = old\n            raise\n",
     "        old = self.nodes, self.forces, set(self.defaults)\n        done = False\n        try:\n            for F in list(FF):\n                self.add_force(F)\n            done = True\n        finally:\n            if not done:\n                self.nodes, self.forces, self.defaults = old\n"),
    (RH, "        self.R.append(copy.deepcopy(self.R[-1]))\n", "        last = copy.deepcopy(self.R[-1])\n        self.R = [*self.R, last]\n"))
mut("r18", "ALL",  # path following: names, one print instead of several
    (TP, "                stop = True\n                print(\"\")\n                print(\n                    \"* **ERROR 1**: Job stopped - NR-it. failed, max. number of recycles reached.\"\n                )\n                print(\"  Reduce dVmax and/or activate adaptive stepwidth-control.\")\n                break\n",
     "                stop = True\n                _give_up(\"* **ERROR 1**: Job stopped - NR-it. failed, max. number of recycles reached.\")\n                break\n"),
    (TP, "                stop = True\n                print(\"\")\n                print(\n                    \"* **ERROR 2**: Job stopped - NR-it. failed, control component does not change.\"\n                )\n                print(\"  Reduce dVmax and/or activate adaptive stepwidth-control.\")\n                break\n",
     "                stop = True\n                _give_up(\"* **ERROR 2**: Job stopped - NR-it. failed, control component does not change.\")\n                break\n"),
    (TP, "def pathfollow(\n", "def _give_up(reason):\n    hint = \"  Reduce dVmax and/or activate adaptive stepwidth-control.\"\n    print(\"\\n\" + reason + \"\\n\" + hint)\n\n\ndef _largest(Dx, dxmax):\n    ratio = Dx / dxmax\n    order = np.argsort(np.abs(ratio))\n    return 1 + order, ratio[order]\n\n\ndef pathfollow(\n"),
    (TP, "            Dxi = 1 + np.argsort(abs(Dx / dxmax))\n            Dxs = np.sort(abs(Dx / dxmax)) * np.sign((Dx / dxmax).T[Dxi - 1])\n", "            Dxi, Dxs = _largest(Dx, dxmax)\n"),
    (TP, "            Dxi_pre = 1 + np.argsort(abs(Dx_pre / dxmax))\n            Dxs_pre = np.sort(abs(Dx_pre / dxmax)) * np.sign(\n                (Dx_pre / dxmax).T[Dxi_pre - 1]\n            )\n", "            Dxi_pre, Dxs_pre = _largest(Dx_pre, dxmax)\n"),
    (TP, "            if abs(x[xlimit[0] - 1]) > xlimit[1]:\n", "            component, largest = xlimit\n            if np.abs(x)[component - 1] > largest:\n"))
