"""F04: predicted output files follow from the inputs, without side effects."""
from castep_outputs import get_generated_files, parse_cell_param_file

BOUNDS = ("all 15 tasks under each of their names (either case, with or without spaces or '+'); 47 on/off settings of the parameters, the developer code and the "
          "pseudopotentials, each symbolic, absent or given, of which up to two (thorough: three, and together with any one other setting: "
          "functional or definition, checkpointing, spin treatment, TDDFT state 0..3) are not at their defaults; within each of the groups "
          "that share outputs (checkpoint and the rest of write_none; densities; spectral task, theory and developer switches; molecular "
          "dynamics with every strategy bias -3..3; spin, functional and pseudopotentials; elastic; TDDFT) every combination; "
          "seeds with dots and directories, with the inputs given as data, as files or found from the seed in all combinations")
OUTSIDE = ("developer code keywords without a value; developer code on one line; which outputs CASTEP writes beyond the documented rules; "
           "functionals mixed from two that have pseudopotentials of their own; memory or speed strategies beyond the rules as they are; "
           "negative TDDFT states; empty sections")
ASSUMPTIONS = ["the rule for each output is the one the documentation of the prediction and its comments give"]

TASKS = {
    "SINGLEPOINT": ("singlepoint", "SinglePoint", "SPE", "energy", "Single Point"),
    "PHONON": ("phonon", "PHONON"),
    "PHONON_EFIELD": ("phonon+efield", "PHONON_EFIELD", "Phonon + Efield", "phononefield"),
    "EFIELD": ("efield", "EField"),
    "THERMODYNAMICS": ("thermodynamics",),
    "EPCOUPLING": ("epcoupling", "EPCoupling"),
    "ELASTIC": ("elastic",),
    "GEOMOPT": ("geomopt", "GeometryOptimisation", "geometry optimization", "GEOM", "Geometry Optimisation"),
    "MD": ("md", "MolecularDynamics", "molecular dynamics", "Dynamics"),
    "TSS": ("tss", "TransitionStateSearch", "transition_state_search", "Transition State Search"),
    "MAGRES": ("magres", "MagRes"),
    "SPECTRAL": ("spectral", "Spectral", "elnes", "OPTICS"),
    "SPECTROSCOPY": ("electronicspectroscopy", "ElectronicSpectroscopy", "Electronic Spectroscopy"),
    "BANDS": ("bandstructure", "BandStructure", "Band structure"),
    "AUTOSOLVATION": ("autosolvation",),
}
SPECTRAL = {"SPECTRAL", "SPECTROSCOPY", "BANDS"}

# Settings, and what holds when they are absent
PARAMS = {
    "write_none": False, "write_bib": True, "write_bands": True, "write_cst_esp": True, "write_geom": True, "write_md": True,
    "write_formatted_potential": False, "write_formatted_density": False, "write_formatted_elf": False,
    "write_formatted_dielec_perm": False, "calculate_densdiff": False, "calculate_elf": False, "write_orbitals": False,
    "write_cif_structure": False, "write_cell_structure": False, "efield_calc_ion_permittivity": False, "calculate_modos": False,
    "pdos_calculate_weights": False, "write_otfg": True, "phonon_calculate_dos": False, "magres_write_response": False,
    "spectral_restart": True, "spin_orbit_coupling": False, "spin_polarised": False, "spin_polarized": False,
}
DEVEL = {
    "_pp": False, "write_formatted_bands": False, "zdos_scf": False, "write_unformatted_density": False, "trace": False, "prof": False,
    "profclass": False, "pp_hybrid": False, "lda_sf_pot_write": False, "calculate_xrd_sf": False, "zdos_spectral": False,
    "calc_elastic": False,
    "pp/pot_print": False, "pp/fd_check": False, "elastic/deform_pot": False, "phonon/write_first_order_potential": False,
    "tddft/den1_write": False, "tddft/save_td_den_fmt": False,
    "spectral/calc_core": None, "spectral/calc_ome": None, "spectral/calc_pdos": None, "spectral/calc_dome": None,
}
POT = {"print": False}

NLXC = ("hf", "hf-lda", "shf", "sx-lda", "shf-lda", "pbe0", "b3lyp", "hse03", "hse06", "spbe0")
OEP = ("oep", "lfx", "elp", "ceda")
# what a functional's generated pseudopotentials are called
THEORY = {"pw91": "PBE", "pbe": "PBE", "rpbe": "RPBE", "pbesol": "PBESOL", "wc": "WC", "blyp": "BLYP", "ms2": "MS2", "rscan": "RSCAN",
          "r2scan": "RSCAN", "lda_pw": "LDA_PW"}
MGGA = ("ms2", "rscan", "r2scan")


def NOT(x):
    return x == False  # noqa: E712


def OR(*xs):
    r = False
    for x in xs:
        r = x | r
    return r


def AND(*xs):
    r = True
    for x in xs:
        r = x & r
    return r


def functional(xc):
    """(non-local, optimised potential, meta-GGA, pseudopotential name) of a functional's name or parts."""
    parts = [x.lower() for x in xc]
    mgga = any(x in MGGA or x.startswith(("libxc_mgga", "libxc_hyb_mgga")) for x in parts)
    if any(x.startswith(("libxc_mgga", "libxc_hyb_mgga")) for x in parts):
        theory = "RSCAN"
    elif any(x.startswith(("libxc_gga", "libxc_hyb_gga")) for x in parts):
        theory = "PBE"
    else:
        theory = next((THEORY[x] for x in parts if x in THEORY), "LDA")
    return any(x in NLXC for x in parts), any(x in OEP for x in parts), mgga, theory


class Run:
    """A calculation's inputs: settings by name, and the rules for its outputs."""

    def __init__(self, task=None, name=None, **kw):
        self.task = task or "SINGLEPOINT"
        self.on = {}                # on/off settings by name
        self.param = {} if task is None else {"task": name or TASKS[task][0]}
        self.devel = {}
        self.cell = {}
        self.xc = ["lda"]
        self.check = "all"
        self.vector = False
        self.tddft = 0
        self.pots = {}              # species -> text, or settings of a generated one
        self.atoms = []
        self.born = None
        self.spinvec = False
        self.theory, self.spectral = "dft", "bandstructure"
        self.md = {"extrap": "first", "metals": "dm", "memory": False, "bias": 0, "ensemble": "", "beads": 1, "farms": 1}
        self.pes = False
        self.seed = "seedname"
        self.__dict__.update(kw)

    def use_xc(self, xc):
        self.xc = list(xc) if isinstance(xc, dict) else [xc]
        if isinstance(xc, dict):
            self.param["xc_definition"] = {"xc": dict(xc), "params": {}}
        else:
            self.param["xc_functional"] = xc

    def inputs(self):
        """The parameters and cell, as fresh objects."""
        param = dict(self.param)
        devel = dict(self.devel)
        for k, v in self.on.items():
            if k in PARAMS:
                param[k] = v
            elif k in DEVEL:
                block, _, key = k.rpartition("/")
                if block:
                    devel[block] = {**devel.get(block, {}), key: v}
                else:
                    devel[key] = v
        if devel:
            param["devel_code"] = devel
        cell = dict(self.cell)
        if self.pots:
            cell["species_pot"] = {s: p if isinstance(p, str) else {"string": "x", **p} for s, p in self.pots.items()}
        return param, cell

    def expected(self):
        """(name, condition) of every output."""
        task, s, md = self.task, self.seed, self.md

        def on(k):
            return self.on.get(k, {**PARAMS, **DEVEL}[k])

        def switched(k):        # a setting that write_none turns off
            return AND(on(k), NOT(on("write_none")))

        def switch(k, other):   # a developer setting that stands in for a rule
            v = self.on.get(f"spectral/{k}")
            return other if v is None else v

        nonlocal_, oep, mgga, theory = functional(self.xc)
        spin = OR(self.vector, on("spin_orbit_coupling"), on("spin_polarised"), on("spin_polarized"))
        excited = self.tddft > 0
        pp = on("_pp")
        spectral = task in SPECTRAL
        tddft = self.theory == "tddft"
        what = self.spectral
        out = [(f"{s}.castep", True)]

        def add(name, *cond):
            out.append((name, AND(*cond)))

        add(f"{s}.check", self.check == "all", NOT(on("write_none")))
        add(f"{s}.castep_bin", self.check != "none", NOT(on("write_none")))
        add(f"{s}.bands", switched("write_bands"), NOT(pp), NOT(excited))
        add(f"{s}_tddft.bands", switched("write_bands"), NOT(pp), excited)
        add(f"{s}_*.orbit_fmt", on("write_formatted_bands"))
        add(f"{s}.bib", switched("write_bib"))
        add(f"{s}.cst_esp", switched("write_cst_esp"), NOT(pp))
        add(f"{s}.pot_fmt", on("write_formatted_potential"))
        add(f"{s}.oep_fmt", on("write_formatted_potential"), oep)
        add(f"{s}.den_fmt", on("write_formatted_density"))
        add(f"{s}.chdiff", on("calculate_densdiff"))
        add(f"{s}.chdiff_fmt", on("calculate_densdiff"), on("write_formatted_density"))
        add(f"{s}.elf", on("calculate_elf"))
        add(f"{s}.elf_fmt", on("calculate_elf"), on("write_formatted_elf"))
        add(f"{s}.eps_format", on("write_formatted_dielec_perm"))
        add(f"{s}.orbitals", OR(on("write_orbitals"), task == "BANDS"))
        add(f"{s}-out.cif", on("write_cif_structure"))
        add(f"{s}-out.cell", OR(on("write_cell_structure"), spectral))
        add(f"{s}.efield", OR(on("efield_calc_ion_permittivity"), task in ("EFIELD", "PHONON_EFIELD")))
        add(f"{s}.modos_state*", on("calculate_modos"))
        add(f"{s}.scf_zdos", on("zdos_scf"))
        add(f"{s}.altden", on("write_unformatted_density"))
        add(f"{s}.*.profile", OR(on("trace"), on("prof"), on("profclass")))
        add(f"{s}.hybrid-md.xyz", on("pp_hybrid"), task in ("GEOMOPT", "MD"))
        add(f"{s}.B_xc.pot_fmt", on("lda_sf_pot_write"), spin)
        add(f"{s}.xrd_sf", on("calculate_xrd_sf"))
        add(f"{s}.spectral_zdos", on("zdos_spectral"), spectral)
        pairs = [f"{s}_{a}_{b}.pot" for i, a in enumerate(self.atoms) for b in self.atoms[i:]] or [f"{s}_*_*.pot"]
        for p in pairs:
            add(p, pp, on("pp/pot_print"))
        add(f"{s}.fd", pp, on("pp/fd_check"))
        add(f"{s}.pdos_weights", on("pdos_calculate_weights"), task not in ("SPECTROSCOPY", "BANDS"))

        usp = not self.pots or not all(isinstance(p, str) and p.lower().endswith(".recpot") for p in self.pots.values())
        for spec, pot in self.pots.items():
            if isinstance(pot, str):
                continue
            name = f"{spec}_EXT_{theory}_OTF"
            for end in ("gamma", "pwave", "beta", "econv"):
                add(f"{name}.{end}", pot.get("print", False))
            add(f"{name}.usp", not mgga, on("write_otfg"), NOT(spin))
            add(f"{name}.uspso", not mgga, on("write_otfg"), spin)

        elastic = OR(on("calc_elastic"), "elastic" in self.devel, "elastic/deform_pot" in self.on)
        add(f"{s}.elastic", elastic)
        add(f"{s}.dbands_dstrain", on("elastic/deform_pot"), not mgga, not usp, NOT(spin), not nonlocal_)

        add(f"{s}.vacuum_den", task == "AUTOSOLVATION")
        add(f"{s}.epme", task == "EPCOUPLING")
        add(f"{s}-*-*-*.ep_pot", OR(task == "EPCOUPLING",
                                   AND(task in ("PHONON", "PHONON_EFIELD"), on("phonon/write_first_order_potential"))))
        add(f"{s}.geom", task == "GEOMOPT", switched("write_geom"))
        add(f"{s}.pes", task == "GEOMOPT", self.pes)
        add(f"{s}.md", task == "MD", switched("write_md"))
        add(f"{s}.hug", task == "MD", md["ensemble"] in ("nvhug", "nphug"))
        paged = AND(task == "MD", md["metals"] == "dm", OR(md["memory"], md["bias"] >= 0))
        for end in ("wfm", "drhom"):
            add(f"{s}.*.{end}", paged, md["extrap"] in ("first", "second", "mixed"))
        for end in ("wf2m", "drho2m"):
            add(f"{s}.*.{end}", paged, md["extrap"] in ("second", "mixed"))
        for i in range(md["farms"]):
            add(f"{s}_farm{i:03}.castep", task == "MD", md["beads"] > 1, md["farms"] > 1)
        add(f"{s}.magres", task == "MAGRES")
        add("current.dat", task == "MAGRES", on("magres_write_response"))
        add("gsden.cube", task == "MAGRES", on("magres_write_response"))
        add(f"{s}.ts", task == "TSS")
        phonon = task in ("PHONON", "PHONON_EFIELD")
        add(f"{s}.phonon", phonon)
        add(f"{s}.phonon_dos", phonon, on("phonon_calculate_dos"))
        if self.born:
            add(self.born, phonon)

        add(f"{s}.*.spec", spectral, on("spectral_restart"))
        add(f"{s}.nc_spinvec", spectral, self.spinvec)
        stem = f"{s}_tddft" if tddft else s
        local = not tddft and not nonlocal_
        add(f"{stem}.elnes_bin", spectral, switch("calc_core", local and what in ("coreloss", "all")))
        add(f"{stem}.ome_bin", spectral, switch("calc_ome", local and what in ("coreloss", "dos", "all")))
        add(f"{stem}.pdos_bin", spectral, switch("calc_pdos", on("pdos_calculate_weights")))
        add(f"{stem}.dome_bin", spectral, switch("calc_dome", what == "optics" or what == "all" and (tddft or local)))

        add(f"{s}.tddft", excited)
        add(f"{s}.td_den", excited, on("tddft/den1_write"))
        add("den_dump*.dat", excited, on("tddft/save_td_den_fmt"))
        return out

    def impossible(self):
        return self.task in SPECTRAL and self.spectral == "coreloss" and (self.theory == "tddft" or functional(self.xc)[0])


def predict(S, run, why="", **how):
    param, cell = run.inputs()
    if how:
        got = get_generated_files(**how)
    elif run.impossible():
        S.raises(KeyError, lambda: get_generated_files(run.seed, param_data=param, cell_data=cell), "core loss is not possible")
        return None
    else:
        got = get_generated_files(run.seed, param_data=param, cell_data=cell)
        S.eq(param, run.inputs()[0], "the parameters are left as they were")
        S.eq(cell, run.inputs()[1], "the cell is left as it was")
    verify(S, run, got, why)
    return got


def verify(S, run, got, why=""):
    S.check(got == sorted(set(got)), f"{why}: each file once, in order: {got}")
    want = {}
    for name, cond in run.expected():
        want[name] = OR(cond, want.get(name, False))
    for name in got:
        S.check(name in want, f"{why}: no setting writes {name}")
    S.eq({name: name in got for name in want}, want, f"{why}: predicted")


def settings(S, run, names, most=None):
    """Give each setting a symbolic value, at most some of them other than their default."""
    away = 0
    for k in names:
        v = run.on[k] = S.bool()
        d = {**PARAMS, **DEVEL}[k]
        if most is not None:
            away = away + (NOT(v) if d else v)
    if most is not None:
        S.assume(away <= most)


FLAGS = [k for k in [*PARAMS, *DEVEL] if not k.startswith("spectral/")]
XC = ("LDA", "PBE", "pw91", "rscan", "HF", "b3lyp", "OEP", "wc",
      {"pbe": 0.75, "hf": 0.25}, {"libxc_gga_x_pbe": 1.0, "libxc_gga_c_pbe": 1.0}, {"libxc_mgga_x_scan": 1.0},
      {"libxc_hyb_mgga_xc_b": 1.0}, {"libxc_lda_x": 1.0}, {"libxc_hyb_gga_xc_b3lyp": 1.0})


def other(S, run):
    """One setting that is not on or off."""
    k = S.choice("none", "xc", "checkpoint", "spin", "tddft", "pots", "atoms")
    if k == "xc":
        run.use_xc(S.choice(*XC))
        run.pots = {"Si": {"print": True}}
    elif k == "checkpoint":
        checkpoint(S, run)
    elif k == "spin":
        v = run.param["spin_treatment"] = S.choice("vector", "VECTOR", "scalar", "None")
        run.vector = v.lower() == "vector"
    elif k == "tddft":
        run.tddft = run.param["tddft_selected_state"] = S.int(0, 3)
    elif k == "pots":
        run.pots = S.choice({"Si": {}}, {"Si": {"print": True}, "N": "N_00.recpot"}, {"Si": "Si.recpot"}, {"Si": "SI_00.RECPOT"}, {"Si": "Si_00.usp"}, {None: "QC5"})
    elif k == "atoms":
        atoms(S, run)


def checkpoint(S, run):
    v = run.param["write_checkpoint"] = S.choice(True, False, "all", "Both", "FULL", "minimal", "Minimal", "none", "None", "false", "true")
    low = str(v).lower()
    run.check = "none" if low in ("false", "none") else "minimal" if low == "minimal" else "all"


def atoms(S, run):
    block = S.choice("positions_frac", "positions_abs")
    species = S.choice(("Si",), ("Si", "N"), ("N", "Si", "C"))
    run.atoms = list(species)
    run.cell[block] = {(a, i): {"pos": (0.0, 0.0, 0.0)} for i in (1, 2) for a in species}


def tasks(S):
    """Every task by every name, with the settings that depend on the task."""
    task = S.choice(*TASKS)
    run = Run(task, S.choice(*TASKS[task]))
    settings(S, run, ("write_geom", "write_md", "phonon_calculate_dos", "magres_write_response", "spectral_restart",
                      "pdos_calculate_weights", "zdos_spectral", "pp_hybrid", "write_orbitals", "write_cell_structure"), None if S.thorough else 2)
    predict(S, run, task)


def absent(S):
    """Settings left out, but for one."""
    task = S.choice(None, *TASKS)
    run = Run(task)
    if S.flag():
        settings(S, run, [S.choice(*PARAMS, *DEVEL)])
        if S.thorough or task in (None, "BANDS"):
            other(S, run)
    else:
        other(S, run)
    predict(S, run, str(task))


def pairs(task):
    def run_(S):
        run = Run(task)
        settings(S, run, FLAGS, 3 if S.thorough and task in ("SINGLEPOINT", "MD") else 2)
        if S.thorough:
            other(S, run)
        predict(S, run, task)
    return run_


def written(S):
    """Everything write_none turns off."""
    task = S.choice("SINGLEPOINT", "GEOMOPT", "MD", "SPECTROSCOPY", "PHONON")
    run = Run(task)
    settings(S, run, ("write_none", "write_bib", "write_bands", "write_cst_esp", "write_geom", "write_md", "_pp"))
    if S.flag():
        checkpoint(S, run)
    run.tddft = run.param["tddft_selected_state"] = S.int(0, 2)
    predict(S, run, task)


def densities(S):
    run = Run(S.choice("SINGLEPOINT", "BANDS", "SPECTRAL"))
    settings(S, run, ("write_formatted_potential", "write_formatted_density", "write_formatted_elf", "calculate_densdiff", "calculate_elf",
                      "write_orbitals", "write_cell_structure", "write_none"))
    run.use_xc(S.choice("lda", "oep", "LFX", "elp", "Ceda", "hf", {"hf": 0.25, "OEP": 0.75}, {"lfx": 1.0, "libxc_mgga_c_scan": 1.0}))
    predict(S, run)


def spectral(S):
    run = Run(S.choice("SPECTRAL", "SPECTROSCOPY", "BANDS"))
    settings(S, run, ("pdos_calculate_weights",))
    if S.flag():
        k = run.param["spectral_task"] = S.choice("CoreLoss", "bandstructure", "optics", "DOS", "all", "Band Structure")
        run.spectral = k.lower().replace(" ", "")
    if S.flag():
        k = run.param["spectral_theory"] = S.choice("TDDFT", "dft", *(("tddft", "DFT") if S.thorough else ()))
        run.theory = k.lower()
    run.use_xc(S.choice("pbe", *(NLXC if S.thorough else ("HSE06",))))
    switches = S.choice((), ("calc_core",), ("calc_ome",), ("calc_pdos",), ("calc_dome",), ("calc_core", "calc_ome", "calc_pdos", "calc_dome"))
    settings(S, run, [f"spectral/{k}" for k in switches])
    given = S.choice((), ("spectral_spinvec",), ("spectral_spinvec_append",), ("spectral_spinvec", "spectral_spinvec_append")) if not switches else ()
    run.devel.update(dict.fromkeys(given))
    run.spinvec = len(given) == 2
    predict(S, run)


def dynamics(S):
    run = Run("MD")
    md = run.md
    if S.flag():
        md["extrap"] = (k := S.choice("First", "second", "MIXED", "none", "mixed"))
        md["extrap"] = k.lower()
        run.param["md_extrap"] = k
    if S.flag():
        k = run.param["opt_strategy"] = S.choice("Memory", "speed", "default")
        md["memory"] = k == "Memory"
    if S.flag():
        md["bias"] = run.param["opt_strategy_bias"] = S.int(-3, 3)
    if S.flag():
        k = run.param["metals_method"] = S.choice("EDFT", "dm", "DM")
        md["metals"] = k.lower()
    if S.flag():
        k = run.param["md_ensemble"] = S.choice("NVE", "NVHug", "nphug", "NPHUG", "npt")
        md["ensemble"] = k.lower()
    settings(S, run, ("write_md",))
    predict(S, run)


def farms(S):
    run = Run("MD")
    settings(S, run, ("write_md", "pp_hybrid"))
    if S.flag():
        run.md["beads"] = run.param["md_num_beads"] = S.int(1, 16)
    if S.flag():
        run.md["farms"] = run.param["num_farms"] = S.choice(1, 2, 3, 11)
    predict(S, run)


def geometry(S):
    run = Run("GEOMOPT")
    k = S.choice(None, "LBFGS", "pes", "PES", "Pes", "bfgs")
    if k:
        run.param["geom_method"] = k
        run.pes = k.lower() == "pes"
    settings(S, run, ("write_geom", "write_none", "pp_hybrid", "write_cell_structure"))
    predict(S, run)


def pseudopotentials(S):
    """Names and kinds of generated pseudopotentials, for each functional."""
    run = Run(None)
    if S.flag():
        run.use_xc(S.choice(*(XC if S.thorough else XC[8:]), *(t.upper() for t in THEORY), *((*OEP, *NLXC) if S.thorough else ("oep",)), {"b3lyp": 0.5, "PBE": 0.5}, {"rpbe": 0.5, "pbe0": 0.25, "hf": 0.25},
                            {"hf": 0.1, "lda_pw": 0.2}, {"shf": 0.5, "wc": 0.5}, {"sx-lda": 0.5, "BLYP": 0.5}))
    run.pots = {}
    for spec in S.choice(("Si",), ("N", "Si:tag")):
        run.pots[spec] = S.choice({}, {"print": True}, f"{spec}_00PBE.usp", f"{spec}.recpot")
    run.vector = S.flag()
    if run.vector:
        run.param["spin_treatment"] = "vector"
    settings(S, run, ("write_otfg", "spin_polarized"))
    predict(S, run)
    param, cell = run.inputs()
    if "xc_definition" in param:
        param["xc_definition"]["xc"] = dict(reversed(param["xc_definition"]["xc"].items()))
    verify(S, run, get_generated_files(param_data=param, cell_data=cell), "the other order")


def spin(S):
    run = Run(S.choice(None, "SPECTRAL"))
    settings(S, run, ("spin_polarised", "spin_polarized", "spin_orbit_coupling", "lda_sf_pot_write", "write_otfg"))
    if S.flag():
        k = run.param["spin_treatment"] = S.choice("vector", "VECTOR", "scalar", "none")
        run.vector = k.lower() == "vector"
    run.pots = {"Si": {}}
    predict(S, run)


def elastic(S):
    run = Run(S.choice(None, "ELASTIC", "GEOMOPT"))
    settings(S, run, ("calc_elastic", "spin_polarized"))
    how = S.choice("absent", "bare", "true", "section", "deform")
    if how == "deform":
        settings(S, run, ("elastic/deform_pot",))
    elif how != "absent":
        run.devel["elastic"] = {"bare": None, "true": True, "section": {"data": [1]}}[how]
    run.pots = S.choice({}, {"Si": "Si.RecPot"}, {"Si": "Si.recpot"}, {"Si": "Si.recpot", "N": "N.usp"}, {"Si": "a/Si_00.uspcc"}, {"Si": {}}, {"Si": "Si.recpot", "N": {}},
                        {"Si": "Si_00.recpot", "N": "N_00.recpot"}, {None: "QC5"})
    run.use_xc(S.choice("lda", "PBE", "rscan", "hf", "MS2"))
    predict(S, run)


def potentials(S):
    run = Run(S.choice(None, "MD"))
    settings(S, run, ("_pp", "pp/pot_print", "pp/fd_check", "write_bands", "write_cst_esp"))
    if S.flag():
        atoms(S, run)
    elif S.flag():
        run.cell["kpoints_mp_grid"] = (1, 1, 1)
    predict(S, run)


def excited(S):
    run = Run(S.choice(None, "GEOMOPT", "SPECTRAL"))
    settings(S, run, ("write_bands", "_pp", "tddft/den1_write", "tddft/save_td_den_fmt"))
    if S.flag():
        run.tddft = run.param["tddft_selected_state"] = S.int(0, 9)
    predict(S, run)


def phonons(S):
    run = Run(S.choice("PHONON", "PHONON_EFIELD", "EFIELD", "EPCOUPLING", "MAGRES"))
    settings(S, run, ("phonon_calculate_dos", "phonon/write_first_order_potential", "efield_calc_ion_permittivity", "magres_write_response"))
    if S.flag():
        run.born = S.choice("si.born", "x", "a.b.c")
        run.devel["phonon"] = {"write_external_born": run.born}
    predict(S, run)


def errors(S):
    bad = S.choice({"task": "wannier"}, {"task": "SocketDriver"}, {"task": "socket driver"}, {"task": "bandstructures"}, {"task": ""},
                   {"write_checkpoint": "some"}, {"task": "spectral", "spectral_task": "corelos"}, {"task": "spectral", "spectral_theory": "hf"})
    kind = KeyError if bad.get("task") == "wannier" else NotImplementedError if "ocket" in bad.get("task", "") or len(bad) == 1 and "task" not in bad \
        else ValueError
    S.raises(kind, lambda: get_generated_files(param_data=bad, cell_data={}), f"{bad}")


PARAM = "task : {task}\nwrite_bib : {bib}\n%block devel_code\ncalculate_xrd_sf={xrd} ELASTIC\n%endblock devel_code\n"
CELL = "%block species_pot\n{spec}  3|1.8|11|13|15|30N:31N(qc=6)[]\n%endblock species_pot\n"


def sources(S):
    """Inputs as data, as files, or found from the seed."""
    seed = S.choice("run", "run.1", "sub/a.b-c", "run.x.y")
    as_path = S.flag()
    suffix = S.choice("", ".cell", ".param")
    texts = {}
    for where, task, spec in (("seed", "geomopt", "Si"), ("file", "magres", "C"), ("data", "phonon", "N")):
        texts[where] = (PARAM.format(task=task, bib=S.choice("true", "false") if where == "seed" else "true", xrd="T"), CELL.format(spec=spec))
    found = S.flag(), S.flag()
    S.fs({f"{seed}.param": (texts["seed"][0], found[0]), f"{seed}.cell": (texts["seed"][1], found[1]),
          "run.param": (texts["seed"][0], found[0] and seed == "run"), "run.cell": (texts["seed"][1], found[1] and seed == "run"),
          "d/x.param": texts["file"][0], "d/x.cell": texts["file"][1]})
    how = [S.choice("seed", "file", "data"), S.choice("seed", "file", "data")]
    both = S.flag()
    kw = {}
    for i, k in enumerate(("param", "cell")):
        if how[i] == "file" or both and how[i] == "data":
            kw[f"{k}_file"] = S.path(f"d/x.{k}")
        if how[i] == "data":
            kw[f"{k}_data"] = parse_cell_param_file(S.file(texts["data"][i]))[0]
    name = seed + suffix
    got = get_generated_files(S.path(name) if as_path else name, **kw)
    task, xrd, bib, pots = "SINGLEPOINT", False, True, {}
    if how[0] != "seed" or found[0]:
        task = {"seed": "GEOMOPT", "file": "MAGRES", "data": "PHONON"}[how[0]]
        xrd = True
        bib = how[0] != "seed" or "bib : true" in texts["seed"][0]
    if how[1] != "seed" or found[1]:
        pots = {{"seed": "Si", "file": "C", "data": "N"}[how[1]]: {"print": True}}
    run = Run(task, seed=seed.rpartition("/")[2], pots=pots)
    run.on = {"write_bib": bib, "calculate_xrd_sf": xrd}
    if xrd:
        run.devel["elastic"] = None
    verify(S, run, got, f"{name} {how}")


def cases(tier):
    out = [("tasks", tasks), ("absent", absent), ("written", written), ("densities", densities), ("spectral", spectral),
           ("dynamics", dynamics), ("farms", farms), ("geometry", geometry), ("pseudopotentials", pseudopotentials), ("spin", spin),
           ("elastic", elastic), ("potentials", potentials), ("excited", excited), ("phonons", phonons), ("errors", errors), ("sources", sources)]
    out += [(f"pairs-{t}", pairs(t)) for t in (TASKS if tier == "thorough" else ("SINGLEPOINT", "MD", "BANDS", "PHONON_EFIELD"))]
    return out
