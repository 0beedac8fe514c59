"""The files other harnesses parse, for checks that need a file of every kind."""
import importlib


class Captured(Exception):
    def __init__(self, text):
        super().__init__()
        self.text = text


class Grab:
    """The harness API up to the first file, whose content it captures.

    left: how many choices may be other than the first (None: any).
    """

    def __init__(self, S, left):
        self.S = S
        self.left = left

    def __getattr__(self, name):
        return getattr(self.S, name)

    def choice(self, *opts):
        if self.left is None:
            return self.S.choice(*opts)
        if self.left <= 0 or len(opts) == 1:
            return opts[0]
        i = self.S.choice(*range(len(opts)))
        self.left -= i > 0
        return opts[i]

    def count(self, lo, hi):
        first = max(lo, min(1, hi))
        return self.choice(first, *[n for n in range(lo, hi + 1) if n != first])

    def flag(self):
        return self.choice(False, True)

    def file(self, text, name=""):
        raise Captured(text)

    binfile = file


def capture(S, fn, left=None, **kw):
    """The content of the first file the harness would parse, if it parses any."""
    try:
        fn(Grab(S, left), **kw)
    except Captured as e:
        return e.text
    return None


# Per kind of file: harness module, and the functions that build and parse one.
SOURCES = {
    "md": ("c01_trajectory_frames", [("h_shape", dict(n=2)), "h_atoms", "h_mixed"]),
    "geom": ("c01_trajectory_frames", [("h_shape", dict(n=1)), "h_step"]),
    "ts": ("c03_transition_states", [("h_order", dict(n=2)), "h_shape"]),
    "bands": ("c04_bands", ["h_one", "h_two", "h_form"]),
    "phonon": ("c05_phonons", ["h_size", "h_columns"]),
    "phonon_dos": ("c05_phonons", ["h_dos", "h_grad"]),
    "elf_fmt": ("c06_grids_tables", ["h_rows", "h_layout"]),
    "chdiff_fmt": ("c06_grids_tables", ["h_rows"]),
    "pot_fmt": ("c06_grids_tables", ["h_rows"]),
    "den_fmt": ("c06_grids_tables", ["h_rows", "h_values"]),
    "hug": ("c06_grids_tables", ["h_hug"]),
    "xrd_sf": ("c06_grids_tables", ["h_xrd", "h_xrd_form"]),
    "efield": ("c07_response_files", ["h_efield", "h_efield_form"]),
    "elastic": ("c07_response_files", ["h_elastic", "h_elastic_order", "h_strain"]),
    "magres": ("c08_magres", ["h_kinds", "h_mix", "h_calc", "h_old"]),
    "tddft": ("c09_records", ["h_tddft", "h_states"]),
    "epme": ("c09_records", ["h_epme"]),
    "err": ("c09_records", ["h_err", "h_err_layout"]),
    "param": ("d01_keywords", ["h_value", "h_text", "h_many"]),
    "cell": ("d02_blocks", ["h_table", "h_positions", "h_ionic", "h_nonlinear", "h_species", "h_hubbard", "h_sedc", "h_symops", "h_species_pot",
                            "h_devel", "h_two"]),
    "cst_esp": ("b03_cst_esp", [("h_grid", dict(nx=2, mgga=0)), ("h_grid", dict(nx=1, mgga=1))]),
    "epme_bin": ("b04_epme_bin", [("h_file", dict(ni=2, nsp=2, npair=1, nb=2))]),
}


def sources(kind):
    mod, fns = SOURCES[kind]
    m = importlib.import_module("props." + mod)
    return [(getattr(m, f[0]), f[1]) if isinstance(f, tuple) else (getattr(m, f), {}) for f in fns]
