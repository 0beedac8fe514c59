"""Rewrites the generated parts of DESIGN.md: per-property bounds and costs (from evidence/ of the last
runs and the harnesses) and the tables of findings and planted bugs.  Development use only."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)

METHOD = dict(
    A01="`to_type`, `fix_data_types`, `determine_type`, `parse_int_or_float`, `parse_logical` run on numeric literals whose every character is symbolic. Oracle: the rational number the template's digits spell (sign, digits, point, exponent put together by the harness), compared exactly; containers element by element.",
    A02="The package's own compiled expressions and `get_numbers`, `labelled_floats`, `get_atom_parts` run on lines assembled from symbolic numbers, separators and words. Oracle: the list of pieces the line was built from, in order.",
    A03="`FileWrapper` and `Block` run over files whose line *lengths* are symbolic integers (1 byte to 1 TB) or whose characters are symbolic, under every interleaving of operations (the operation is a solver choice). Oracle: a list index moved by the operations.",
    A04="The cut point is a solver choice: each block reader, record reader and each delimited section of every format is given its file cut after every line (or byte). Oracle: an error must be raised unless the cut keeps the whole section.",
    A05="`strip_comments` on lines of arbitrary printable characters. Oracle: an independent left-to-right scan over the symbolic characters.",
    A06="`normalise`, `flatten_dict`, `json_safe`, `stack_dict`, `add_aliases`, `strip_missing`, `get_only`, … on every nesting up to the bound with symbolic leaves and symbolic presence. Oracle: recursive definitions over the nesting.",
    A07="`normalise_key`, `atreg_to_index`, `AtomLabel`, `filter_private`-style helpers on arbitrary printable text. Oracle: definitional (character classes, no doubled underscore, idempotent; label pieces).",
    A08="Whole sections written around a symbolic choice of where the parts disagree (row, value, group, atom, q-point) and by how much, run through `parse_castep_file`, `parse_phonon_file`, `parse_elf_fmt_file` and `parse_epme_bin_file`; every number symbolic. Oracle: the consistent table is read, every inconsistent one raises.",
    B01="`binary_file_reader` over files whose record *sizes* are symbolic (0 … 2^31-9) or whose bytes are symbolic, under every sequence of skips and rewinds. Oracle: a record counter.",
    B02="`to_type` for bytes and the layout readers on symbolic bytes. Oracle: bit-vector meaning of the bytes (big-endian integers, doubles bit for bit).",
    B03="`parse_cst_esp_file` on files built from symbolic values. Oracle: the template's grid.",
    B04="`parse_epme_bin_file` likewise.",
    C01="`parse_md_geom_file` on trajectories with symbolic digits. Oracle: the template's frames.",
    C02="`MDGeomParser` under every sequence of accesses (index, slice, iterate, read on). Oracle: the frames of the template / sequential parsing.",
    C03="`parse_ts_file`. Oracle: the template's images.", C04="`parse_bands_file`. Oracle: template.",
    C05="`parse_phonon_file`, `parse_phonon_dos_file`. Oracle: template, in CASTEP's own column layout.",
    C06="`parse_den_fmt_file`, `parse_pot_fmt_file`, `parse_elf_fmt_file`, `parse_chdiff_fmt_file`, `parse_hug_file`, `parse_xrd_sf_file`. Oracle: template.",
    C07="`parse_efield_file`, `parse_elastic_file`. Oracle: template; three listed findings are read off one concrete probe so that the rest of each table is still decided for all values.",
    C08="`parse_magres_file`. Oracle: template.", C09="`parse_tddft_file`, `parse_epme_file`, `parse_err_file`. Oracle: template.",
    D01="`parse_cell_file`, `parse_param_file` on files of keywords with symbolic keys, values and separators. Oracle: the template's values typed by the documented rules.",
    D02="The same parsers on every kind of block. Oracle: template rows.",
    D03="`_parse_pspot_string` reached through .cell and .castep files, on strings generated from the documented grammar. Oracle: the derivation the string was generated from.",
    E01="`parse_castep_file` on one section at a time (39 sections over E01–E04) with counts, optional lines and widths as choices (at most two departures from the plain form at once; four in the thorough tier). Oracle: the template's data for that section.",
    E02="as E01, for SCF tables, debug lines and energies.", E03="as E01, for forces, stresses, populations.",
    E04="as E01, for phonons, response, spectroscopy.",
    E05="`parse_castep_file` on files of several MD steps, geometry iterations or images holding different sections. Oracle: template entries per step; and a differential form: no value of one step in another.",
    E06="`parse_castep_file` is run with a *symbolic filter set*: one Boolean per member of `Filters`, so one path family covers all 2^30 sets. Oracle: the unfiltered result restricted to the covered sections.",
    E07="Pairs, triples, orders and runs of sections; oracle: the sections parsed alone, merged as the documentation says.",
    F01="`parse_args`/`extract_parsables`/`main` over a stand-in file system in which each file's existence is a Boolean. Oracle: set arithmetic over those Booleans.",
    F02="Every route into every parser over the stand-in file system. Oracle: the parser's own result on the text.",
    F03="`parse_single(…, 'json')` against the raw result of the parser, walked in step. Oracle: structural (JSON types, distinct keys, both parts of complex numbers, same leaves).",
    F04="`get_generated_files` on symbolic settings. Oracle: the documented rule of each output as a formula over the settings; plus non-interference (inputs unchanged, two calls agree).",
    F05="`get_dumpers` and every dumper over symbolic data with the third-party serialisers replaced by stand-ins.",
    F06="Each parser on file A, file B, A and B again, with every container of the results emptied in between. Oracle: the first results, copied when they were returned.",
)


def docs(path):
    t = ast.parse(open(path, encoding="utf-8").read())
    return {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}


def per_property():
    out = []
    for l in open("properties.jsonl", encoding="utf-8"):
        p = json.loads(l)
        i = p["id"]
        ev = f"evidence/{i}.json"
        out.append(f"### {i}. {p['title']}\n")
        if not os.path.exists(ev):
            continue
        d = json.load(open(ev, encoding="utf-8"))
        c = d["coverage"]
        out.append(f"*Decided by:* {METHOD.get(i, '')}\n")
        out.append(f"*Bounds:* {c['bounds']}.\n")
        out.append(f"*Outside:* {c['outside']}.\n")
        own = [a for a in d['assumptions'] if not a.startswith('z3 and the engine')]
        if own:
            out.append(f"*Assumes:* {'; '.join(own)}.\n")
        out.append(f"*Cost (quick):* {d['wall_s']:.0f} s; {len(c['cases'])} cases, {c['states']} paths, {c['assertions_proved']} assertions "
                   f"proved, {c['solver_queries']} solver queries ({c['solver_seconds']:.1f} s in z3), {len(c['functions_encoded'])} "
                   f"functions of the package executed symbolically.\n")
    return "\n".join(out)


def findings():
    fixed, known = [], []
    for l in open("known_findings.jsonl", encoding="utf-8"):
        if l.startswith("fixed:"):
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
            fixed.append(f"| {m[1]} | {m[2]} | {m[3]} |")
        elif l.strip():
            k = json.loads(l)
            known.append(f"| {k['id']} | {k['what']} |")
    return ("Repaired (each a `fix:` commit in /repo):\n\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fixed) +
            "\n\nRecorded, not repaired:\n\n| finding | what fails and why it is not repaired |\n|---|---|\n" + "\n".join(known) + "\n")


def plants():
    rows = []
    for f in sorted(glob.glob("seeded/*/meta.json")):
        m = json.load(open(f, encoding="utf-8"))
        rows.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    return "| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"


def main():
    text = open("DESIGN.md", encoding="utf-8").read()
    for name, f in (("properties", per_property), ("findings", findings), ("plants", plants)):
        text = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + f() + m[2], text, flags=re.S)
    open("DESIGN.md", "w", encoding="utf-8").write(text)


main()
