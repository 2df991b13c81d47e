"""python3 tools/design.py: writes DESIGN.md from the properties, the checks, KNOWN_FINDINGS.txt, seeded/ and the texts below.

Costs come from tools/costs.json (written by tools/costs.py)."""
import importlib
import json
import os
import re
import runpy
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path[:0] = [os.environ.get("MC_REPO", "/repo"), str(V)]
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

HEAD = """# Model checking cfdtools

`cfdtools` is a sequential Python library and a set of commands. There are no threads, no network and no durable
transactions: its behaviours are determined by **inputs** (meshes, files, options), **histories of calls** on live
objects and on the process, and the **state of the file system**. Model checking therefore means here: fix a finite
alphabet (cells to glue, events of a history, departures from a default file layout, cell permutations, byte lengths
of a file, existing file names), enumerate *all* the states or executions it generates within a stated bound, execute
the **real package** on every one of them, and judge each with an independent reference. Nothing is sampled, no solver
is asked; the only use of the seed is to choose a residue class of the largest families in the quick tier (stated in
`bounds` of the evidence; the thorough tier takes the whole family, or a larger class).

## How the checks are built

* `mc/core.py` runs a check: `cases()` cuts the space into work items run by a process pool (spawn once, fork per item batch, per-item time
  limit; an item that does not finish or raises an error of the harness makes the run exit 2, never 0). `bfs()` is the explicit-state search: it replays
  the event history on a *fresh real object*, applies one more event, checks the property, and merges states by a canonical form. `explore_choices()` is the
  deviation-bounded choice tree (all executions with 0, 1, 2, ... departures from the default answer). Violations get a replayable artefact in
  `replay/` (the case number; `./check Cxx --case I` runs it again) and a signature compared with `KNOWN_FINDINGS.txt`.
* `mc/adapter.py` is the only shared place that looks inside objects of the package.
* **References**, none of which shares code with the package: `refmesh.py` (face tables of the six element types,
  checked at start-up against geometry: closed surfaces with outward normals; face extraction, volumes),
  `ic3ref.py` (parser and writer of IC3 V2/V3 from the documented layout), `gmshref.py` (writer of GMSH 2.2/4.1),
  `cgnsref.py` (writer of CGNS/HDF5 with plain h5py), `vtkgen.py` (VTK grids).
* **State spaces**: `meshspace.py` explores conforming meshes as a transition system (glue one more cell on a free face,
  in every rotation, all element types; canonical up to node renumbering), plus closed templates and grids. `ic3gen.py`
  derives model files from meshes.
* *Binding of the models to the code*: there is no separate model that could drift. Every state or history explored is
  executed on the package imported from `/repo`'s working tree (`traces_validated_against_impl` in the evidence is the
  number of such executions whose result was compared with the reference).
* Nondeterminism: the clock is virtual (C31, C19), `PYTHONHASHSEED`, numerical threads and the byte-code cache are fixed by
  `./check`, files live in a scratch folder per process that is removed at the end.

`./check Cxx --tier quick|thorough [--seed N] [--case I]`; `MC_REPO=/some/copy` runs against a copy of the package.
`tools/props.py` generates `properties.jsonl` and `MANIFEST.json`, `tools/design.py` this file, `tools/plant.py`
builds and validates planted bugs, `tools/fixes.py` records repairs, `tools/revert.py` undoes every repair in a scratch
copy and runs the check of its property, `tools/costs.py` measures the checks.

Hooks: none; the package is driven from outside. The only commits in `/repo` are `fix:` commits.
"""

NOTE = {  # oracle and reach, per property
    "C01": ("Reference face extraction on the reference face tables; identity of every face, its owners, contiguity and orientation.",
            "Every way two (three in 2-D) elements can touch is a state; the pairing of faces is only exercised by counts in the tests."),
    "C02": ("Set inclusion: a face belongs to a mark iff all its nodes carry it; the completion is the set difference.",
            "All 2^n node subsets, which no sample covers, and histories mixing marks, conversions and completions on one mesh."),
    "C03": ("Each mark is kept as a set of (nodes, orientation, owner) and must not change; ranges must be disjoint and contiguous.",
            "The permutation is only observable when faces are listed in scattered order: all assignments and listing orders are enumerated."),
    "C04": ("Plain lists of faces.", "Interleavings of face sizes, where the offset arithmetic matters, are all enumerated."),
    "C05": ("A Python list given the same operations; operands and lists handed over by the caller are compared before/after.",
            "The dual representation (list, range) has transitions that appear only after several operations."),
    "C06": ("Layer model: copies of nodes and prisms/hexahedra between consecutive copies; the IC3 file written from the result is parsed and compared with the reference face extraction.",
            "Marks, planes, directions and cell numberings are combined exhaustively."),
    "C07": ("The composition of the same maps in float64; everything else of the mesh is digested before and after, also for the other meshes made from the same source.",
            "Aliasing between meshes and between coordinates shows up only in histories over meshes of every origin (readers return read-only, 32-bit, integer or shared arrays)."),
    "C08": ("The analytic grid.", "All sizes, including degenerate (1) and elongated ones where strides collide."),
    "C09": ("An independent parser reads the bytes back; faces, owners, zones, kinds, periodic data, special coordinates and names are compared with the reference extraction.",
            "The tests compare file sizes only."),
    "C10": ("Files come from the independent writer, so that the reader is not judged by its own writer.", "Zone layouts, listing orders and paired (periodic) faces never written by the package."),
    "C11": ("Independent parser and writer, both directions.", "Deviation-bounded product of kinds, locations, versions, byte orders, degrees of freedom, parameters, on meshes whose node/face/cell counts coincide (the code once distinguished locations by size)."),
    "C12": ("The mesh read from the default order of the same file.", "All permutations of groups of sections; all single moves and swaps."),
    "C13": ("Any proper prefix must raise.", "Every byte length of every file is a fault point."),
    "C14": ("Every intermediate file is parsed independently (V2/V3) or read with h5py (V4) and compared with the model of the first file.", "Chains; information lost by one version is lost only there (assumptions)."),
    "C15": ("Differential: the export of a freshly built mesh of the same source.", "Search over event histories with state merging reaches the fixpoint for most meshes (the number of states stops growing before the depth bound)."),
    "C16": ("The model the file was emitted from.", "Choice tree over layouts: node blocks and tags, entities, group patterns, extra sections, number formats."),
    "C18": ("The model the file was emitted from.", "All assignments of faces to conditions and every description of a condition; orders of the element sections."),
    "C19": ("Differential: the same operation in a fresh process.", "All sequences of operations of the alphabet in forked processes; the objects kept from earlier operations are looked at again after each later one."),
    "C20": ("The model mesh (nodes bit for bit, cells by type) and geometric volumes.", "Every gluing through both round trips; histories of load/volume calls."),
    "C21": ("Fields are functions of the physical cell, so the right value is known without matching.", "All cell orders of each file of the series; one defect at each place."),
    "C22": ("HDF5 read with h5py, XDMF with an XML parser; values by physical cell.", "All series of the menus; existing files; folders; mixed grids with interleaved types."),
    "C23": ("Statistics of the columns known by construction of the grid.", "All cell permutations of the grids within the bound; options and selections."),
    "C25": ("A direct O(n^2) Fourier transform of the selected samples.", "All lengths, windows and ranges: failures depend on parity and divisibility."),
    "C26": ("Exact rational arithmetic (fractions) on the float nodes.", "All orders, monomials, points and histories of queries."),
    "C27": ("A set of existing names; bytes of all files compared.", "All sets of existing variants, all histories of commands."),
    "C28": ("The output parsed independently must equal the output without removal, minus the removed fields.", "All subsets of names; names resembling each other."),
    "C29": ("The rule of the documentation: requested format, else the extension, else refusal.", "The full product of contents, names, requested formats and commands."),
    "C30": ("A dependency closure and the defining formulas.", "All 512 subsets of files, all request histories."),
    "C31": ("A two-variable automaton; intervals of 2^k units identify which intervals were summed.", "All call sequences, no merging."),
    "C32": ("A tag model (type, version, or none).", "All open/write/close histories with outside changes."),
    "C33": ("The model the file was emitted from; digests and dates of all files.", "Full product; output is parsed."),
    "C34": ("The registry obtained in the usual order.", "All ordered pairs (triples) of first imports."),
    "C35": ("The array passed to the contour function is recomputed from the files.", "Product of variables, axes, kinds and options, and ordered pairs."),
    "C36": ("A dictionary.", "All call histories on two live objects (shared defaults, aliasing)."),
    "C37": ("The readers must refuse the remainder; the second export must equal the undisturbed one byte for byte (HDF5: content).",
            "Every number of bytes after which the disk is full (RLIMIT_FSIZE in the process that exports, or in a shell command for its status). VTK exports are not "
            "claimed: the VTK library itself reports nothing on a full disk and reads the empty remainder."),
    "C38": ("The mesh read from the complete file, itself compared with the model it was written from.",
            "Every length of every file. VTK files are not claimed: the VTK library reads a cut file as an empty grid without any report."),
    "C39": ("A model without numbering: cells as sets of outward faces, boundaries as sets of faces, fields by cell or node, all in coordinates; transformations act on coordinates. IC3 files are "
            "read by the strict parser of the framework, VTK files by the VTK library.",
            "Product of source files, commands, transformations and neutral options, then chains on the IC3 files obtained. Named boundaries of GMSH and CGNS files are node marks in the "
            "package: when the nodes of a name span other faces (one-cell-thick layers), the conversion gives it these faces too; this design limit is an assumption of the check."),
    "C40": ("A call either is right by construction or must be refused; the folder is compared byte for byte.",
            "Product of commands, contents under every extension, names and options; pairs of wrong options; a refused command before each right one."),
    "C41": ("Linearizability: results and folder of each schedule against those of the two sequential orders.",
            "mc/shim/shim.c, loaded by LD_PRELOAD and compiled at each run, announces every file operation of the two forked processes (Python, HDF5 and VTK alike) and waits for the explorer. "
            "All schedules with 2 switches (quick) or 3 (thorough), reduced: operations on files the other process does not touch commute. Known finding: two processes which both see that an "
            "output name is free before either has created the file both write it (the choice and the creation of the name are two steps; a repair needs reservation of the name and its removal "
            "on every failure, in all writers: not a small one)."),
    "C42": ("Snapshot of the folder before; the file of an undisturbed export; the readers of the package.",
            "Same preloaded library: the export is killed before each of its operations, or within a write. A write of HDF5 is torn at pages only: its tables are rewritten in place without checksums."),
    "C43": ("The undisturbed run of the same job: result, files; the readers of the package; another command of which the file is known.",
            "A trace function counts the lines executed in the package and raises before one of them, in a forked process; the same process then runs the same job and another command. "
            "Unlike a kill (C42), an exception closes the files properly: an HDF5 file cut short this way is well formed, which is how a defect of the IC3 V4 writer was found (repaired: the "
            "attributes its readers require are now written last)."),
}

MISSED = {  # planted bugs not caught when first planted -> what was added
    "C05-append-inplace": "the lists handed over by the caller are kept and compared",
    "C09-last-zone": "meshes given by their mixed faces with marks listed in another order than their faces",
    "C22-growing-geometry": "several exports of the same series in one process",
    "C25-fast-length": "longer signals with lengths of all residues",
    "C26-memo-weights": "query histories over two bases",
    "C34-eager-import": "each module alone in a fresh interpreter",
    "C35-figure-kept": "ordered pairs of maps in one process",
    "C07-swap-in-place": "maps returning the same array for two coordinates",
    "C15-mark-order": "periodic marks without transformation; names, kinds and properties of the marks compared in every state",
    "C28-prefix": "field names that resemble each other",
    "C06-node-set-order": "marks listing a node several times",
    "C10-zone-limit": "all ordered pairs of names that look like something else",
}

TAIL = """## Limits, and behaviours seen but not claimed

* Bounds are bounds: nothing is said about meshes with more cells than enumerated (beyond the grids and templates),
  about longer histories, nor about values outside the menus (special values are in the menus: signed zeros, infinities,
  NaN, denormals, largest integers where the format allows them).
* Threads within one process are not examined: the package has no locks and does not claim to support them; processes
  which run at the same time are (C41).
* A power failure (data handed to the system but not on the disk) is not modelled; kills (C42), full disks (C37) and
  truncated files (C13, C38) are.
* Higher-order elements, binary GMSH files, structured CGNS zones and several zones are refused or unsupported by the package.
* Seen, not claimed as properties, and left alone because no documentation says what is right: the V3 writer raises
  `KeyError` on float32/int32 fields; node tensors are not written by the V2 writer (no section code is known for
  them); several degrees of freedom cannot be written in V2; `Mesh.check` completes the marks of the mesh it checks;
  writers prepare the mesh of the caller in place (node marks become face marks, so that extruding afterwards is
  refused); `DataSetList.add_datalist` adds the time to the caller's dictionary; `elem_connectivity.add_elems` appends
  to the index set it was given first; mode `a` of `h5File` is documented but refused; `Timer.stop(nelem=0)` divides by
  zero; `--log` as last argument of a command stops at import; `cfdwritecube --fmt VTK` is refused; `--extrude n` makes
  n layers whereas its help says planes; `reindex_boundaryfaces` reports duplicate or missing faces by an error of numpy instead
  of its own message; node marks that share an edge or a face overlap once converted and are refused by the IC3 writers.
"""


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True).stdout


def main():
    out = [HEAD, "## The checks\n"]
    props = [json.loads(x) for x in open(V / "properties.jsonl")]
    man = {c["property"]: c for c in json.load(open(V / "MANIFEST.json"))["checks"]}
    costs = json.load(open(V / "tools/costs.json")) if (V / "tools/costs.json").exists() else {}
    seeded = {d.name: json.load(open(d / "meta.json")) for d in sorted((V / "seeded").iterdir())}
    fixes = [x for x in open(V / "KNOWN_FINDINGS.txt").read().splitlines() if x.startswith(("fixed:", "known:"))]
    for p in props:
        i = p["id"]
        c = importlib.import_module("mc.checks." + i.lower())
        out.append(f"### {i} {p['title']}\n")
        out.append(f"*Decided by* {man[i]['technique']} ({man[i]['level']}; `mc/checks/{i.lower()}.py`).\n")
        doc = re.sub(r"\s+", " ", (c.__doc__ or "").strip())
        out.append(f"* **Explored**: {doc}")
        if hasattr(c, "cases"):
            try:
                c.cases("quick", 1)
            except Exception:
                pass
        b = getattr(c, "bounds", None)
        if b:
            q, t = b("quick"), b("thorough")
            out.append(f"* **Bounds (quick)**: {q}")
            if t != q:
                out.append(f"* **Bounds (thorough)**: {t}")
        elif getattr(c, "RULE", None):
            out.append(f"* **Bounds**: {c.RULE}")
        o, r = NOTE[i]
        out.append(f"* **Oracle**: {o}")
        out.append(f"* **Why beyond the tests**: {p['why_tests_cant']} {r}")
        if getattr(c, "ASSUMPTIONS", None):
            out.append("* **Assumptions**: " + "; ".join(c.ASSUMPTIONS) + ".")
        k = costs.get(i, {})
        if k:
            out.append("* **Cost** (8 cores): " + ", ".join(f"{t} {v['wall_s']:.0f} s ({v['n']} {v['unit']})" for t, v in k.items()))
        bugs = [n for n, m in seeded.items() if m["property"] == i]
        if bugs:
            out.append("* **Planted bugs caught**: " + ", ".join(bugs))
        nf = [f for f in fixes if f"property={i} " in f]
        if nf:
            out.append(f"* **Defects found in the package**: {len(nf)} (listed below)")
        out.append("")
    out.append("No property is listed under `not_applicable`: each one is decided by exhaustive enumeration within the bounds above.\n")
    out.append("## Defects found and repaired\n\nEach was a violation on the original tree, reproduced on the real code, and repaired by one `fix:` commit. `tools/revert.py` undoes each "
               "repair in a scratch copy and checks that the check of the property reports it again.\n")
    for f in fixes:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
        if m:
            out.append(f"* {m[1]} `{m[2]}` {m[3]}")
    out.append("\n## Known findings (recorded, not repaired)\n")
    for f in fixes:
        m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", f)
        if m:
            out.append(f"* {m[1]} (`{m[2]}`) {m[3]}. Not repaired: what the command should print for a composite data set (per block? totals?) is a design choice of the maintainer.")
    out.append("\n## False alarms met and corrected\n\n" + FALSE)
    out.append("## Planted bugs\n\nAll keep the 86 tests passing and have a demonstration (exit 0 on the repaired tree, nonzero with the patch). Every one is reported by the check of its "
               "property in its present state; the last column tells what had to be added for those missed at first.\n\n| id | needs | breaks | added |\n|---|---|---|---|")
    for n, m in seeded.items():
        out.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {MISSED.get(n, '')} |")
    out.append("\n" + TAIL)
    (V / "DESIGN.md").write_text("\n".join(out))


FALSE = """* C09/C10: periodic data of the internal zone and the name of the zone completing the boundary are free: not compared.
* C14: the reader of version 4 keeps only what that version stores; compared accordingly (assumptions).
* C15: `Mesh.check` and the writers may add a mark for the faces without mark; what is judged is the marks given by the caller and the files.
* C19: durations printed by the tools are masked; stderr is not compared.
* C20: VTK computes signed volumes of wedges with the opposite convention: absolute values for prisms.
* C22: the time of a step in the XDMF index is its position in the series, as asserted by the package's own test.
* C23: phases are only compared where the magnitude is not zero.
* C25: the window is extended to an odd number of samples, the documented scheme.
* C30: stored variables take precedence over derived ones.

"""

if __name__ == "__main__":
    main()
