"""single source of /verif/properties.jsonl and /verif/MANIFEST.json:  python3 tools/props.py"""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []  # (id, title, statement, over, text, why, files, mechanisms[(name, where)], observe, technique, level, note)


def prop(id, title, statement, over, text, why, files, mech, observe, technique, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level, note=note))


MB = "cfdtools/meshbase/"
prop("C01", "Face extraction yields every distinct face once, with its cells, outward",
     "From any conforming mesh of linear elements (triangles, quadrangles, tetrahedra, pyramids, prisms, hexahedra, in any "
     "mix, numbering or grouping), face generation reports each distinct cell face exactly once: as internal with the two "
     "cells sharing it, or as boundary with its single cell and no neighbour (-1). Faces are numbered contiguously from 0 "
     "in each set, row i of the face/cell table being that of face i. In 3-D the nodes of every face turn so that its "
     "normal points out of the first cell of its row.",
     ["inputs", "configurations"],
     "all conforming meshes x cell numberings x block orders x node numberings",
     "The tests count faces on two hexahedra and three quadrangles; nothing checks identity, owners or orientation, and no "
     "sample covers every way two elements can touch.",
     [MB + "_connectivity.py", MB + "_elements.py"],
     [("face/neighbour pairing", "create_faces_from_elems"), ("element face tables", "elem2faces")],
     ["faces and face/cell tables of a mesh after face generation"],
     "explicit-state exploration of mesh growth (gluing transitions) executed on the real face builder against an "
     "independent geometric face table", "model_checking",
     "Exhaustive for all gluings of <=2 (3-D mixed), <=3 (2-D, and 3-D) cells; reference tables are justified by geometry at start-up.")

prop("C02", "Node marks become exactly the boundary faces they span; leftovers are marked",
     "Converting node-based boundary marks to face marks gives each mark exactly the boundary faces all of whose nodes "
     "carry the mark. Completing the marks then adds at most one extra mark, holding precisely the boundary faces that no "
     "mark contains; names and types of the existing marks are kept and no face is marked twice by the completion.",
     ["inputs", "histories"],
     "all node subsets (and pairs of subsets) as marks on every small mesh, any order or duplication in the node list",
     "Tests only assert that the conversion of one grid or sample file leaves no unmarked face.",
     [MB + "_mesh.py"],
     [("node to face marks", "Mesh.bocomarks_set_node_to_face"), ("completion", "Mesh.make_unmarked_BC")],
     ["marks of the mesh after conversion"],
     "explicit-state enumeration of every node-mark subset over a mesh state space, judged by a set-based reference",
     "model_checking", "Exhaustive over all 2^n node subsets of meshes with <=9..12 nodes.")

prop("C03", "Boundary reindexing is a pure renumbering into one range per mark",
     "Reindexing the boundary faces by marks leaves the mesh the same up to the numbering of its boundary faces: every "
     "mark still contains the same faces (nodes, orientation and adjacent cell), internal faces are untouched, and each "
     "mark becomes one contiguous range, the ranges being disjoint and covering all boundary faces. Repeating it changes "
     "nothing. If two marks share a face the operation refuses with an error.",
     ["inputs", "histories"],
     "all assignments of boundary faces to marks, any listing order inside a mark, repeated application",
     "No test inspects faces after reindexing; the permutation is exercised on a few files only through conversions.",
     [MB + "_mesh.py"],
     [("reindexing", "Mesh.reindex_boundaryfaces"), ("range compression", "indexlist.compress")],
     ["marks, boundary faces and face/cell table"],
     "explicit-state enumeration of all mark assignments and mark-list orders, real renumbering vs set-based reference",
     "model_checking", "Exhaustive over all assignments to <=3 marks + unassigned for meshes with <=8 boundary faces.")

prop("C04", "Face connectivity survives flat (CSR) packing, unpacking and merging",
     "Packing a face connectivity into the flat form lists the faces in index order with their exact node sequences, and "
     "unpacking it restores the same numbered faces whatever the mix and interleaving of face sizes. Merging several face "
     "sets renumbers the faces of each set after those of the previous sets and changes nothing else. The numbering check "
     "accepts exactly the connectivities that use every number from 0 to n-1 once.",
     ["inputs"], "all sequences of face sizes up to length 7 and all index permutations, all merges of up to 3 sets",
     "One test packs two quadrangles; unpacking and interleaved sizes are only met incidentally.",
     [MB + "_connectivity.py"],
     [("packing", "elem_connectivity.exportto_compressedindex"), ("unpacking", "elem_connectivity.importfrom_compressedindex"),
      ("merge", "elem_connectivity.importfrom_merge")],
     ["face connectivity objects"],
     "exhaustive enumeration of face-size sequences, numberings and merge programs vs a list reference",
     "model_checking", "Exhaustive within the length bounds.")

prop("C05", "Index sets behave as plain integer lists under every sequence of operations",
     "Whatever sequence of set, append, shift, concatenate and compress operations is applied, an index set has the same "
     "length, elements and order as a plain list given the same operations, whether it is stored as a list or as a range. "
     "Compression never changes the elements and yields a range exactly when they are consecutive increasing integers; "
     "operations never modify their other operands.",
     ["histories"], "all operation sequences up to depth 5 over a small alphabet of lists and ranges",
     "Tests cover three constructions, no operation sequence.",
     [MB + "_connectivity.py"], [("dual representation", "indexlist")], ["index set content"],
     "breadth-first explicit-state search over operation histories against a Python list model", "model_checking",
     "All histories to the depth bound; states deduplicated on (representation, content).")

prop("C06", "Extrusion of a 2-D mesh is the exact stack of its layers, with marks",
     "Extruding a 2-D mesh through n planes gives n copies of its nodes, each displaced by its plane position times the "
     "direction, and n-1 layers of prisms and hexahedra joining the copies of each triangle and quadrangle, numbered "
     "contiguously from 0. Every original node mark covers the copies of its nodes in all planes and two marks cover the "
     "first and last planes; the result is a valid mesh: its face generation and export work and its volume is area times height.",
     ["inputs", "configurations"], "all small 2-D meshes x plane positions x directions x marks",
     "One CGNS file of quadrangles is extruded and only the absence of unmarked faces is asserted.",
     [MB + "_mesh.py", MB + "_connectivity.py", MB + "_elements.py"],
     [("mesh extrusion", "Mesh.export_extruded"), ("cell extrusion", "elem_connectivity.extrude")],
     ["extruded mesh, IC3 file written from it"],
     "explicit-state exploration of 2-D mesh growth x extrusion parameters vs an independent layer model", "model_checking",
     "Exhaustive over 2-D gluings of <=3 cells and grids, <=4 planes.")

prop("C07", "Scaling and morphing move nodes only, in any sequence",
     "Scaling multiplies each coordinate by its factor and morphing replaces the coordinates by the image of the given map; "
     "connectivity, faces, marks, data and the mesh the operation was not applied to are unchanged, whatever the source of "
     "the mesh and the order in which transformations, face generation and exports are interleaved. A sequence of "
     "transformations equals the composition of the maps.",
     ["histories"], "all sequences of scaling, morphing, face generation, display and export steps up to a depth on meshes from every source",
     "One command-line test scales a CGNS mesh and checks only that a file exists.",
     [MB + "_mesh.py"], [("scale/morph", "Mesh.scale, Mesh.morph")], ["node coordinates and connectivity"],
     "breadth-first search over transformation histories against a composed-function model", "model_checking",
     "All histories to the depth bound over meshes produced by each source.")

prop("C08", "Generated boxes tile the unit cube and name its six sides exactly",
     "A generated box of nx x ny x nz cells has (nx+1)(ny+1)(nz+1) distinct nodes on the regular grid of the unit cube and "
     "nx.ny.nz positively oriented hexahedra of equal volume that tile it. Its six marks are exactly the nodes of the sides "
     "x=0, x=1, y=0, y=1, z=0, z=1; they cover the boundary, each face of it once.",
     ["inputs"], "all (nx, ny, nz) up to a bound, plus elongated boxes",
     "Tests build three sizes and check counts.",
     [MB + "simple.py"], [("grid generation", "Cube.export_mesh")], ["mesh and written files"],
     "exhaustive enumeration of box sizes on the real generator vs the analytic grid", "exploration",
     "Exhaustive for nx,ny,nz <= 4 (quick) / 6 (thorough) and lines of up to 40 cells.")
IC = "cfdtools/ic3/"
prop("C09", "IC3 V2/V3 files written describe exactly the mesh they were given",
     "A mesh written as IC3 version 2 or 3, in either byte order, gives a well-formed file (magic number, version, sections "
     "whose sizes chain exactly to the final end-of-file section, counts consistent) whose coordinates are bit-identical, "
     "whose faces are exactly the mesh faces with their adjacent cells and outward orientation, and whose zones are one "
     "contiguous face range per boundary mark with its name, kind and periodic data, boundary zones first and then internal "
     "faces. Node, cell and face numbers referenced are all in range.",
     ["inputs", "configurations"], "all small meshes x mark assignments x versions x byte orders",
     "Two tests compare the size of a rewritten file with a reference; content is never parsed back.",
     [IC + "writerV2.py", IC + "writerV3.py", IC + "_ic3.py"],
     [("writers", "writerV2.writer, writerV3.writer"), ("section header", "restartSectionHeader")], ["file bytes"],
     "explicit-state exploration of meshes x marks x format options through the real writers, judged by an independent parser",
     "model_checking", "The parser is written from the documented layout, independent of the reader under test.")

prop("C10", "Reading IC3 V2/V3 recovers the mesh and its zones whatever wrote the file",
     "For any well-formed IC3 version 2 or 3 file, in either byte order, the mesh obtained by reading has bit-identical "
     "coordinates, the same numbered faces with the same node sequences and adjacent cells, zones with the same names, "
     "kinds, face ranges and periodic data, the same partition and the same step/time/parameter values. Reading with or "
     "without integrity checks gives the same mesh.",
     ["inputs", "configurations"], "all small meshes x zone layouts x periodic kinds x versions x byte orders",
     "Three sample files are read and only completeness of marks is asserted.",
     [IC + "reader_legacy.py", IC + "_ic3.py"], [("reader", "reader_legacy.reader")], ["mesh exported by the reader"],
     "explicit-state exploration of files produced by an independent writer, executed on the real reader", "model_checking",
     "Files come from an independent reference writer.")

prop("C11", "Field data survive IC3 V2/V3 write/read exactly",
     "Node and cell fields (scalar, vector, cell tensor; floating point, and integer scalars in version 3; several degrees "
     "of freedom per cell in version 3) stored in a file are read back bit for bit under the same name, kind and location, "
     "even when node, face and cell counts coincide; writing what was read preserves them again. Step, time, time step and "
     "statistics weights survive the same way.",
     ["inputs", "configurations"], "all combinations of field kinds, locations, versions, byte orders and special values, on "
     "meshes including ones whose node, face and cell counts coincide",
     "No test compares any value written with the value read.",
     [IC + "reader_legacy.py", IC + "writerV2.py", IC + "writerV3.py"],
     [("variable sections", "__WriteRestartVar / _ReadRestartVar"), ("parameters", "__WriteInformativeValues / _ReadInformativeValues")],
     ["file bytes, data sets of the mesh read"],
     "exhaustive choice-tree exploration of field configurations, both directions against an independent parser/writer",
     "model_checking", "All configurations within the stated deviation bound.")

prop("C12", "IC3 V2/V3 content does not depend on the order of sections",
     "Reading an IC3 file gives the same mesh and data whatever the order of its sections, as the format documents, "
     "including parameters and fields placed before or between the mesh sections.",
     ["configurations"], "all section permutations within the bound of each generated file",
     "All sample files use one order.",
     [IC + "_ic3.py", IC + "reader_legacy.py"], [("section search", "restartSectionHeader.readVar")], ["mesh and data read"],
     "exhaustive enumeration of section permutations (all single moves and all permutations of section groups)", "model_checking",
     "Permutations bounded as stated in the evidence.")

prop("C13", "A truncated IC3 file is never accepted",
     "If a file of any IC3 version stops at any byte before its end, reading it reports an error instead of returning a "
     "mesh; so does listing its sections. The complete file is accepted.",
     ["crash_points"], "every proper prefix of generated files of each version, byte order and content",
     "No test reads a damaged file.",
     [IC + "_ic3.py", IC + "reader_legacy.py", IC + "readerV4.py"], [("record size check", "BinaryRead"), ("end of file section", "readVar")],
     ["outcome of reading"],
     "enumeration of every truncation point of real written files", "fault_enumeration", "Every byte length of every generated file.")

prop("C14", "Any chain of IC3 conversions preserves mesh, zones and solution",
     "Converting a case through any chain of IC3 versions 2, 3 and 4 (write then read) keeps the coordinates, the numbered "
     "faces with their cells and orientation, the zones (name, kind, range, periodic vector) and, when present, the conservative variables, "
     "statistics, step and time, identical to those of the first file. Writing a solution or a mesh alone works as documented.",
     ["histories"], "all conversion chains up to length 4 over the versions and byte orders, from several meshes and data sets",
     "The tests write each version once and never read version 4 back from a converted case with data.",
     [IC + "writerV4.py", IC + "readerV4.py", IC + "writerV2.py", IC + "writerV3.py", IC + "reader_legacy.py"],
     [("readers and writers of each version", "ic3 package")], ["mesh after each step"],
     "breadth-first search over conversion histories executed on the real readers/writers", "model_checking",
     "States deduplicated on canonical mesh content: the reachable set must be a single class.")

prop("C15", "Exports do not depend on what was done with the mesh before",
     "Writing a mesh in any format, displaying it or generating its faces, in any order and any number of times, never "
     "changes what a later export of the same mesh contains: each exported file is identical to the one a freshly built "
     "copy of the mesh would give.",
     ["histories"], "all sequences of exports, face generation, displays and reads up to a depth on the same mesh object",
     "Each test writes a mesh once.",
     [IC + "writerV2.py", MB + "_mesh.py", "cfdtools/vtk/_vtk.py"], [("in-place preparation of the mesh", "writerV2.writer.set_mesh")],
     ["files"],
     "breadth-first search over export histories of one live mesh, differential against fresh meshes", "model_checking",
     "All histories to the depth bound.")

prop("C16", "GMSH ASCII 2.x and 4.x files give the mesh and named boundaries they describe",
     "Reading any ASCII GMSH file of linear elements gives one node per listed node with its coordinates, exactly the "
     "cells of highest dimension with their type and nodes, and one node mark per named physical group of the boundary "
     "dimension, covering exactly the nodes of its elements, whether the boundary is split over several entities and blocks "
     "or not, whatever the node tags, whether groups of different dimensions share a number, and when an element belongs to "
     "several groups. The same mesh expressed in version 2.2 and 4.1 gives the same result.",
     ["inputs", "configurations"], "all file layouts (versions, node blocks, entity splits, element orders, mixed types, names) of small meshes",
     "Six files are read and only counts are checked.",
     ["cfdtools/gmsh/reader.py", "cfdtools/gmsh/_gmsh.py"], [("parsers", "gmsh reader")], ["exported mesh"],
     "exhaustive choice-tree exploration of file layouts emitted by an independent writer, run on the real reader", "model_checking",
     "All layouts within the stated deviation bound.")

prop("C18", "CGNS files give the mesh and boundary conditions they describe",
     "Reading an unstructured CGNS file gives its node coordinates, its cells of highest dimension with zero-based nodes "
     "numbered from 0 in file order, and one node mark per boundary condition under its family (or own) name, covering "
     "exactly the listed nodes or the nodes of the listed faces, with its type; boundary conditions of the same family make "
     "one mark covering all of them. Boundary conditions listing the whole domain (all nodes or all cells) are left out.",
     ["inputs", "configurations"], "all layouts (element sections, BC location, list kind, names, 2-D/3-D) of small meshes",
     "Two files are read and one assertion checks that all boundary faces are marked.",
     ["cfdtools/cgns/cgns.py"], [("reader", "cgnsMesh, cgnszone")], ["exported mesh"],
     "exhaustive choice-tree exploration of file layouts emitted by an independent HDF5 writer, run on the real reader", "model_checking",
     "All layouts within the stated deviation bound.")

prop("C19", "Results do not depend on which files were handled earlier in the process",
     "Reading, generating, converting or displaying any sequence of meshes of any formats in one process gives for each of "
     "them the same mesh, faces and files as in a fresh process.",
     ["histories"], "all pairs of 38 operations and longer sequences of fewer over readers, generator, face extraction, writers, series, probes and commands",
     "Each test handles one file; process-wide tables are changed by one reader and never restored.",
     [MB + "_elements.py", "cfdtools/gmsh/reader.py", "cfdtools/api.py", "cfdtools/cgns/cgns.py"],
     [("process-wide element table", "elem2faces"), ("format registry", "_fileformat_map")], ["results of each operation"],
     "exhaustive exploration of operation histories in forked processes, differential against fresh processes", "model_checking",
     "All sequences to the depth bound.")
VT = "cfdtools/vtk/"
prop("C20", "VTK and HDF5 exports restore the same nodes and cells",
     "A mesh exported to a VTK file or to the package's HDF5 format and read back has the same nodes, in order and "
     "bit-identical, and the same cells of each type with the same node sequences, in the same order within a type; cell "
     "volumes computed any number of times equal the geometric ones.",
     ["inputs", "configurations"], "all small meshes of every element type and mix",
     "One cube is written and read; only counts and total volume are checked.",
     [VT + "_vtk.py", "cfdtools/hdf5/_hdf5.py"], [("conversion", "vtkMesh"), ("HDF5 mesh", "h5File.write_unsmesh")], ["mesh read back"],
     "explicit-state exploration of mesh growth through both round trips vs the model mesh", "model_checking",
     "Exhaustive over gluings of <=2 cells and templates.")

prop("C21", "A VTK series is aligned on its first grid and incompatible grids are refused",
     "Reading a series of VTK files gives, for every file and every selected cell field, the value belonging to the same "
     "physical cell as in the first file, whatever the order of the cells in each file, with the time value of each file. A "
     "grid with a cell that does not match within the tolerance is refused, and the order check succeeds exactly when every "
     "grid lists its cells (or nodes) at the same positions as the first.",
     ["inputs", "histories"], "all cell permutations of each file in series of up to 3 files, field shapes, time values, perturbations",
     "One series with one fixed reordering is read, values are not checked.",
     [VT + "_vtkList.py", "cfdtools/data.py"], [("reordering", "vtkList.read"), ("order check", "vtkList.check_order")], ["data list"],
     "exhaustive enumeration of cell permutations and perturbations on the real reader vs per-cell identity", "model_checking",
     "All permutations of small grids.")

prop("C22", "A packed series and its XDMF index hold every field of every file",
     "Packing a series writes one HDF5 file with the mesh and, for each input file in order, every cell field with its "
     "exact values and its time. The XDMF index names for each step exactly these fields, with existing HDF5 paths, matching "
     "dimensions and matching kinds. No existing file is overwritten unless asked.",
     ["inputs", "configurations"], "series of 1..3 files, field kinds, grid types, times, file-name collisions",
     "One series is packed and one literal XDMF text is compared.",
     ["cfdtools/data.py", VT + "_vtkList.py", "cfdtools/hdf5/_hdf5.py"],
     [("HDF5 dump", "DataSetList.dumphdf"), ("XDMF", "xdmf_content")], ["HDF5 and XDMF files"],
     "exhaustive enumeration of small series, parsing both outputs independently", "model_checking", "All configurations within the bound.")

prop("C23", "Averaging along a direction gives true per-column statistics for any cell order",
     "Averaging an extruded grid along a direction gives one plane of cells where the mean, the fluctuation level, the "
     "requested Fourier modes and phases and the snapshot of each selected field are those of the column of cells above each "
     "cell, for scalar and vector fields and whatever the order of the cells in the grid. Only selected outputs appear, and "
     "grids whose planes do not match are refused.",
     ["inputs", "configurations"], "all cell permutations of small extruded grids x options x selections",
     "Tests run one grid in natural order and check output names.",
     [VT + "_vtk.py"], [("plane matching", "vtkMesh.vtk_zconvolution"), ("slice extraction", "vtkMesh.vtk_extract_cells")], ["slice mesh"],
     "exhaustive enumeration of cell orders and option combinations on the real code vs direct column statistics", "model_checking",
     "All permutations of small grids, all option combinations.")

prop("C25", "Spectra and spectrograms are consistent with the signal they describe",
     "The spectrum of a sampled signal has one amplitude per frequency for every signal, equal to the magnitude of its "
     "discrete Fourier transform over the selected samples; the spectrogram has non-negative increasing frequencies and for "
     "each of its time positions one value per frequency: the log magnitude of the tapered samples centred there. Neither changes the data set it is computed from nor the "
     "caller's selection.",
     ["inputs", "configurations"], "all lengths up to a bound, windows, ranges, selections",
     "All tests of these functions are commented out.",
     ["cfdtools/data.py"], [("spectrum", "DataSet.dataSet_spectrum"), ("spectrogram", "DataSet.dataSet_spectrogram")], ["data set returned"],
     "exhaustive enumeration of lengths, windows, ranges and selections vs a direct DFT", "exploration", "All parameter values within the bound.")

prop("C26", "Polynomial bases interpolate and differentiate exactly up to their order",
     "For every order and both basis families, the weights at any point reproduce every polynomial of lower degree exactly "
     "from its values at the basis points, the derivative weights reproduce its derivative, and the weights at a basis "
     "point select that point. Evaluation order and repetition do not change the weights.",
     ["inputs", "histories"], "orders 1..8, both families, all monomials, a grid of points, evaluation orders",
     "Tests check a few weights.",
     ["cfdtools/utils/polybase.py"], [("Vandermonde", "poly1d")], ["weights"],
     "exhaustive enumeration of orders, families, monomials and evaluation histories vs exact rational arithmetic", "exploration",
     "Exhaustive over the stated orders and points.")

prop("C27", "Writers never overwrite a file: a free name next to it is chosen",
     "Given any set of existing files, the name chosen for a new output is the requested one if free, otherwise the first "
     "free numbered variant of it in the same folder; the command-line converters write exactly there, in the requested or "
     "current folder, with the extension of the output format, and leave every existing file, the input included, unchanged.",
     ["histories", "configurations"], "all sets of pre-existing names within the bound, repeated runs, folders, extensions",
     "No test has an existing output.",
     ["cfdtools/api.py", "cfdtools/_cli.py"], [("safe names", "_files.find_safe_newfile"), ("converters", "write_generic")], ["file system"],
     "breadth-first search over file-system states under repeated conversions in a scratch folder", "model_checking",
     "All file-system states reachable within the bound.")

prop("C28", "Removing named data drops exactly that data from the output",
     "Asking a converter to remove cell or node data gives an output with every other field, identical, and without the "
     "removed ones; names that do not exist are ignored.",
     ["inputs", "configurations"], "all subsets of names to remove, existing or not, from cases with node and cell data",
     "One command line with an option is run; output content is not read.",
     ["cfdtools/_cli.py", MB + "_mesh.py"], [("option handling", "write_generic"), ("removal", "Mesh.pop_celldata, Mesh.pop_nodedata")], ["written file"],
     "exhaustive enumeration of removal subsets through the command line, output parsed independently", "model_checking",
     "All subsets of the field names.")

prop("C29", "Files are handled by the format of their extension or the one requested",
     "A command given a file of any readable format processes it with the reader of its extension, or with the explicitly "
     "requested format; an unknown or missing extension without a requested format is refused. Every registered format "
     "keeps both its reader and its writer.",
     ["inputs", "configurations"], "all extension x requested format combinations over every tool",
     "Tests pass one file per format.",
     ["cfdtools/_cli.py", "cfdtools/api.py"], [("registry", "fileformat_reader/fileformat_writer"), ("selection", "parse_filenameformat")],
     ["tool outcome"],
     "exhaustive enumeration of file type x extension x option combinations over the command-line tools", "exploration",
     "Full product.")

prop("C30", "Probe variables are read or derived from whatever files are present",
     "Requesting a probe variable succeeds exactly when it is stored or can be derived, directly or through other derived "
     "variables, from the files present, and then has the value given by its definition; otherwise the request fails with "
     "an error. Requests in any order and any number of times give the same values.",
     ["histories", "configurations"], "all subsets of available files x all request sequences up to depth 3",
     "Tests read one set of probes.",
     ["cfdtools/probes/data.py"], [("dependency resolution", "phydata.check_data")], ["probe data"],
     "breadth-first search over request histories for every subset of available files vs a dependency-closure model", "model_checking",
     "All subsets of files and all request sequences within the bound.")

prop("C31", "Timers accumulate running time and refuse misuse in any call sequence",
     "Under any sequence of start, pause and stop calls a timer reports the sum of its completed running intervals since "
     "the last stop, refuses to start while running and to pause or stop while not running, and a refused call changes nothing.",
     ["histories"], "all call sequences up to depth 7 under a controlled clock",
     "Timers are only used in passing.",
     ["cfdtools/api.py"], [("state machine", "Timer")], ["elapsed time, errors"],
     "breadth-first explicit-state search over call histories with a virtual clock", "model_checking", "All histories to the depth bound.")

prop("C32", "HDF5 files written carry the type and version tags that reading returns",
     "Every HDF5 file written through the package is tagged with its data type, data version and package version, and "
     "reopening it returns them; a file without tags has no type. A missing version, an unknown type or an unknown mode is "
     "refused at creation, and a refused opening leaves the existing file as it was.",
     ["configurations", "histories"], "all modes x types x versions and open/close sequences",
     "A few fixed combinations.",
     ["cfdtools/hdf5/_hdf5.py"], [("tagging", "h5File.open")], ["file attributes"],
     "breadth-first search over open/write/close histories of one file vs a tag model", "model_checking", "All histories within the bound.")

prop("C33", "Information tools accept every file the converters accept and change nothing",
     "The information commands complete, with a successful exit status from a shell, on every valid file of every supported "
     "format and report its actual contents: cfdinfo the numbers of nodes and cells and the names of the boundaries (and for "
     "IC3 files the number of faces and the names of the fields), ic3brief the name and sizes of every section in the order "
     "of the file, vtkbrief the numbers of points and cells and the names of the cell, point and field data. They create and "
     "modify no file.",
     ["inputs", "configurations"], "all formats x options x generated files",
     "One file per tool is passed, output is not inspected.",
     ["cfdtools/_cli.py", IC + "_ic3.py", "cfdtools/cgns/cgns.py"], [("commands", "cfdinfo, ic3brief, vtkbrief")], ["log output, file system"],
     "exhaustive enumeration of formats, files and options through the command line", "exploration", "Full product.")

prop("C34", "The package can be imported in any order",
     "Importing the modules of the package in any order, starting from any of them, in a fresh process succeeds, and gives "
     "the same registered formats.",
     ["histories"], "all ordered pairs of modules as first imports",
     "The test-suite always imports in one order per file.",
     ["cfdtools/data.py", MB + "_mesh.py", "cfdtools/api.py"], [("module structure", "cfdtools")], ["import outcome, registry"],
     "exhaustive enumeration of import orders in fresh interpreters", "model_checking", "All first-import pairs.")

prop("C35", "Probe maps draw the requested variable against the requested axis",
     "Mapping a probe variable, stored or derived, saves one figure named after the prefix, the variable and the kind of map, "
     "showing the values of this variable (or the magnitude of its spectrum at the low frequencies, the mean removed) against "
     "the requested axis and the time (or frequency), with the requested colours and number of levels, whatever was drawn before.",
     ["inputs", "configurations"], "all variables x axes x kinds of map x options, and ordered pairs of maps",
     "The plotting command is never run by the tests.",
     ["cfdtools/probes/plot.py", "cfdtools/plot.py", "cfdtools/_cli.py"], [("maps", "plot_timemap, plot_freqmap"), ("colours", "normalizeCmap")],
     ["arguments of the contour function, figure files"],
     "exhaustive enumeration of variables, axes, map kinds and options through the command line", "exploration", "Full product within the stated menus.")

prop("C36", "Data sets return exactly what was stored in them, whatever the sequence of calls",
     "A data set returns under each name the values last stored, its times and its node coordinates as given (time 0 and "
     "coordinate arrays included); its sampling statistics are those of the selected samples; representations and numbers of "
     "degrees of freedom that are not available are refused. Data sets do not influence each other.",
     ["histories"], "all sequences of calls up to depth 4 over two data sets of any representation",
     "Tests store one or two values.",
     ["cfdtools/data.py"], [("containers", "DataSetBase, DataSet, DataSetList")], ["names, values, properties"],
     "breadth-first search over call histories against a dictionary model", "model_checking", "All histories to the depth bound.")

prop("C37", "An IC3 export that runs out of disk space is reported and never taken for a complete file",
     "When the disk is full after any number of bytes, exporting a mesh to IC3 V2, V3 or V4 (with its solution or not), by the library "
     "or by a command, reports an error (a nonzero status from a shell); the IC3 readers and listing refuse what is left; and the "
     "same mesh exported again once there is space gives the complete file.",
     ["crash_points"], "all numbers of bytes that fit on the disk before the failure, for every IC3 writer and IC3-writing command",
     "The tests never write on a full disk.",
     ["cfdtools/ic3/writerV2.py", "cfdtools/ic3/writerV3.py", "cfdtools/ic3/writerV4.py", "cfdtools/hdf5/__init__.py", "cfdtools/_cli.py"],
     [("legacy writer", "binwriter.write_data"), ("HDF5 writer", "writerV4.writer.write_data"), ("commands", "write_generic, cfdwritecube")],
     ["errors and exit status", "what the readers make of the file left", "the file of the second export"],
     "fault injection by a file size limit of the operating system at every byte of every export, executed on the real writers and readers",
     "fault_enumeration", "Every byte of V2/V3 exports; V4 every 8 bytes (quick), every byte for three exports (thorough).")

prop("C38", "A GMSH or CGNS file cut short is refused unless nothing of the mesh is missing",
     "Any beginning of a GMSH ASCII (2.2, 4.1) or CGNS file is refused by its reader, unless the mesh it gives is the one of the "
     "complete file. What the reader refuses is refused by cfdinfo and by the converting commands, which then write no file.",
     ["crash_points"], "every length at which a generated file can have been cut, read by library and commands",
     "The tests read complete files only.",
     ["cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/_cli.py"],
     [("GMSH reader", "gmsh.reader.read_data"), ("CGNS reader", "cgnsMesh.read_data"), ("commands", "write_generic, cfdinfo")],
     ["errors, exported mesh, files written"],
     "fault injection: every byte length of files of independent writers, read by the real readers and commands", "fault_enumeration",
     "Every length of every generated file.")

prop("C39", "Chains of converting commands keep the mesh, its named boundaries and fields, transformed as asked",
     "Each run of cfdwrite_ic3v2, cfdwrite_ic3v3 or cfdwrite_vtk on a GMSH, CGNS, IC3 or generated file writes exactly one new file, which "
     "holds the cells, nodes, boundaries by name and kind (one more for the faces no name holds) and fields of its input, scaled by the "
     "factors of --scale and, for a 2-D mesh, extruded over the unit height in the layers of --extrude before scaling. Other options "
     "(--check, --info, --log, --outpath, --fmt, names to remove that are absent) do not change the content.",
     ["inputs", "configurations", "histories"], "all chains of commands and options from every small source file",
     "Tests run each command once on one sample and look at its return value.",
     ["cfdtools/_cli.py", MB + "_mesh.py", "cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/writerV2.py", "cfdtools/vtk/_vtk.py"],
     [("conversion", "write_generic"), ("options", "addarg_transform")], ["files written"],
     "explicit exploration of command histories, each file compared with a numbering-free model by an independent parser", "model_checking",
     "All products of command, transformation and neutral option on the first step; chains of up to 2 (quick) or 3 (thorough) further commands.")

prop("C40", "A command that cannot do what it is asked reports it and changes nothing",
     "When the input is missing, a folder, of no known extension, empty or not of its format, or an option is unknown, malformed, incomplete or "
     "impossible (output folder missing, negative number of layers, extrusion of a mesh that is not 2-D, box without cells), every command "
     "reports an error (nonzero status from a shell), creates no file and leaves the existing ones as they are; a right command run "
     "afterwards in the same process works as usual.",
     ["inputs", "configurations", "histories"], "all products of commands, inputs and options, and pairs of a refused and a right command",
     "Tests check three refusals, and never what is left on disk.",
     ["cfdtools/_cli.py", "cfdtools/api.py", "cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/ic3/_ic3.py", "cfdtools/vtk/_vtkList.py", MB + "simple.py"],
     [("arguments", "cli_argparser"), ("conversion", "write_generic"), ("box", "cfdwritecube")], ["errors, exit status, folder content"],
     "exhaustive enumeration of the product of commands, inputs and options executed on the real commands with a snapshot of the folder", "model_checking",
     "Complete product; shell status on 40 calls.")

prop("C41", "Commands running at the same time in one folder give what they give one after the other",
     "Two commands or library calls that run at the same time in one folder, with distinct or shared inputs and outputs, or one reading what the other "
     "writes, give the results and the files they give in one of the two sequential orders, however their file operations interleave; what reads a file "
     "that is being written refuses it or gets it complete.",
     ["schedules", "crash_points"], "all interleavings of the file operations of pairs of commands, up to a number of switches",
     "Tests run one command at a time.",
     ["cfdtools/_cli.py", "cfdtools/api.py", IC + "writerV2.py", IC + "writerV3.py", IC + "writerV4.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/vtk/_vtkList.py", "cfdtools/vtk/_vtk.py"],
     [("choice of the output name", "_files.find_safe_newfile"), ("writing", "write_data, dumphdf")], ["files and results of both processes"],
     "stateless model checking of the real processes: a preloaded library makes every file operation a scheduling point, all schedules up to a number of switches with partial-order reduction", "model_checking",
     "Pairs of 24 commands and calls, 2 switches (quick), 3 (thorough). One known finding: two commands which choose the same free name.")

prop("C42", "A killed export leaves earlier files intact and nothing that passes for complete",
     "When a process that exports (IC3 V2, V3, V4 with or without solution, packed series, HDF5 dumps, every converting command) is killed at any moment, the "
     "files that were there before are unchanged (for the commands and dumps, which choose a free name), what is left under the output name is refused by the "
     "readers unless it is complete, and the same export run again succeeds and gives the complete file.",
     ["crash_points"], "all file operations of every export as kill points, and lengths of each write",
     "Tests never interrupt an export.",
     [IC + "writerV2.py", IC + "writerV3.py", IC + "writerV4.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/data.py", "cfdtools/vtk/_vtkList.py", "cfdtools/_cli.py", IC + "reader_legacy.py", IC + "readerV4.py"],
     [("writing", "write_data, dumphdf"), ("refusal of incomplete files", "readers")], ["files left, errors of the readers"],
     "exhaustive enumeration of kill points of the real processes: a preloaded library stops the export before every file operation, or within a write", "fault_enumeration",
     "Every operation; write lengths by 16 bytes (quick) or 2, HDF5 by pages. VTK remainders are not judged.")

prop("C43", "An interrupted export or command reports it, and leaves nothing that passes for complete",
     "When an interruption (Ctrl-C) or a lack of memory strikes at any moment of an export, a reading or a command, it is reported (an error, never a success with "
     "another result), the files that were there before are unchanged (for the commands and dumps, which choose a free name), the IC3 files left under the output "
     "names are refused by their readers unless they are complete, and the same process can run the same export, or any other, again with the complete result.",
     ["crash_points"], "every line executed in the package by every export, reading and command as a point where KeyboardInterrupt or MemoryError is raised",
     "Tests never interrupt anything.",
     [IC + "writerV2.py", IC + "writerV3.py", IC + "writerV4.py", IC + "reader_legacy.py", IC + "readerV4.py", "cfdtools/_cli.py", "cfdtools/gmsh/reader.py", "cfdtools/cgns/cgns.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/data.py"],
     [("writing", "write_data, dumphdf"), ("refusal of incomplete files", "readers")], ["files left, errors of the readers, results of later exports"],
     "exhaustive enumeration of the lines executed as fault points of the real code: an exception is raised before each, in a forked process", "fault_enumeration",
     "Of the executions of one line the first and the last (quick), or more (thorough). Packs and .vtu files, which the package does not read back, are only judged by the other clauses.")


def main():
    with open(V / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if (V / "mc/checks" / f"{p['id'].lower()}.py").exists():
            checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                           "thorough_cmd": f"./check {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "MC_HOOKS", "enable": "no hooks were needed: the checks drive the unmodified package from outside", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All checks enumerate; none samples. See DESIGN.md."}
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(P), "properties", len(checks), "checks")


main()
