#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements and anchors stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
M='cfdtools/meshbase/'; I='cfdtools/ic3/'

prop('C01','Index lists denote one integer sequence in either representation',
 "An index list stands for the finite sequence of integers it was built from, whether it was given as an explicit list or array or as an inclusive first/last range: size, export as a list, item access, shifting by an offset, concatenation and appending all give what the same operation on that sequence gives. Compression never changes the sequence and leaves the index list in range form exactly when the sequence is a run of consecutive integers in increasing order (an empty list stays valid). Operations that return a new index list leave their operands unchanged.",
 ['inputs','histories'], "every integer sequence (empty, singleton, negative, unsorted, with gaps or repeats), both representations, every offset, every chain of operations",
 "The tests build three fixed index lists; the equivalence of the two representations must hold for every length and every content, including the almost-consecutive lists that compression must not turn into a range.",
 [M+'_connectivity.py'], [('indexlist.set_range/set_list/list/size/shift/append/compress/__add__/__getitem__', M+'_connectivity.py')],
 [dict(name='_range/_list/_type', meaning='the two representations of the sequence', where=M+'_connectivity.py:indexlist')])

prop('C02','Element containers keep every (index, nodes) pair through add, merge, query',
 "Adding a block of elements keeps, for every element already there and every added one, the association of its index with its ordered node list; without an explicit index the block is numbered consecutively from the number of elements already present, and the element count grows by the block size. Merging containers keeps every element's type and node list and shifts the indices of each container by the total number of elements of the containers before it, without altering the merged containers. The queries (list of (index, nodes), nodes of a list of elements, all indices, all nodes) return exactly what the container holds.",
 ['inputs','histories'], "every sequence of additions and merges, any element types in any order, repeated types, list or range indices, any block sizes",
 "Tests add two or three tiny blocks of one type; the association must survive any sequence of additions, type mixes and index representations.",
 [M+'_connectivity.py'], [('elem_connectivity.add_elems / importfrom_merge / index_elem_tuples / nodes_of_indexlist / nodelist / all_index', M+'_connectivity.py')],
 [dict(name='_elem2node, _nelem', meaning='per type: index list and element-to-node array', where=M+'_connectivity.py:elem_connectivity')])

prop('C03','Face extraction partitions cell faces into boundary and internal exactly once',
 "For every conforming mesh (no face shared by more than two cells), building faces from cells gives each distinct cell face exactly once: a face belonging to one cell is a boundary face whose owner is that cell and whose neighbour is -1, a face shared by two cells is an internal face connected to these two cells, and nothing else appears. Each extracted face lists the nodes of its cell face in the reversed order of the face table of the first recorded cell, so that with the default tables boundary faces of cells ordered by the standard convention point outward. Faces and their cell pairs are numbered consistently in both sets, including when a face type has no boundary face or no internal face.",
 ['inputs'], "every conforming mesh of hexahedra, prisms, pyramids, tetrahedra (and 2D cells), of any size, cell order, node numbering, index representation",
 "Tests use two hexahedra or two quadrangles; the partition must hold for any mesh, including mixed types, permuted cell indices and face types without internal or without boundary faces.",
 [M+'_connectivity.py', M+'_elements.py', M+'_mesh.py'], [('elem_connectivity.create_faces_from_elems', M+'_connectivity.py'), ('Mesh.make_face_connectivity', M+'_mesh.py'), ('elem2faces', M+'_elements.py')],
 observe=['face2node/face2cell of the internal and boundary face sets'])

prop('C04','Compressed (CSR) face connectivity round-trips',
 "Exporting a face connectivity to the compressed form lists the faces in increasing face index, with offsets starting at 0, increasing by the number of nodes of each face and ending at the total number of nodes, and the nodes of each face in their original order. Importing a compressed connectivity gives every face its position as index and its nodes in order, with the face type of its node count, whatever the mix of sizes. Import followed by export is the identity, and export followed by import gives back every (index, nodes) pair in usable flat index lists.",
 ['inputs'], "every face connectivity with any mix and order of 1- to 4-node faces, any index permutation covering 0..n-1",
 "One fixed three-face example is tested; the offsets and the grouping by size must be right for every mix of sizes and every index permutation.",
 [M+'_connectivity.py'], [('exportto_compressedindex / importfrom_compressedindex / compressed_listofindex', M+'_connectivity.py')])

prop('C05','Element face tables are closed, oriented surfaces of known types',
 "For every volume element type and both numbering conventions (CGNS default and GMSH) the faces listed for an element form a closed surface: every edge of the element's faces is traversed exactly twice, once in each direction, every node of the element is used, and face tables agree with the standard convention of that format up to the documented reversal. Node counts, dimensions, face type by node count and extruded types are mutually consistent: every referenced type is a declared type, an extruded type has one more dimension and twice as many nodes, and every linear cell type handled by readers and writers maps to a declared type of the same node count. All corner faces of one element have the same orientation sense.",
 ['inputs','configurations'], "every element type, every face, every edge, both conventions: a finite space that is enumerated completely",
 "Tests compare helper functions on copies of the same tables; no test states that the tables describe a closed oriented surface or that the cross-references between tables exist.",
 [M+'_elements.py','cfdtools/gmsh/_gmsh.py','cfdtools/vtk/_vtk.py','cfdtools/cgns/cgns.py'], [('elem2faces tables, nnode_elem, dim_elem, face_from_nnode, extruded_face', M+'_elements.py'), ('gmshtype_elem','cfdtools/gmsh/_gmsh.py'), ('vtktype_ele','cfdtools/vtk/_vtk.py')])

prop('C06','Boundary renumbering keeps geometry, owners and marks',
 "Renumbering boundary faces by marks is a permutation of the boundary faces that carries each face's nodes and owner cell with it: every mark contains after renumbering exactly the same geometric faces as before, and every face keeps its owner. After it, each mark is a contiguous range, the ranges follow each other from 0 in the order of the marks, and cover all boundary faces. Marks that overlap, leave out face 0, or reference faces beyond the marked ones are refused with an error.",
 ['inputs'], "every boundary face set with any mix of face types and any partition into marks, in any order, with any order of faces inside a mark",
 "Tests only check that conversion of a few meshes runs; no test follows an individual face through the renumbering.",
 [M+'_mesh.py', M+'_connectivity.py'], [('Mesh.reindex_boundaryfaces', M+'_mesh.py'), ('indexlist.compress', M+'_connectivity.py')])

prop('C07','Node marks become the right face marks, and every boundary face is marked',
 "Turning node-based marks into face-based ones gives each mark exactly the boundary faces all of whose nodes belong to the mark, under their boundary-face index, and leaves face-based marks, names, types and properties untouched. Completing the marks puts exactly the boundary faces that belong to no mark into one extra boundary mark with the requested (unused) name, creates no extra mark when none is missing, reports the missing faces, and does not modify existing marks.",
 ['inputs'], "every mesh with separated boundary faces and every family of node or face marks, overlapping or not, empty or complete",
 "Tests convert four meshes whose marks cover the boundary; selection by node sets and completion must be exact for every mark family.",
 [M+'_mesh.py'], [('Mesh.bocomarks_set_node_to_face / make_unmarked_BC / list_boco_index', M+'_mesh.py')])

prop('C08','Extrusion builds exactly the stacked mesh',
 "Extruding an n-node 2D (or 1D) mesh over p planes gives p*n nodes where node i of plane k is the original node i translated by the k-th extrusion coordinate times the direction, and, for each original cell and each layer, exactly one cell whose first nodes are the cell's nodes in plane k and whose last nodes are those of plane k+1 in the ordering of the extruded type, numbered without collision. Node marks are repeated in every plane under the same name and type, and the first and last planes are marked as two extra boundary node marks. The original mesh is not modified.",
 ['inputs'], "every number of planes >= 2, any extrusion coordinates and direction, any mix of triangles and quadrangles, any number of elements and nodes, any marks",
 "The only test extrudes one small quadrangle mesh; index collisions, wrong layer offsets or triangle support only show with other sizes and types.",
 [M+'_mesh.py', M+'_connectivity.py', M+'_elements.py'], [('Mesh.export_extruded', M+'_mesh.py'), ('elem_connectivity.extrude', M+'_connectivity.py'), ('extruded_face', M+'_elements.py')])

prop('C09','Generated Cartesian boxes are valid structured meshes',
 "For all positive nx, ny, nz the generated box has (nx+1)(ny+1)(nz+1) nodes at the grid positions i/nx, j/ny, k/nz, nx*ny*nz hexahedra numbered 0..n-1 each joining the eight corners of one grid cell in the standard order with positive volume, every grid cell being present once. The six marks imin, imax, jmin, jmax, kmin, kmax contain exactly the nodes of the corresponding side.",
 ['inputs'], "all nx, ny, nz >= 1",
 "Two sizes are tested by their counts only.",
 [M+'simple.py'], [('Cube.export_mesh / _elems / nodeglobindex_ijk / elemglobindex_ijk', M+'simple.py')])

prop('C10','IC3 v2 and v3 files give back the mesh they were written from',
 "Writing a mesh to an IC3 version 2 or 3 file and reading it back gives the same node coordinates bit for bit, the same faces (nodes in order, up to the renumbering of boundary faces), the same two cells for every face, the same boundary marks (name, type, periodic data, set of geometric faces), one additional internal zone covering exactly the remaining faces, and the same cell partition, in every byte order. Writing what was read once more gives the same mesh again. The byte order and the version are recognised from the file alone.",
 ['inputs','configurations'], "every valid mesh (any cell type mix, numbering, marks including none), endianness native/little/big, versions 2 and 3",
 "Tests compare a re-read of two sample files with one byte order; faces, owners, marks and partition are not compared for generated meshes, mixed cells or both byte orders.",
 [I+'writerV2.py', I+'writerV3.py', I+'reader_legacy.py', I+'_ic3.py', M+'_mesh.py', M+'_connectivity.py'], [('writer.set_mesh/__WriteRestartConnectivity', I+'writerV2.py'), ('reader._ReadRestartConnectivity/export_mesh', I+'reader_legacy.py'), ('BinaryRead/BinaryWrite', I+'_ic3.py')])

prop('C11','IC3 v2 and v3 files give back the fields and state they were written with',
 "Node and cell scalar, vector and (cell) tensor fields written to an IC3 version 2 or 3 file are read back under the same name, on the same support (node or cell), with the same shape and bit-identical values, in every byte order; version 3 also preserves 64-bit integer scalars and several degrees of freedom per cell. Step, time, time step and averaging weights read from a file and written again are unchanged.",
 ['inputs','configurations'], "every set of fields, sizes (including equal node, face and cell counts) and values, both versions and all byte orders",
 "Tests only convert files that ship with the repository; field support is decided by counts, so coincidences of counts, integer fields, tensors and weights are never exercised.",
 [I+'writerV2.py', I+'writerV3.py', I+'reader_legacy.py'], [('__WriteRestartVar/__WriteInformativeValues', I+'writerV2.py, writerV3.py'), ('_ReadRestartVar/_ReadInformativeValues/_set_ndof_properties', I+'reader_legacy.py')])

prop('C12','IC3 binary sections are self-delimiting and damaged files are refused',
 "In every IC3 v2 or v3 file written, each section header is 256 bytes and announces exactly the number of bytes up to the next header, so the sections can be walked from the 8-byte file header to the final end-of-file section which ends the file. Searching for a section returns the next one of the requested kind with its name, integer and real data, and leaves the position on its payload, or reports its absence. A file cut anywhere before its end (inside the file header, a section header, mesh data, field data or the final end-of-file section) makes reading raise an error instead of returning a mesh.",
 ['inputs','crash_points'], "every mesh and field set written, every section kind searched from every position, every truncation point",
 "No test looks at the byte layout or at a truncated file.",
 [I+'_ic3.py', I+'writerV2.py', I+'writerV3.py', I+'reader_legacy.py'], [('restartSectionHeader.write/readVar/readReqVar', I+'_ic3.py'), ('BinaryRead', I+'_ic3.py')])

prop('C13','IC3 v4 (HDF5) files give back the mesh and solution they were written from',
 "Writing a mesh to an IC3 version 4 mesh file and reading it back gives the same coordinates, faces, face-cell pairs, and boundary marks (name, type, geometric faces, periodic translation), plus one internal zone covering exactly the remaining faces; offsets of the boundary table are increasing and cover all faces. With a solution file, the conservative fields, statistics fields, step, time and weights come back with the same values and shapes. Reading a mesh file alone gives a complete mesh.",
 ['inputs'], "every valid mesh with any marks in any order, every solution field set",
 "Tests write two sample meshes and read back the counts.",
 [I+'writerV4.py', I+'readerV4.py'], [('writer._write_connectivities/_write_boundaries/_write_solution_vars/_write_solution_stats', I+'writerV4.py'), ('reader._read_connectivity/_read_variables/_read_informative_values', I+'readerV4.py')])

prop('C14','GMSH files of format 2 and 4.1 are read into the mesh they describe',
 "Reading an ASCII GMSH file gives every node (numbered from 1) its coordinates by node number, every element of the highest dimension with its nodes in file order and its type, and one boundary node mark per physical name of the boundary dimension (the name fluid being reserved for the domain) containing exactly the nodes of its boundary elements; elements of lower dimension do not become cells. Format 4 files give the same mesh as the equivalent format 2 file, whatever the split into entity blocks (including blocks of one node) and entity numbering.",
 ['inputs'], "every ASCII format 2.x or 4.1 file with linear elements, 2D and 3D, any block structure, physical groups and entity tags",
 "A handful of files are read and only counts are looked at; block structures and tag layouts vary freely.",
 ['cfdtools/gmsh/reader.py','cfdtools/gmsh/_gmsh.py'], [('reader.read_data/__read_sections_V2/__read_sections_V4/__create_bnd/export_mesh','cfdtools/gmsh/reader.py')])

prop('C15','CGNS/HDF5 files are read into the mesh they describe',
 "Reading an unstructured CGNS zone gives its coordinates, its elements of the base dimension under zero-based file numbering with zero-based node numbers in file order, and for every boundary condition a mark under its family name (or its own name) whose nodes are the listed vertices, or the nodes of the listed faces, or the listed cells, according to its location (mark names being distinct). Conditions that cover the whole domain are filtered out as internal, and each condition keeps its boundary condition type.",
 ['inputs'], "every single-zone unstructured file with supported element types, any number and order of sections and conditions, point lists and element lists at vertices, faces or cells",
 "Two sample files are read and only converted.",
 ['cfdtools/cgns/cgns.py'], [('cgnszone.elemcon/export_BC/coords, cgnsMesh.export_mesh','cfdtools/cgns/cgns.py')])

prop('C16','Packed VTK series are aligned with the reference cells',
 "When a list of VTK files is read, the values stored for each file at cell c are the values of that file's cell located at the centre of the reference (first) mesh's cell c, whatever the cell order in the file, for scalar and vector data, and a file whose cells do not coincide within the tolerance is refused. The dumped HDF5 file contains the reference mesh and, for every file in order, every selected field and the file's time value (including time zero), and nothing else.",
 ['inputs'], "every list of files on the same cells, any cell permutation per file, any field names and shapes, any time values, any tolerance",
 "Tests read ten sample files without asserting which value goes to which cell.",
 ['cfdtools/vtk/_vtkList.py','cfdtools/data.py','cfdtools/vtk/_vtk.py'], [('vtkList.read/check_order/dumphdf','cfdtools/vtk/_vtkList.py'), ('DataSetList.add_datalist/_dumphdfgroup','cfdtools/data.py')])

prop('C17','Plane averaging and cell extraction of VTK meshes keep cells in place',
 "Extracting cells returns a mesh with exactly the requested cells in the requested order, with the same type, the same ordered point coordinates and no unused points. Averaging along a direction assigns to each cell of the extracted first plane the statistics (average, RMS, modes, phases, snapshot) of exactly the cells lying on its line across all planes ordered by position, whatever the cell order of the mesh; the requested outputs and no others are created. Meshes whose planes do not match within tolerance are refused.",
 ['inputs'], "every unstructured grid of mixed linear cells, any cell selection and order; every extruded cell arrangement, any cell permutation, fields of any shape, every option combination",
 "Tests average analytic fields on one ordered cube with loose numeric checks.",
 ['cfdtools/vtk/_vtk.py'], [('vtkMesh.vtk_extract_cells/vtk_zconvolution','cfdtools/vtk/_vtk.py')])

prop('C18','Safe output names never designate an existing file',
 "Asking for a safe new file name returns a path in the same folder with the same extension that does not exist at that time: the requested one unchanged when it is free, otherwise the requested stem followed by (n) with the smallest positive n that is free, and reports whether the name changed. Dumps and conversions that do not ask for overwriting leave every existing file unmodified and return the name actually written.",
 ['inputs','histories'], "every set of existing files, every file name (several dots, no extension, folders), any sequence of writes",
 "Tests remove outputs first; no test has several numbered files present or checks that they are untouched.",
 ['cfdtools/api.py','cfdtools/_cli.py','cfdtools/data.py','cfdtools/vtk/_vtk.py'], [('_files.find_safe_newfile/change_dir/remove_dir/change_suffix','cfdtools/api.py'), ('write_generic','cfdtools/_cli.py'), ('DataSetList.dumphdf','cfdtools/data.py'), ('vtkMesh.dumphdf','cfdtools/vtk/_vtk.py')])

prop('C19','Command line conversion does what its options say and nothing else',
 "Conversion commands read the input with the format given by --fmt or, without it, the unique format registered for the file extension (unknown extensions are an error), and write the converted mesh to the input's stem with the target's extension in --outpath or the current folder. --scale multiplies each coordinate by its own factor and changes nothing else; --remove-cell-data and --remove-node-data remove exactly the named fields and keep all others, names that are absent being reported and ignored; --extrude extrudes to the requested number of layers before scaling. Without these options the mesh and the data are written unchanged.",
 ['inputs','configurations'], "every combination of options, names, factors, paths and formats",
 "Tests run each option once and check only that a file appears.",
 ['cfdtools/_cli.py','cfdtools/api.py',M+'_mesh.py','cfdtools/data.py'], [('cli_argparser.parse_filenameformat / write_generic','cfdtools/_cli.py'), ('Mesh.scale/pop_celldata/pop_nodedata',M+'_mesh.py'), ('fileformat_reader/fileformat_writer','cfdtools/api.py')])

prop('C20','HDF5 and VTK mesh conversions keep points, cells and metadata',
 "Converting a mesh to a VTK grid and back, or dumping it to a cfdtools HDF5 file and restoring it, keeps every node coordinate and every cell's type and ordered nodes, cells of each type staying in the same relative order, for any mix of element types with a VTK equivalent (bar2 to hexa8). Files written with a data type and version report the same data type and version when opened again; writing without a version or with an unknown data type is refused.",
 ['inputs'], "every mesh with any mix of element types with a VTK equivalent (bar2 to hexa8) and sizes, every data type and version",
 "Tests dump one cube and check that the file exists.",
 ['cfdtools/vtk/_vtk.py','cfdtools/hdf5/_hdf5.py','cfdtools/data.py'], [('vtkMesh.set_mesh/export_mesh/importhdfgroup/dumphdf','cfdtools/vtk/_vtk.py'), ('h5File.open/write_unsmesh','cfdtools/hdf5/_hdf5.py')])

prop('C21','Time spectra have consistent axes and leave their inputs alone',
 "A spectrum computed from a time series gives, for each requested variable over the requested time window, the modulus of the discrete Fourier transform of exactly that window, on a frequency axis of the same length computed from the window's average time step, without the time variable itself. A spectrogram gives one row per half-overlapping window with the frequencies of that window. The source data set and the caller's list of names are unchanged, and computing twice gives the same result.",
 ['inputs','histories'], "every time series length, window, subset of variables (with or without time in the list), repeated calls",
 "One signal with default arguments is tested; windows and variable filters never are.",
 ['cfdtools/data.py'], [('DataSet.dtstats/dataSet_spectrum/dataSet_spectrogram','cfdtools/data.py')])

prop('C22','Probe variables are read or derived from the right definitions',
 "Requesting a probe variable loads it from its file when that file exists and otherwise computes it from its definition (velocity norm, sound speed with gamma 1.4, Mach number, Riemann invariants 5a+u and 5a-u, entropy log(p/rho^1.4)/0.4), obtaining in the same way whatever it depends on; a variable that is already present is not changed. If some needed variable is neither in a file nor computable the request fails with an error naming a variable. File columns are interpreted as iteration, time, size, then data, coordinates being a single line of positions.",
 ['inputs','configurations'], "every subset of available files, every variable request order, every array size and positive values",
 "One test reads a generated set of probe files for plotting.",
 ['cfdtools/probes/data.py'], [('phydata.check_data/read_data/compute_*','cfdtools/probes/data.py')])

prop('C23','Lagrange interpolation and gradient weights are exact on the polynomial space',
 "For any order and either basis, the interpolation weights reproduce every polynomial of degree below the order, and the gradient weights its derivative, at any abscissa, to rounding accuracy.",
 ['inputs'], "every order, basis and abscissa",
 "Tests cover orders 3 and 4 at a few points.",
 ['cfdtools/utils/polybase.py'], [('poly1d.interp_weights/diff_weights','cfdtools/utils/polybase.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
