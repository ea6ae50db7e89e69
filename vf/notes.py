"""level_note of each property: what is proved, within which bound, and what is only evaluated on generated inputs."""
COMMON = ('Proved for all inputs within the stated bound by symbolic execution of the functions of /repo (AST of the running code, callees of the '
          'repository inlined) into SMT obligations, every one of which must be discharged on every run. Assumed: meaning of Python and of the '
          'libraries (numpy, h5py, pyvista, scipy, pathlib) given by vf/pydv; floats as reals, integers unbounded. ')
STANDIN = ' Bounded stand-in run beside it (not counted as proved): the contract evaluated on generated inputs with the real code.'
NOTE = {
    'C01': 'All operations, any list or range length and contents; offsets any integer. No bound on sizes.',
    'C02': 'add, merge (of two and three containers), queries: any block sizes, indices and nodes; number of element types in a container at most 2-3 (variants).',
    'C03': 'create_faces: any number of cells and any conforming connectivity; combinations of cell types by variants (9, 2D and 3D, mixed); default (CGNS) tables.',
    'C04': 'export and import of the compressed form: any number of faces; face types per connectivity at most 2-3 (variants).',
    'C05': 'Finite tables, every type and both conventions: decided completely.',
    'C06': 'reindex: any number of faces and any marks; number of marks at most 2-3, face types at most 2 (variants).',
    'C07': 'Any number of faces and marks of any content; number of marks at most 2-3 (variants).',
    'C08': 'Any mesh size, number of planes, coordinates; cell types by variants, marks at most 2.',
    'C09': 'Any nx, ny, nz.',
    'C10': 'Content of the file as a function of any mesh (any size, coordinates, face nodes, owners; face types quad/tri by variants, at most 3 marks), the mesh read from any valid file (any byte order, version 2 and 3), preparation of faces and marks against the contracts of C03, C06, C07. Files are modelled as the sequence of packed runs; integers fit their type.',
    'C11': 'Content of the file and what is read back, for any number of nodes and cells and any values; at most 6 fields, up to 3 degrees of freedom per cell (variants). Files are modelled as the sequence of packed runs; doubles are opaque bit patterns.',
    'C12': 'Sections of any written file, search in files of three sections with any contents, the file cut at any byte (1 zone, 2 fields). Files are modelled as the sequence of packed runs; section names are concrete.',
    'C13': 'Writer: content of the mesh and solution files as a function of any mesh (any size, owners, numbering; at most 3 marks, 2 face types per set). Reader: mesh and solution as a function of any valid file (faces of 2 to 4 nodes, at most 2 zones). Preparation of faces and marks against the contracts of C03, C06, C07. Three conservative and four statistics fields.',
    'C14': 'The whole chain from the lines of a file to the mesh: node blocks and element blocks of any length, any coordinates, any order of the node numbers 1..n, any connectivity and element numbers, formats 2.2 and 4.1 (one to three node blocks, possibly empty or with one node). Bounds: nine plans of at most 4 element blocks with concrete entity tags, physical tags and names (the code only compares them); words of a file read back the number they print.',
    'C15': 'Any number of elements, nodes, numbering and connectivity; at most 3 sections and 3 boundary conditions (variants). h5py is an assumed contract; the CGNS tree is built by the contract.',
    'C16': 'Any number of cells, positions, values and cell order; series of one and two files; three fields. The nearest-neighbour search, cell centres and HDF5 storage are assumed contracts. The xdmf side file is not covered.',
    'C17': 'extract of cells: any grid, any selection, any data. Averages, fluctuations and modes along z: any number of cells per plane and any values, 2 and 3 planes (variants), scalar and vector variables; the extraction inside is used through its contract; the Fourier transform and the square root are uninterpreted. That a valid mesh is never refused is proved for exact arithmetic only; rounding of plane positions is covered by the bounded stand-in.',
    'C18': 'find_safe_newfile and the path operations: any file name, any state of the file system; dumps (vtkMesh, DataSetList, probes) and the conversion commands write only to a new name and leave every other file as it was.',
    'C19': 'The three conversion commands with every combination of the format, folder, scaling, removal and extrusion options: any file name, file system, factor, number of planes, field values. Readers and writers are replaced by their interface (their contracts are C10-C16, C20); argparse is run natively; removal lists are sampled (present, absent, several names); meshes of one cell type.',
    'C20': 'Round trips for any number of cells and nodes, cell types by variants; pyvista grids and HDF5 storage are assumed contracts.',
    'C21': 'Any series length, values (increasing times), limits of the window and window width (at least 4 values, one full window); three variables, five filters. Fourier transform, logarithm and Hann window are uninterpreted functionals of the values: what is proved is which values are transformed and where the results go.',
    'C22': 'Any set of available files, any contents, array sizes and positive values, any one variable and the listed pairs of requests; files of one table with one line of coordinates. sqrt, log and power are uninterpreted functions: definitions are compared term by term, not by rounding.',
    'C23': 'Any order n, any abscissa; assumed: the linear solve is exact and the Vandermonde matrix regular, so rounding accuracy is only covered by the bounded stand-in.',
}


def note(prop, proved):
    if proved:
        return COMMON + NOTE.get(prop, '') + STANDIN
    return 'Bounded stand-in, nothing proved: the contract is evaluated on generated inputs with the real code.'
