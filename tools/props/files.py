P('F01', 'Readers of HDF5 files ask only for items the writers have stored',
  '''Everything read from the output, restart, IGA domain and sparse matrix
  files by the functions provided for that is stored there by the
  corresponding writer: each group, array and attribute a reader requires is
  created, under the same name, on every path of the writer that creates its
  group, unless the reader handles its absence or asks for the kind of the
  data first; as many numbered items as the stored count says are written and
  read; values are stored and read under their own names; every type mark
  written is recognized; data of sparse matrices are interpreted in the format
  they were stored in. The state of a time stepper has the same
  items in get_state() and set_state(); restored states are not discarded by
  a later initialization and locked variables are unlocked to be set.''',
  'inputs histories', '''all kinds of output data, states, steppers and
  options of the writers''',
  '''A test writes and reads a particular kind of data; a missing item shows
  only with the combination of options that omits it.''',
  ['sfepy/discrete/fem/meshio.py', 'sfepy/discrete/problem.py',
   'sfepy/base/ioutils.py', 'sfepy/discrete/iga/io.py',
   'sfepy/solvers/ts.py'],
  [('writers', 'HDF5MeshIO.write, write_mesh_to_hdf5, Problem.save_restart,'
    ' write_iga_data, write_sparse_matrix_hdf5, write_to_hdf5'),
   ('readers', 'HDF5MeshIO.read*, write_xdmf_file, Problem.load_restart,'
    ' read_iga_data, read_sparse_matrix_hdf5, read_from_hdf5')],
  'path-sensitive abstract interpretation of writers and readers over paths'
  ' of file nodes; effect ordering of restored data',
  '''The values stored are matched by names only; loops are assumed to be
  executed at least once.''')
