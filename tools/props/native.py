P('N01', 'Native temporaries are released exactly once on every path',
  '''Every block of memory that native code allocates for temporary use is
  released exactly once on every way out of the routine, error exits
  included, and is never used after its release or released while
  uninitialised; memory owned by a mesh, connectivity or evaluation context
  is released when that object is destroyed.''',
  'inputs fault_sequences', '''every argument shape and mode of every native
  routine, and every point at which an error can end it early''',
  '''Leaks and double releases on error exits and rare modes change no returned
  value, and the tests run only a few modes of each routine and no failing
  ones.''',
  ['sfepy/terms/extmods', 'sfepy/discrete/common/extmods',
   'sfepy/discrete/fem/extmods', 'sfepy/discrete/iga/extmods'],
  [('paired allocation and release at end labels',
    'sfepy/terms/extmods/*.c: fmf_createAlloc / fmf_freeDestroy'),
   ('object destructors', '__dealloc__ in cmesh.pyx, cmapping.pyx, igac.pyx,'
    ' mesh_free, conn_free')],
  'typestate dataflow on clang CFGs and Cython trees',
  '''Path-sensitive typestate of every locally allocated native object over
  all CFG paths; trusts the allocation primitives' documented meaning (their
  own bodies are checked separately).''')

P('N02', 'Errors detected by native code are raised and leave no trace',
  '''When native code reports an error, the Python operation that triggered it
  raises an exception. A failed operation leaves no error state behind: later
  valid operations give the same results as in a fresh process.''',
  'fault_sequences histories', '''every native error report, in every operation
  that reaches it, followed by any sequence of valid operations''',
  '''Tests hardly ever trigger a native error and none continues in the same
  process after one; the damage shows only in the next native call.''',
  ['sfepy/discrete/common/extmods/common_python.c',
   'sfepy/discrete/common/extmods/_fmfield.pxd',
   'sfepy/discrete/common/extmods/cmesh.pyx',
   'sfepy/discrete/common/extmods/crefcoors.pyx',
   'sfepy/discrete/fem/extmods/bases.pyx', 'sfepy/terms/terms.py'],
  [('error flag and Python exception set together',
    'common_python.c: errput, errset, errclear'),
   ('check and clear after native calls', '_fmfield.pxd: check_ccore_error'),
   ('handlers of term evaluation', 'terms.py: Term.call_function,'
    ' Term.call_get_fargs')],
  'must-pass-through analysis over C, Cython and Python',
  '''Call-graph closure of C functions that can report errors, must-check
  analysis of every call from Cython on all paths, and handler coverage in the
  Python dispatchers. Decides reporting and clearing, not that every bad input
  is detected.''')

P('N03', 'Term kernels treat each cell separately and visit every cell',
  '''Every per-cell term evaluation uses, for each cell, only that cell's own
  geometry, basis, material and connectivity data, and computes every cell
  exactly once, so the contribution of a cell does not depend on which other
  cells are evaluated or on their order.''',
  'inputs', '''every mesh, region, number and order of cells and every
  combination of per-cell and constant data''',
  '''Tests evaluate kernels on uniform meshes with constant data, where using
  the data of a wrong cell gives the same numbers.''',
  ['sfepy/terms/extmods'],
  [('positioning on the current cell', 'sfepy/terms/extmods/*.c: FMF_SetCell,'
    ' FMF_SetCellX1 in the cell loops'),
   ('connectivity rows', 'ele_extractNodalValues* with conn + nEP * ii')],
  'forward must-analysis of cell positioning in kernel CFGs',
  '''Interprocedural must-analysis over every cell loop of every kernel; the
  arithmetic within a cell is not decided.''')
P('N04', 'Native objects keep the arrays they point into',
  '''A native object (mesh, basis evaluation context, reference mapping) never
  uses the memory of arrays that Python has released: every array whose
  address is put into its native data is held by the object, or by the object
  that created it, as long as the address is there, also when the array is
  replaced. Arrays that show memory owned by native code (connectivities,
  orientations) are renewed or dropped by the operations of the object that
  release or reallocate this memory.''',
  'inputs histories', 'all ways of creating, using and releasing the objects',
  '''Released memory usually keeps its contents until it is reused, so a test
  gets right results by accident.''',
  ['sfepy/discrete/common/extmods/cmesh.pyx',
   'sfepy/discrete/fem/extmods/bases.pyx',
   'sfepy/discrete/iga/extmods/igac.pyx',
   'sfepy/discrete/common/extmods/cmapping.pyx',
   'sfepy/discrete/common/mappings.py'],
  [('contexts', 'CLagrangeContext, CNURBSContext'), ('mesh', 'CMesh,'
    ' CConnectivity'), ('mapping', 'PyCMapping, CMapping')],
  'ownership analysis of addresses stored in native data of extension objects'
  ' (identities of arrays, attributes holding them, C escape summaries) and'
  ' renewal of views of native memory',
  '''Arrays obtained from a mesh are assumed not to be used after the mesh
  itself is gone.''')
