P('C01', 'A cached result is reused only for the request it was computed for',
  '''Quadrature points, basis values, reference mappings, evaluated variables,
  DOF connectivities, data of hyperelastic and multi-linear terms, factorised
  matrices and other results kept in caches are returned only to requests that
  would compute the same: every argument and every mutable datum that
  influences the cached value is in the key of the cache or is compared before
  the reuse (region, integral, integration, step, time derivative, trace,
  matrix structure and values, ...).''',
  'inputs histories', '''every pair of requests to one cache, in any order''',
  '''A test makes one request, or the same requests in one order; a stale
  result needs two requests that differ in just the one datum missing in the
  key.''',
  ['sfepy/discrete', 'sfepy/terms', 'sfepy/solvers', 'sfepy/homogenization',
   'sfepy/base/ioutils.py'],
  [('memoised results', 'dictionary, attribute and reuse caches found in all'
    ' functions (look-up and store of the same key or attribute)')],
  'interprocedural data and control dependence analysis of memo sites',
  '''Dependence on parameters by access paths; an object with a `name` or a
  `key` in the cache key stands for all its data; the owner of a cache is
  assumed to reset it when its own data change (property C02).''')

P('C02', 'Changing data discards what was computed from it',
  '''After the DOFs or the history of a variable, the state vector of several
  variables, the basis transformation, nodes or mesh coordinates of a field,
  the function of a material, the equations of a problem, the set of active
  boundary conditions or the backend of a multi-linear term change through the
  functions provided for that (set_data, set_state, set_state_parts,
  fill_state, apply_ebc/ic, advance, set_mesh_coors, set_function,
  set_equations, set_backend, ...), nothing computed from the previous data is
  used any more: cached evaluations, mappings, basis values, material data,
  reduced state vectors, matrix graph, tangent matrix and compiled expressions
  are discarded or updated, unless the caller asks to preserve them. The
  residual and the matrix are evaluated at the state they are called with.''',
  'histories inputs', '''every sequence of changes and evaluations, every
  combination of options''',
  '''Stale data appear only after a particular sequence (evaluate, change,
  evaluate again) of particular data; the tests mostly evaluate once.''',
  ['sfepy/discrete', 'sfepy/terms', 'sfepy/solvers'],
  [('setters', 'Variable.set_data, Variables.set_state*, FEField.clear_*,'
    ' Material.set_function, Problem.set_equations, set_mesh_coors,'
    ' update_materials, ETermBase.set_backend'),
   ('caches', 'evaluate_cache, qp_coors, bf, mappings*, datas, mtx_a, r_vec,'
    ' expr_cache')],
  'path-sensitive interprocedural typestate analysis (source stored, derived'
  ' data reset) with three-valued evaluation of update guards',
  '''The table of sources and derived data is fixed; arrays obtained from the
  objects and changed in place by the user are not covered.''')
