P('T01', 'Prepared term arguments match the evaluation function in every mode',
  '''For every term, every declared argument row, mode and evaluation mode, the
  arguments prepared by the term (their number, order and kinds: mapping,
  array, number) are exactly those the evaluation function selected for that
  mode takes, for the residual, the tangent matrix and the pointwise
  evaluations alike.''',
  'inputs configurations', '''every term, argument row, mode, evaluation mode
  and differentiation variable''',
  '''Tests evaluate many terms in one mode each; combinations that no test or
  example uses fail, or silently compute something else, only when a user
  writes them.''',
  ['sfepy/terms', 'sfepy/terms/terms.py', 'sfepy/terms/extmods/terms.pyx'],
  [('declared rows and modes', 'arg_types, modes, arg_shapes, arg_geometry_types'
    ' of the Term subclasses'),
   ('argument preparation', 'get_fargs(), get_eval_shape(), set_arg_types()'),
   ('evaluation functions', 'terms.pyx, static methods of the terms')],
  'abstract interpretation of argument preparation vs callee signatures',
  '''Compares lengths and kinds of all returned tuples with the selected
  function, for each configuration; run-time array shapes are not decided.
  Dynamically selected functions are counted as unresolved.''')

P('T02', 'Kernel inputs keep their roles through the Python/Cython/C layers',
  '''Each quantity that a term passes to native code (state, material, virtual
  and state geometry, gradients, coefficients, modes) reaches the parameter of
  the native routine that carries this role: none is exchanged with another,
  replaced by another, or fed from a different argument on the way.''',
  'inputs', '''every native call of every term, for all values of its inputs''',
  '''Exchanged inputs of the same shape raise nothing, and give equal results
  whenever the two quantities coincide, as they do in most tests (same field
  for test and trial functions).''',
  ['sfepy/terms', 'sfepy/terms/extmods/terms.pyx', 'sfepy/terms/extmods'],
  [('wrapper signatures', 'terms.pyx: def functions and array2fmfield* calls'),
   ('C declarations', 'cdef extern blocks of terms.pyx and extmods/*.h')],
  'name-role dataflow through three languages',
  '''Decides the binding of named inputs over all call sites of the three
  layers; an input named unlike every parameter of the callee is judged only
  by its origin.''')

P('T03', 'Evaluating a term does not modify its input data',
  '''Evaluating or assembling a term modifies nothing but its output: state and
  parameter values, material data, cached variable evaluations, mappings and
  basis data stay as they were, so evaluating again, or evaluating another
  term with the same data, gives the same result.''',
  'inputs histories', '''every term and mode, every sequence of evaluations
  sharing variables, materials and mappings''',
  '''A unit test evaluates a term once with its own data; a modified input is
  seen only by the next evaluation that shares it.''',
  ['sfepy/terms', 'sfepy/terms/extmods'],
  [('output arrays', 'first argument of the term functions'),
   ('shared data', 'Term.get(), Term.get_mapping(), Variable.evaluate_cache,'
    ' Material.get_data()')],
  'interprocedural alias and effect analysis (C, Cython, Python)',
  '''May-write summaries of all kernels, wrappers and Python term code; writes
  through attributes stored earlier are not followed.''')

P('T05', 'Terms use each variable in the required time step and derivative',
  '''A term argument written u[-1] or du/dt stands for that step and that time
  derivative everywhere: whatever a term reads of a variable - its DOF vector,
  values, gradients, deformation data - is taken in the step and derivative
  required of this very argument, and DOF vectors are gathered by the
  connectivity of the same variable. An evaluation of a variable honours its
  step, derivative and time step length; matrix contributions of du/dt are
  scaled by the time step.''',
  'inputs histories', '''every term, every argument expression, every history
  of the variables''',
  '''Nearly all tests and examples use the current step values, where a read
  in a fixed step gives the same result; equal approximation orders hide a
  wrong connectivity.''',
  ['sfepy/terms', 'sfepy/discrete/variables.py'],
  [('requested steps', 'Term.arg_steps, Term.arg_derivatives, Term.get(),'
    ' Term.get_vector()'),
   ('reads', 'variable calls, Variable.evaluate(), get_state_in_region(),'
    ' family data, Field.get_econn()')],
  'interprocedural provenance analysis of variable reads',
  '''Reads through objects that the analysis does not recognise as variables
  are not judged.''')

P('T04', 'Multi-linear terms compute their documented integrands',
  '''The integrand that a multi-linear term (de_*, and ev_* based on the same
  class) gives to the evaluation back-end contracts exactly the values,
  gradients, strains, normals and material components of its documented
  formula, over the same indices, for every declared argument shape and mode
  and every space dimension; the operands generated from the expression, for
  the residual and for the matrix of each variable and in all layouts, are
  those quantities with the axes that the expression names.''',
  'inputs configurations', '''all multi-linear terms, material shapes, term
  modes, dimensions and differentiation variables''',
  '''Exchanged or repeated indices give equal results for symmetric
  coefficients and gradients, which the tests use, and for fields equal in
  all arguments.''',
  ['sfepy/terms/terms_multilinear.py', 'sfepy/mechanics/tensors.py'],
  [('integrands', 'get_function() of the terms, parse_term_expression()'),
   ('operands', 'ExpressionBuilder, ExpressionArg, apply_layout()'),
   ('storage conversions', 'sym2nonsym(), make_psg(), make_pvg(),'
    ' make_grad2strain(), get_nonsym_grad_op()')],
  'abstract interpretation in an index-expression domain',
  '''Integrands are compared in a normal form with a table written from the
  documented formulas; terms that are not in the table are only counted. The
  back-ends (numpy, opt_einsum, jax) are assumed to contract as documented.
  Mappings and quadrature are not part of the property.''')
P('T06', 'Native term kernels compute their integrals and consistent matrices',
  '''A native matrix operation (products, transposed and scaled products,
  sums weighted over quadrature points, actions of basis functions, gradient
  operators in symmetric or full storage) computes its documented contraction
  for all sizes, also when the numbers of rows, columns, basis functions and
  quadrature points differ. A native kernel of a diffusion, dot product,
  elasticity, Biot, Navier-Stokes and adjoint or stabilized flow,
  piezoelectric, electric, surface or volume term integrates its documented
  formula over each cell, with the data of every quadrature point, and its
  matrices are the derivatives of its residual with respect to the variables,
  also for non-symmetric coefficients and different approximation orders.''',
  'inputs configurations', '''all kernels, flag values, space dimensions,
  coefficients and combinations of approximation orders''',
  '''Tests use symmetric or scalar constant coefficients, equal orders of
  the variables and coefficients constant in a cell, where transposed
  contractions, exchanged sizes and values of one quadrature point give the
  same numbers.''',
  ['sfepy/terms/extmods', 'sfepy/discrete/common/extmods/fmfield.c',
   'sfepy/terms/extmods/form_sdcc.c'],
  [('matrix operations', 'fmfield.c: fmf_*, terms.c: bf_*, form_sdcc.c,'
    ' divgrad_*, laplace_*, convect_*'),
   ('kernels', 'terms_*.c except terms_hyperelastic.c'),
   ('their callers', 'terms.pyx, get_fargs() of terms')],
  'extraction of array equations from C loop nests and abstract interpretation'
  ' of kernels in an algebra of index expressions',
  '''The equations of the matrix operations are exact for the analysed sizes
  (all different); formulas of about 75 kernels in dimensions 2 and 3. The
  layouts of arguments prepared in Python are assumed.''')
