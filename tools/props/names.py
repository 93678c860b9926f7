P('P01', 'No execution path uses an undefined or not yet assigned name',
  '''On every path through every function of the library and its scripts, each
  name is defined in some scope and assigned before it is used, also on error
  and early-exit paths and in rarely used branches: rare options and failures
  give results or meaningful errors, never a NameError or UnboundLocalError.''',
  'inputs configurations fault_sequences', '''every combination of arguments,
  options and failures selecting a path''',
  '''Tests execute common branches; a name missing on a rare branch or error
  path is seen only when that path runs.''',
  ['sfepy'],
  [('functions', 'all Python sources of sfepy without tests and examples')],
  'scope resolution and path-sensitive definite assignment',
  '''All functions; loops over data are assumed to run at least once and
  selectors to have one of the values their function knows. One function
  (pv_plot) is checked without path facts only for undefined names.''')
P('P02', 'Internal calls, imports and formats agree with their definitions',
  '''Every internal name that is imported or accessed exists, every call of a
  library function, method, class or native routine supplies arguments that its
  definition accepts, and every message format gets exactly the values it
  needs, in all branches including rarely used options and error messages.''',
  'inputs configurations', '''every combination of arguments and options
  selecting a call site''',
  '''A call that does not fit its callee fails only when its branch runs, and
  tests run few of the options and almost no error messages.''',
  ['sfepy'],
  [('call sites', 'all Python sources of sfepy without tests and examples')],
  'name resolution and call binding over the whole program',
  '''Calls resolved statically (module functions, classes, self methods with
  all overrides, super, native functions); calls through objects of unknown
  class are not decided.''')

P('P03', 'Values reach the parameters and results they are named for',
  '''In every internal call that can be resolved, no value bearing the name of
  one parameter of the called function (a variable, an attribute, possibly
  converted or copied) is passed as another parameter that the function uses,
  unless the parameter of its name receives it too; the results of
  functions returning several named values are unpacked, or passed on, in the
  order they are returned; attributes and keywords are not set to each other's
  values.''',
  'programs inputs', '''every resolved call, on every path''',
  '''Exchanged values of the same type do not fail; the tests call few of the
  functions, often with values for which the exchange makes no difference.''',
  ['sfepy'],
  [('calls', 'all calls resolved by module, class or method name'),
   ('results', 'functions returning tuples of named values')],
  'call binding with role matching of argument, parameter and result names',
  '''A value carrying the name of no role of the callee is not judged; keyword
  arguments are considered intended unless two of them are exchanged.''')

P('P04', 'Attributes, options and library names that are read are defined',
  '''Whatever path executes, an attribute that a method reads from its own
  object, from a new instance of a known class, or by a name used nowhere else
  for definitions, is defined by the class, its bases or some of their methods;
  an attribute that only a constructor can define is set before it is read, on
  every path through the constructors of the class family; an option that a
  solver, an application or a script reads from its configuration is declared
  among its parameters; an attribute of a library module exists in the
  installed library.''',
  'programs configurations', '''every class, construction path and option of
  every solver, application and script''',
  '''A misspelled or removed name fails only when its line executes; the tests
  use a few solvers, options and applications and optional libraries are often
  not there.''',
  ['sfepy'],
  [('attributes', 'classes of sfepy, their families and constructors'),
   ('options', 'Solver._parameters, process_options(), argparse scripts'),
   ('library names', 'attributes of numpy, scipy, sympy and standard modules')],
  'resolution of attribute reads against definitions of the class family,'
  ' path-sensitive definite assignment in constructors',
  '''Objects of unknown class are judged by names defined anywhere in the
  package or the libraries. Classes with dynamic attribute names are not
  judged.''')

P('L01', 'Products with (sparse) matrices are matrix products',
  '''Matrices of the discrete problem, of linear combination conditions and of
  solvers are sparse arrays, for which the operator * is a product by
  elements: every product of such a matrix with a vector or a matrix in the
  library is a matrix product (the operator @ or dot()), and the product of
  two rows of a sparse array is not used as a matrix.''',
  'programs inputs', '''every product in which an operand can be inferred as a
  sparse matrix''',
  '''An elementwise product either fails or broadcasts silently, in solvers
  and options that the tests do not run.''',
  ['sfepy'],
  [('matrices', 'assembled matrices, LCBC operators, arguments and callbacks of'
    ' solvers'), ('products', 'operators * and @, dot() in all functions')],
  'interprocedural inference of matrix kinds of values',
  '''Operands of unknown kind are not judged.''')
