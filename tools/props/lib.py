P('A01', 'Library functions do not modify the arguments passed to them',
  '''A function or method of the library leaves the arrays, lists and
  dictionaries passed to it as they were, unless modifying them is its
  documented purpose (output arguments, accumulators, in-place setters).''',
  'inputs histories', '''every public function and method, every caller that
  goes on using the data it passed''',
  '''Tests pass fresh data and check the result; the change of the argument
  shows only in a caller that uses it again.''',
  ['sfepy'],
  [('inputs', 'parameters of the functions outside sfepy/terms')],
  'interprocedural may-write alias analysis of Python sources',
  '''Forward may-alias analysis with interprocedural summaries; objects stored
  in attributes and modified later through them are not followed.''')
