P('G01', 'Tables of reference elements are exact and agree with each other',
  '''The data from which discretizations are built are right for every element
  geometry and order: the vertices, edges, faces and volumes of the reference
  elements describe the same cells with consistently oriented facets; a
  quadrature rule integrates all monomials up to its order over its reference
  domain, its points lie in the domain and its weights sum to the volume;
  Lobatto, Legendre, serendipity and contact segment shape functions satisfy
  their nodal values and identities, and their tabulated derivatives are the
  derivatives of the tabulated functions; tables of refined, triangulated and
  hanging-node cells tile the parent cell, without overlaps, by
  positively oriented children that agree on shared facets; facet DOF
  orderings and native orientation keys match on both sides of a facet.''',
  'inputs configurations', '''all geometries, orders, points of the reference
  domain, and mutual orientations of neighbouring cells''',
  '''Tables have thousands of entries; a test evaluates a few orders with few
  points or loose tolerances, on meshes with a regular numbering that gives
  one or two facet orientations only.''',
  ['sfepy/discrete/fem', 'sfepy/discrete/quadratures.py',
   'sfepy/discrete/common/extmods/lobatto1d.c',
   'sfepy/mechanics/extmods/contres.c',
   'sfepy/discrete/common/extmods/mesh.c'],
  [('geometries', 'geometry_element.py'),
   ('quadratures', 'quadratures.py: quadrature_tables'),
   ('shape functions', 'lobatto1d.c, _serendipity.py, contres.c: sfd*'),
   ('cell subdivisions', 'refine.py, refine_hanging.py, mesh_tools.py'),
   ('facets', 'facets.py, mesh.c')],
  'exact evaluation of literal tables and closed forms as rational polynomials,'
  ' identities decided in exact arithmetic',
  '''Complete for the tables: each monomial, identity, facet and child cell is
  decided. Constants with finite digits are accepted up to their precision.
  Evaluation code that combines the tables (Lagrange bases, mappings) is not
  part of the property.''')
