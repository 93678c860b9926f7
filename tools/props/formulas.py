P('M01', 'Closed formulas of materials, units, tensors and geometry are right',
  '''The functions of the library that evaluate closed formulas give the values
  of their definitions for all arguments: conversions among elastic constants
  (every pair gives the same material, relations can be differentiated and
  evaluated), stiffness tensors from Lame, Young-Poisson, bulk and mixed
  parameters in 2D (plane strain and stress) and 3D, fourth-order tensors and
  their symmetric storage, reductions of elastic and piezoelectric materials to
  planes with zero out-of-plane stress and charge flux, wave speeds, scaling of
  derived physical units, von Mises stress, traces, deviators, bulk moduli,
  transformations and conversions of tensors, strain and stress of membranes
  and shells,
  volumes, areas, barycentres, circumcentres, rotations and transforms of
  coordinates.''',
  'inputs configurations', '''all values of the parameters, dimensions, planes
  and combinations of given constants''',
  '''Tests evaluate a few isotropic materials and unit-sized cells, where
  coefficients that differ in general (planes, components, shear entries) have
  the same values.''',
  ['sfepy/mechanics', 'sfepy/linalg/geometry.py'],
  [('elastic constants', 'elastic_constants.py, matcoefs.py: ElasticConstants'),
   ('materials', 'matcoefs.py: stiffness_from_*, TransformToPlane'),
   ('units', 'units.py'), ('tensors', 'tensors.py, membranes.py'),
   ('geometry', 'linalg/geometry.py')],
  'derivation of exact algebraic normal forms of straight-line formulas from'
  ' syntax trees, identities decided with their definitions',
  '''Exact for all values of the parameters (positive moduli) and for generic
  small numbers of points. Functions with branches on data have no normal form
  and are not judged.''')

P('S01', 'Time stepping solvers implement their schemes',
  '''One step of each time stepping solver is the step of its documented scheme
  for all time steps, scheme parameters and states: the residual that is solved
  is the momentum (or heat) balance of the scheme at its times, its tangent is
  the derivative of that residual with respect to the unknown, the new
  displacements, velocities and accelerations satisfy the kinematic relations
  of the scheme and are consistent with the equations in the limit, data of
  each sub-step are evaluated in its time and the time of the step is restored,
  the initial acceleration satisfies the balance, and explicit multi-stage
  methods of DG problems have the stability polynomial and the stage times of
  their order.''',
  'inputs configurations histories', '''all time steps, scheme parameters,
  states, and linear or nonlinear problems with damping and extra variables''',
  '''A wrong weight of a scheme still gives a converging, plausible solution;
  tests compare results of different solvers with loose tolerances for
  undamped problems with constant loads.''',
  ['sfepy/solvers/ts_solvers.py', 'sfepy/solvers/ts_dg_solvers.py',
   'sfepy/solvers/ts.py'],
  [('elastodynamics', 'ts_solvers.py: VelocityVerletTS, NewmarkTS,'
    ' GeneralizedAlphaTS, BatheTS, CentralDifferenceTS, ...'),
   ('multi-stage methods', 'ts_dg_solvers.py'), ('times', 'ts.py')],
  'derivation of the algebraic relations of a step from syntax trees and'
  ' comparison of normal forms with the schemes',
  '''Exact for all parameters. The (non)linear solver is replaced by its
  contract. Accuracy of the schemes, step size control and convergence are not
  judged.''')

P('T07', 'DG flux terms compute their numerical fluxes and consistent matrices',
  '''A facet term of the discontinuous Galerkin method (advection, nonlinear
  hyperbolic, diffusion, interior penalty) evaluates its documented numerical
  flux, with averages, jumps and upwinding in the direction of the outer normal
  of each facet and weighted over the quadrature points, for each cell; its
  matrix has, for the DOFs of the cell and of its neighbours, the derivatives
  of the residual at the matching rows and columns, on inner as well as on
  boundary facets.''',
  'inputs configurations', '''all states, velocities, coefficients, weights and
  positions of neighbours''',
  '''Tests compare orders of convergence or recorded solutions in 1D or for a
  single velocity, where the contributions of neighbours are symmetric.''',
  ['sfepy/terms/terms_dg.py'],
  [('fluxes', 'terms_dg.py: AdvectionDGFluxTerm, DiffusionDGFluxTerm,'
    ' DiffusionInteriorPenaltyTerm, NonlinearHyperbolicDGFluxTerm')],
  'derivation of exact normal forms of the term functions on symbolic facet'
  ' data, matrices compared with derivatives of the residual',
  '''Exact for generic values on two neighbouring cells with inner and boundary
  facets in 2D. Facet data supplied by the field are assumed. Coefficients of
  diffusion are scalar.''')

P('H01', 'Finite strain kernels: measures, stresses, consistent tangents',
  '''The native kernels of finite strain terms compute, in the total and updated
  Lagrangian formulations, in 2D (plane strain) and 3D and for every cell and
  quadrature point: deformation gradients, Cauchy-Green tensors, invariants,
  inverses and Green strains of the given displacements; stresses of the bulk,
  active, neo-Hookean, Mooney-Rivlin and pressure parts, where the updated
  Lagrangian stress is the push-forward of the total Lagrangian one; tangent
  moduli that are the derivatives of these stresses with respect to the
  deformation; residuals that are the virtual work of the stress, volume
  changes, transformed diffusion, fluxes and tractions, and matrices that are
  their linearizations.''',
  'inputs configurations', '''all deformations, materials, dimensions, modes
  and formulations''',
  '''A wrong entry of a tangent only slows down Newton iterations; tests stretch
  blocks along axes, where shear components, which differ among the formulas,
  are zero or equal.''',
  ['sfepy/terms/extmods/terms_hyperelastic.c',
   'sfepy/discrete/common/extmods/geommech.c'],
  [('stresses and tangents', 'terms_hyperelastic.c: dq_*_stress_*,'
    ' dq_*_tan_mod_*'), ('residuals', 'terms_hyperelastic.c: dw_he_rtm,'
    ' dw_*_volume, dw_tl_diffusion, dw_tl_surface_traction'),
   ('tensors', 'geommech.c')],
  'derivation of exact normal forms of the results of native kernels from'
  ' clang syntax trees, tangents compared with derivatives of the stresses',
  '''Exact for all regular deformations and data; two cells with two points,
  few nodes. Active fibres and terms written in Python are not judged.''')

P('X01', 'Computed solutions converge to the exact ones with the proper order',
  '''Finite element solutions of well-posed problems converge to the exact
  solutions with the order given by the approximation.''',
  'inputs', 'all problems, meshes and approximation orders',
  'A test computes few meshes of few problems.',
  ['sfepy/discrete', 'sfepy/terms'], [('whole library', 'sfepy')],
  na='''The error of a computed solution is a numerical quantity of a complete
  run; no static argument in reach bounds it. Parts with closed forms are in
  G01, T04, T06, T07, H01, M01 and S01.''')

P('X02', 'Nonlinear and linear solvers reach their tolerances or say so',
  '''A solver that returns success has satisfied the tolerances of its
  configuration, otherwise it reports failure.''',
  'inputs', 'all systems and solver options', 'A test solves few systems.',
  ['sfepy/solvers'], [('solvers', 'ls.py, nls.py, oseen.py,'
   ' semismooth_newton.py')],
  na='''Residual norms, line searches and statuses of external libraries are
  runtime quantities; which of them reach the tests of convergence is decided
  by data in most of the branches of the solvers.''')

P('X03', 'Meshes written in a format are read back with the same content',
  '''Reading a file written by a mesh writer gives the same vertices, cells,
  groups and markers.''',
  'inputs', 'all meshes and formats', 'A test reads and writes few meshes.',
  ['sfepy/discrete/fem/meshio.py'], [('formats', 'meshio.py')],
  na='''Texts are produced and parsed by loops over data in two dozen formats,
  partly by the external library meshio; equality of contents needs a model of
  formatting and parsing of strings that is not in reach of the analyses
  here. Names, formats and arguments in the readers and writers are judged by
  P01 to P04, HDF5 items by F01.''')

P('X04', 'Boundary conditions hold exactly in the computed solutions',
  '''Solutions satisfy essential, periodic and linear combination boundary
  conditions given by users.''',
  'inputs', 'all conditions, regions and meshes',
  'A test checks few conditions.',
  ['sfepy/discrete/equations.py', 'sfepy/discrete/variables.py',
   'sfepy/discrete/fem/lcbc_operators.py'],
  [('conditions', 'variables.py, lcbc_operators.py')],
  na='''Equation maps are built by sorting and matching of data (coordinates,
  node numbers) and by user functions, which a static argument cannot follow;
  the consistency of what is recomputed after a change is judged by C02.''')
