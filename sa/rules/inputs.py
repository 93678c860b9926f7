"""T03, A01: in-place modification of arguments and shared data."""
import ast
import os

from .. import ceffects, cfe, pyalias, pyfe, pyxfe
from ..core import VERIF
from .pyxmem import program as pyx_program
from .roles import simple_name

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXPLANATION = (
    'Computes which arguments each function writes in place. C: flow-sensitive'
    ' pointer aliasing over the clang CFGs with a whole-program fixpoint'
    ' (stores, memcpy, calls). Cython: arguments behind the pointers given to'
    ' C routines that write them, and direct element stores. Python: forward'
    ' may-alias analysis (views, asarray, slices, iteration, functions'
    ' returning an argument) with interprocedural summaries; data obtained'
    ' from variables, mappings and materials inside term classes are tracked'
    ' as shared. A write to anything that is not a documented output is a'
    ' violation.')
RULE = ('one obligation per (function, argument) and per shared datum obtained'
        ' by a term; writes are allowed only for the outputs listed in the'
        ' checker with a reason')
ASSUMPTIONS = ['numpy, scipy functions do not modify their inputs other than'
               ' through out=, overwrite_*= and the in-place functions known'
               ' to the checker',
               'arrays stored in an object attribute and modified later'
               ' through that attribute are not followed']

# C/Cython kernels: outputs other than the first argument.
C_OUT = {
    'dq_finite_strain_tl': 'family data: all strain outputs',
    'dq_finite_strain_ul': 'family data: all strain outputs',
    'dq_tl_finite_strain_surface': 'family data: all strain outputs',
    'dq_tl_finite_strain_membrane': 'family data: all strain outputs',
}

# Parameters that are outputs by their documented role, in any function.
OUT_NAMES = {
    'out': 'output array', 'status': 'documented status dictionary',
    'return_time': 'documented output list', 'cache': 'cache',
    'expr_cache': 'cache', 'asm_obj': 'assembled object',
    'ax': 'matplotlib axes', 'axs': 'matplotlib axes',
    'plotter': 'plotter object', 'conn_info': 'accumulator',
    'usage': 'accumulator', 'traversal_order': 'accumulator',
    'ar_out': 'documented output array',
}
# (function, parameter): documented in-place behaviour.
OUT = {
    ('update_dict_recursively', 'dst'): 'the destination',
    ('set_defaults', 'dict_'): 'sets defaults in it',
    ('Struct.__setstate__', 'state'): 'unpickling helper',
    ('write_to_hdf5', 'data'): 'unpack_markers replaces markers by data',
    ('Conditions.group_by_variables', 'groups'): 'accumulator',
    ('Equations.get_graph_conns', 'rdcs'): 'documented accumulators',
    ('Equations.get_graph_conns', 'cdcs'): 'documented accumulators',
    ('Equations.get_graph_conns', 'irs'): 'documented accumulators',
    ('Equations.get_graph_conns', 'ics'): 'documented accumulators',
    ('Equations.create_matrix_graph', 'rdcs'): 'documented accumulators',
    ('Equations.create_matrix_graph', 'cdcs'): 'documented accumulators',
    ('Equations.eval_tangent_matrices', 'tangent_matrix'):
        'assembled in place',
    ('apply_ebc_to_matrix', 'mtx'): 'modifies the matrix rows by definition',
    ('create_evaluable', 'kwargs'): 'dictionary created by the callers',
    ('eval_in_els_and_qp', 'kwargs'): 'dictionary created by the callers',
    ('visit_stack', 'stack'): 'consumes the parsed stack',
    ('print_stack', 'stack'): 'consumes the parsed stack',
    ('create_adof_conns', 'adof_conns'): 'accumulator',
    ('Variables.reduce_vec', 'svec'): 'documented output',
    ('Variables.set_vec_part', 'vec'): 'sets the part',
    ('Variables.set_state_parts', 'vec'): 'sets the part',
    ('FieldVariable.equation_mapping', 'bcs'): 'sorts the conditions',
    ('FieldVariable.setup_initial_conditions', 'ics'): 'sorts the conditions',
    ('FieldVariable.apply_ebc', 'vec'): 'applies conditions in place',
    ('FieldVariable.apply_ic', 'vec'): 'applies conditions in place',
    ('Variables.apply_ebc', 'vec'): 'applies conditions in place',
    ('Variables.apply_ic', 'vec'): 'applies conditions in place',
    ('FieldVariable.get_full', 'vec'): 'documented output',
    ('DGFieldVariable.get_full', 'vec'): 'documented output',
    ('resolve_chains', 'master_slave'): 'resolved in place',
    ('group_chains', 'chain_list'): 'consumes the list',
    ('eval_nodal_coors', 'coors'): 'output coordinates',
    ('ANSYSCDBMeshIO.make_format', 'format'): 'string method',
    ('LagrangeNodes.append_edges', 'nodes'): 'filled in place',
    ('LagrangeNodes.append_edges', 'nts'): 'filled in place',
    ('LagrangeNodes.append_faces', 'nodes'): 'filled in place',
    ('LagrangeNodes.append_faces', 'nts'): 'filled in place',
    ('LagrangeNodes.append_bubbles', 'nodes'): 'filled in place',
    ('LagrangeNodes.append_bubbles', 'nts'): 'filled in place',
    ('LagrangeNodes.append_tp_edges', 'nodes'): 'filled in place',
    ('LagrangeNodes.append_tp_edges', 'nts'): 'filled in place',
    ('LagrangeNodes.append_tp_faces', 'nodes'): 'filled in place',
    ('LagrangeNodes.append_tp_faces', 'nts'): 'filled in place',
    ('LagrangeNodes.append_tp_bubbles', 'nodes'): 'filled in place',
    ('LagrangeNodes.append_tp_bubbles', 'nts'): 'filled in place',
    ('get_edge_paths', 'mask'): 'marks visited edges',
    ('insert_sub_reqs', 'levels'): 'accumulator',
    ('HomogenizationWorker.__call__', 'micro_states'): 'updated state',
    ('HomogenizationWorker.calculate', 'micro_states'): 'updated state',
    ('HomogenizationWorker.calculate', 'save_names'): 'accumulator',
    ('HomogenizationWorker.calculate_req', 'micro_states'): 'updated state',
    ('HomogenizationEngine.define_volume_coef', 'coef_info'):
        'extends the coefficient definitions',
    ('get_homog_coefs_nonlinear', 'macro_data'): 'adds the time step',
    ('normalize_vectors', 'vecs'): 'documented in place',
    ('create_petsc_system', 'mtx'): 'only the matrix structure is used',
    ('Probe.__init__', 'data'): 'file output',
    ('get_vtk_from_mesh', 'data'): 'file output',
    ('scale_matrix', 'mtx'): 'scales the matrix by definition',
    ('PETScNonlinearSolver.__call__', 'vec_x0'): 'PETSc vectors are solved in'
                                                 ' place',
    ('SolverMeta.__new__', 'ndict'): 'namespace of the created class',
    ('Term.assign_args', 'user'): 'sets the default time stepper',
    ('Term.translate_fargs_mapping', 'fargs'): 'translates the list',
    ('Term.assemble_to', 'val'): 'converts the list items',
    ('append_all', 'seqs'): 'accumulators',
    ('ETHTerm.advance_eth_data', 'data.history'): 'advances the history',
    ('ProblemConf.__init__', 'define_dict'): 'overrides the configuration',
}

SHARED_ATTRS = {'get', 'get_mapping', 'get_current_mapping', 'evaluate',
                'get_state_in_region', 'get_dof_conn', 'get_assembling_cells',
                'get_data', 'get_econn', 'get_coor', 'get_qp', 'get_normals',
                'get_cells', 'get_conn', 'get_family_data', 'get_bf',
                'get_dofs'}
SHARED_SCOPE = ('sfepy/terms',)


def shared(f, c):
    """Data owned by a variable, mapping, or field handed to a term."""
    if not f.rel.startswith(SHARED_SCOPE):
        return None
    if isinstance(c.func, ast.Attribute) and c.func.attr in SHARED_ATTRS \
       and isinstance(c.func.value, ast.Name):
        if c.func.attr in ('get', 'get_family_data') \
           and c.func.value.id != 'self':
            return None
        # keys of the mapping caches are tuples, not data
        return 'shared:%s.%s' % (c.func.value.id, c.func.attr)
    return None


_api = None


def api():
    global _api
    if _api is None:
        _api = set()
        with open(os.path.join(HERE, 'data', 'api.txt')) as fd:
            for line in fd:
                rel, qual = line.split(' ')[:2]
                _api.add((rel, qual))
    return _api


def is_key_add(fn, where):
    """`key += (...)`: rebinding a tuple, not an array."""
    line = int(where.split(':')[1].split(' ')[0])
    for n in pyfe.own_nodes(fn):
        if isinstance(n, ast.AugAssign) and n.lineno == line:
            v = n.value
            if isinstance(v, (ast.Tuple, ast.Constant, ast.JoinedStr)):
                return True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
               and v.func.id == 'tuple':
                return True
            if isinstance(n.target, ast.Name) and n.target.id in ('key',):
                return True
    return False


def allowed(f, p):
    base = p.split('.')[0]
    if base in OUT_NAMES or base.startswith(('out_', 'return_')):
        return True
    for q in (f.qual, f.name):
        if (q, p) in OUT:
            return True
    if f.cls is not None:
        for k in f.cls.mro():
            if ('%s.%s' % (k.name, f.name), p) in OUT:
                return True
    return False


def python_part(ctx, terms):
    pp = pyfe.load(ctx.repo)
    an = pyalias.Alias(pp, shared_call=shared, attr_roots=True,
                       containers=True)
    ref = api()
    for f in an.funcs:
        in_terms = f.rel.startswith('sfepy/terms')
        if in_terms != terms:
            continue
        s = an.of(f)
        ctx.count('functions')
        ctx.count('arguments', len([p for p in f.params if p != 'self']))
        known = (f.rel, f.qual) in ref
        for r, (where, how) in sorted(s.writes.items()):
            kind, name = r.split(':', 1)
            if kind == 'shared':
                if is_key_add(f, where):
                    continue
                ctx.violation('shared:%s:%s:%s' % (f.rel, f.qual, name),
                              '%s modifies data obtained by %s() in place:'
                              ' %s; the data belong to the variable, mapping'
                              ' or field' % (f.qual, name, how), where)
                continue
            if not known or allowed(f, name):
                ctx.count('outputs')
                continue
            if name.endswith('cache'):
                ctx.count('caches')
                continue
            if '.' in name and not terms:
                continue      # attributes of objects: mutators
            if '.' in name and f.name == '__init__':
                continue
            ctx.violation('arg:%s:%s:%s' % (f.rel, f.qual, name),
                          '%s modifies its argument %s in place: %s'
                          % (f.qual, name, how), where)


def native_part(ctx):
    prog = cfe.Program(ctx.repo)
    eff = ceffects.Effects(prog)
    px = pyx_program(ctx.repo)
    for rel in sorted(px.funcs):
        if not rel.endswith('terms.pyx'):
            continue
        for f in px.funcs[rel]:
            if f.node.body is None or f.kind != 'def':
                continue
            params = [a.name for a in f.args]
            arrays = {a.name for a in f.args if a.base
                      and ('ndarray' in a.base or 'Mapping' in a.base)}
            ctx.count('wrappers')
            # local fmfield / pointer -> wrapper argument
            src = {p: p for p in params}
            for x in f.node.walk():
                if x.t in ('SingleAssignmentNode',) and x.lhs is not None \
                   and x.lhs.t == 'NameNode':
                    b = simple_name(x.rhs)
                    if b in src and x.lhs.name not in params:
                        src[x.lhs.name] = src[b]
            for name, c in pyxfe.calls(f.node.body):
                if name.startswith('array2') and c.args and len(c.args) > 1:
                    a = simple_name(c.args[0])
                    b = simple_name(c.args[1])
                    if a and b in params:
                        src[a] = b
            for name, c in pyxfe.calls(f.node.body):
                e = px.extern_of(rel, name)
                if e is None or e.cname not in eff.W:
                    continue
                fn = eff.fns[e.cname]
                for i, a in enumerate(c.args or []):
                    if i >= len(fn.params):
                        break
                    ctx.count('kernel_arguments')
                    pn = fn.params[i][0]
                    if pn not in eff.W[e.cname]:
                        continue
                    b = simple_name(a)
                    b = src.get(b)
                    if b is None or b not in arrays and b not in params:
                        continue
                    if b == params[0] or f.name in C_OUT:
                        ctx.count('kernel_outputs')
                        continue
                    w, how = eff.W[e.cname][pn]
                    ctx.violation('kernel:%s:%s' % (f.name, b),
                                  '%s() writes its input %s: C function %s()'
                                  ' %s (argument %s)' % (f.name, b, e.cname,
                                                         how, pn), w)
    # helper kernels: const-ness of the mapping fields
    n = 0
    for f in eff.fns.values():
        if not f.params:
            continue
        n += 1
    ctx.count('c_functions', n)
    ctx.floor('wrappers', 60)
    ctx.floor('kernel_outputs', 50)


def run(ctx):
    terms = ctx.prop == 'T03'
    if terms:
        native_part(ctx)
    python_part(ctx, terms)
    ctx.floor('functions', 350 if terms else 1200)
