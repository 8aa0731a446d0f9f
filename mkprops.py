"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=state, meaning=state, where=files[0])], observe_at=[observe])))


prop('C01', 'Dense matrix operations compute the algebra they name',
     'For every size and content, matrix multiplication (plain and with a transposed factor), transposition, addition, subtraction, element-wise and scaled updates, row and column scaling, dot product and norms give exactly the entries of the mathematical operation, also when the target is one of the operands where that is allowed. Operands and everything else keep their values.',
     ['inputs', 'configurations'], 'all matrix dimensions, all entries, all permitted aliasings of target and operands',
     'The matrix tests check a handful of 2x2 and 3x3 cases; an index slip that only shows on non-square or aliased operands passes them.',
     ['src/matrix.cpp', 'include/matrix.h'], [('dense multiply, transpose, scale, add, dot', 'src/matrix.cpp'), ('element access', 'include/matrix.h')],
     'matrix entries', 'entries of the target matrix through get()')
prop('C02', 'Dense matrix storage stays valid across resizes, re-use and destruction',
     'After any sequence of constructing, resizing, re-initialising, setting and destroying a dense matrix its dimensions are those last requested, every entry in range can be read and written without touching other memory, distinct entries are distinct storage and a fresh initialisation gives the requested value everywhere. Everything allocated is released exactly once.',
     ['histories', 'inputs'], 'all sequences of resize, initialize, set and destroy, all sizes including zero',
     'Tests only construct matrices once with fixed sizes; growth after shrink, reuse of capacity and zero sizes are never exercised, and no memory checker runs.',
     ['src/matrix.cpp', 'include/matrix.h'], [('capacity management', 'src/matrix.cpp resize/destroy'), ('row table', 'src/matrix.cpp resize')],
     'storage of a matrix', 'get/set, getWidth/getHeight, allocator')
prop('C03', 'Sparse Jacobian algebra equals the dense algebra of its expansion',
     'Products of a block-sparse matrix with a dense or another sparse matrix, with its transpose, and its expansion give the same entries as the same operation on the equivalent dense matrix, for every placement of blocks, including rows with unused blocks. Operands are not changed.',
     ['inputs', 'configurations'], 'all numbers of rows and columns, all block placements (including empty blocks) and all entries',
     'Sparse tests use two or three fixed matrices with full rows; missing blocks, blocks out of order and many rows are not covered.',
     ['include/sparse_matrix.h'], [('sparse products', 'include/sparse_matrix.h multiply/multiplyTranspose/leftMultiply/rightScale'), ('expansion', 'include/sparse_matrix.h expand')],
     'sparse blocks and dense targets', 'entries of the resulting matrix')
prop('C04', 'Sparse matrix storage stays valid across resizes and destruction',
     'After any sequence of initialising, resizing, writing and destroying a block-sparse matrix its dimensions are those requested, fresh entries are zero and belong to no block, distinct entries are distinct storage and no access leaves the allocation. Everything allocated is released exactly once.',
     ['histories', 'inputs'], 'all sequences of initialize, resize, setBlock, set, setEmpty and destroy, all sizes',
     'Tests never shrink or grow a sparse matrix and do not look at memory.',
     ['include/sparse_matrix.h'], [('capacity management', 'include/sparse_matrix.h resize/destroy'), ('row and block tables', 'include/sparse_matrix.h')],
     'storage of a sparse matrix', 'expanded entries, dimensions, allocator')
prop('C05', 'Each constraint reports its exact equation, Jacobian and Jacobian rate',
     'For every state and configuration, the error a position constraint reports is the geometric error of the joint it stands for, its Jacobian is the exact derivative of that error with respect to the coordinates of its bodies, and the reported Jacobian rate is the exact time derivative of that Jacobian along the current velocities. Velocity constraints report the Jacobian of the relative speed they act on and a zero rate.',
     ['inputs', 'configurations'], 'all body states, attachment points, directions, radii and ratios of every constraint type',
     'The tests run a few scenes and look at positions; a sign error in a rate term only slowly drifts energy and passes.',
     ['src/link_constraint.cpp', 'src/fixed_position_constraint.cpp', 'src/fixed_rotation_constraint.cpp', 'src/line_constraint.cpp', 'src/rolling_constraint.cpp', 'src/simple_gear_constraint.cpp', 'src/clutch_constraint.cpp', 'src/rotation_friction_constraint.cpp', 'src/constant_rotation_constraint.cpp'],
     [('evaluation of each constraint', 'src/*_constraint.cpp calculate')], 'constraint output block', 'Constraint::calculate output')
prop('C06', 'Constraint limits, gains and bias are exactly those configured',
     'Every constraint reports as many equations and bodies as its kind has, the force limits that were configured (unlimited for ideal joints, zero for a gear in neutral), the configured stiffness and damping, and the configured target speed. Evaluating a constraint changes neither the constraint nor the system state.',
     ['inputs', 'configurations'], 'all configuration values of every constraint type, all states',
     'No test inspects limits or gains of most constraint types.',
     ['src/link_constraint.cpp', 'src/clutch_constraint.cpp', 'src/rotation_friction_constraint.cpp', 'src/constant_rotation_constraint.cpp', 'src/simple_gear_constraint.cpp', 'include/constraint.h'],
     [('limits, gains, bias', 'src/*_constraint.cpp calculate'), ('configuration setters', 'include/*_constraint.h')], 'constraint output block', 'Constraint::calculate output')
prop('C07', 'Local/world transforms are rigid, inverse to each other, and match velocities',
     'Converting a point from a body to the world and back gives the same point in either order and preserves distances, and a body registered in a system is transformed the same way from its system state. The velocity reported for a point of a body is the time derivative of its world position.',
     ['inputs'], 'all body positions, orientations, velocities and points',
     'Only fixed angles are tested and velocities at points are not tested at all.',
     ['src/rigid_body.cpp', 'src/system_state.cpp'], [('transforms', 'src/rigid_body.cpp localToWorld/worldToLocal'), ('state transforms', 'src/system_state.cpp')],
     'poses', 'returned coordinates')
prop('C08', 'A force applied at a point adds exactly that force and its torque',
     'Applying a force at a local point of a body adds exactly that force to the body and exactly the moment of the force about its centre, on top of what was already accumulated, and changes no other body and nothing else.',
     ['inputs'], 'all states, bodies, points and forces',
     'No test looks at accumulated torque or at other bodies.',
     ['src/system_state.cpp'], [('force accumulation', 'src/system_state.cpp applyForce')], 'accumulated forces and torques', 'force and torque arrays of the state')
prop('C09', 'Force generators apply exactly their law, and act on nothing else',
     'Gravity gives every body its weight; a static force acts at its configured point; a spring pulls its two ends with equal and opposite force along its law, treats a body that is not part of the system as fixed ground and does nothing when detached; a motor applies equal and opposite torques that never exceed its maximum. Nothing else in the state changes.',
     ['inputs', 'configurations'], 'all states and configurations, including ground bodies, both ends on one body, and coincident ends',
     'Scenes in the tests use one or two generators with ordinary bodies.',
     ['src/gravity_force_generator.cpp', 'src/static_force_generator.cpp', 'src/spring.cpp', 'src/constant_speed_motor.cpp'],
     [('force laws', 'src/*_force_generator.cpp, src/spring.cpp, src/constant_speed_motor.cpp apply')], 'accumulated forces and torques', 'force and torque arrays of the state')
prop('C10', 'Reported energies are the physical energies',
     'The energy of a body is its translational plus rotational kinetic energy, the energy of a spring is half its stiffness times its squared extension between its actual end points and zero when detached. A new or reset body is at rest at the origin.',
     ['inputs'], 'all body states and spring configurations',
     'No test evaluates energies away from trivial values.',
     ['src/rigid_body.cpp', 'src/spring.cpp'], [('kinetic energy', 'src/rigid_body.cpp energy'), ('spring energy', 'src/spring.cpp energy/getEnds')], 'energies', 'return values')
prop('C11', 'The single-evaluation integrators perform exactly their step',
     'One step of the explicit integrator advances every position by the old velocity and every velocity by the acceleration, and one step of the velocity-first integrator advances positions by the new velocity, for every number of bodies, step size and acceleration; forces, masses and accelerations stay as they are. The evaluation sees the full time step and the step needs exactly one evaluation.',
     ['inputs', 'histories'], 'all states, numbers of bodies and time steps',
     'Tests compare long simulations within loose tolerances.',
     ['src/euler_ode_solver.cpp', 'src/nsv_ode_solver.cpp'], [('integration step', 'src/euler_ode_solver.cpp, src/nsv_ode_solver.cpp solve')], 'positions and velocities', 'system state after solve')
prop('C12', 'The fourth-order integrator performs the classic Runge-Kutta step',
     'Whatever accelerations the evaluations return, the four evaluations of a step happen at the classic stage states and times, the result of the step is the classic weighted combination, and reported reactions are the same weighted average over the stages. Only the fourth evaluation ends the step.',
     ['inputs', 'histories'], 'all states, numbers of bodies and rows, time steps and evaluation results',
     'Tests look at final trajectories with tolerances in which a wrong stage hides.',
     ['src/rk4_ode_solver.cpp'], [('stages and accumulation', 'src/rk4_ode_solver.cpp start/step/solve')], 'positions, velocities, reactions', 'system state after each stage')
prop('C13', 'Gauss-Seidel solves within limits and converges to the constrained system',
     'Starting from the warm start if it has the right size, else from the present result or zero, every iteration performs the Gauss-Seidel update of each unknown in turn (projected to its limits, ordered lower <= upper, in the limited solver, so that all unknowns it returns lie within their limits). It stops at the first iteration that changed no unknown by the relative tolerance or more and reports convergence exactly then, otherwise it gives up after the configured number of iterations. Inputs are not changed.',
     ['inputs', 'histories'], 'all system sizes, sparsity patterns, right sides, limits and warm starts',
     'Tests solve two small systems without active limits.',
     ['src/gauss_seidel_sle_solver.cpp'], [('sweep', 'src/gauss_seidel_sle_solver.cpp solveIteration'), ('iteration control', 'src/gauss_seidel_sle_solver.cpp solve/solveWithLimits')],
     'solution vector', 'result matrix and return value')
prop('C14', 'Gaussian elimination returns a solution of the assembled system',
     'For every system whose elimination meets no zero pivot, the returned vector satisfies the linear equations assembled from the sparse Jacobian and the weights; the elimination brings the matrix to echelon form (rows are exchanged where needed), and the solver gives up only if an element on the diagonal of that form is zero. Memory use stays consistent over any sequence of sizes. Inputs are not changed.',
     ['inputs', 'histories'], 'all system sizes, sparsity patterns and right sides with non-singular elimination, all sequences of solves',
     'Tests solve one or two fixed systems and never change size.',
     ['src/gaussian_elimination_sle_solver.cpp'], [('elimination and back substitution', 'src/gaussian_elimination_sle_solver.cpp solve')], 'solution vector', 'result matrix')
prop('C15', 'Conjugate gradient reports success only with a small residual',
     'Whenever the conjugate gradient solver reports success its returned vector satisfies the assembled linear system to within the configured tolerances in every row. A start (the warm start if it has the right size, else zero) that is good enough is returned as it is; otherwise each step goes to the minimum along a direction conjugate to the last one on positive definite systems, and the solver gives up only after the configured number of steps. Inputs are not changed.',
     ['inputs', 'histories'], 'all system sizes, sparsity patterns, right sides, warm starts and tolerances',
     'Tests solve a few well conditioned systems only.',
     ['src/conjugate_gradient_sle_solver.cpp'], [('iteration', 'src/conjugate_gradient_sle_solver.cpp solve'), ('residual test', 'src/conjugate_gradient_sle_solver.cpp sufficientlySmall')], 'solution vector', 'result matrix and return value')
prop('C16', 'Registering and removing objects keeps the registry consistent',
     'After any sequence of adding and removing, each registered body, constraint and force generator is at the index it carries, removal of one keeps all others registered, the removed one is marked as unregistered, and the number of constraint equations is the sum over the registered constraints.',
     ['histories'], 'all sequences of additions and removals, any number of objects',
     'Tests add objects once and never remove them.',
     ['src/rigid_body_system.cpp'], [('registry', 'src/rigid_body_system.cpp add/remove'), ('row count', 'src/rigid_body_system.cpp getFullConstraintCount')], 'registered objects', 'indices and counts')
prop('C17', 'Body state enters and leaves a simulation step unchanged except by the solver',
     'At the start of a step every registered body contributes its position, orientation, velocity and mass to the computation at its own slot, accelerations start from zero at the start of the step and forces from zero at every evaluation before the generators add theirs, the mass and inverse mass weights are those of the bodies, and after the step every body receives exactly the integrated values. Bodies that are not registered are not written.',
     ['inputs', 'histories'], 'all numbers of bodies, masses and states',
     'Tests use one to three bodies with equal masses.',
     ['src/rigid_body_system.cpp', 'src/optimized_nsv_rigid_body_system.cpp', 'src/generic_rigid_body_system.cpp'],
     [('state population', 'src/rigid_body_system.cpp populateSystemState'), ('mass matrices', 'src/rigid_body_system.cpp populateMassMatrices'), ('force clearing', 'src/rigid_body_system.cpp processForces')],
     'system state and bodies', 'bodies after process()')
prop('C18', 'Accelerations are (applied plus constraint forces) divided by mass',
     'In both system kinds, given the multipliers of the constraint solver, the acceleration of every body is the sum of the applied force and every reaction of the constraints acting on it, divided by its mass or inertia; fixed ground bodies are skipped safely.',
     ['inputs', 'configurations'], 'all numbers of bodies and constraints, all Jacobians and multipliers, ground bodies in any position',
     'Tests cover single constraints with both bodies registered.',
     ['src/optimized_nsv_rigid_body_system.cpp', 'src/generic_rigid_body_system.cpp'], [('acceleration from multipliers', 'src/*_rigid_body_system.cpp processConstraints')], 'accelerations', 'acceleration arrays of the state')
prop('C19', 'The linear system handed to the solver is the constraint equation of each row',
     'For every constraint row that has at least one moving body the Jacobian handed to the linear solver holds exactly that constraint\'s entries in the columns of its bodies, and the right side is the velocity-level or acceleration-level equation of the row with the configured gains, target speed and external forces, with limits scaled to the time step where limits apply.',
     ['inputs', 'configurations'], 'all numbers of bodies, constraints and rows, all body states, outputs and time steps',
     'Tests only see the trajectories that result.',
     ['src/optimized_nsv_rigid_body_system.cpp', 'src/generic_rigid_body_system.cpp'], [('assembly', 'src/*_rigid_body_system.cpp processConstraints')], 'linear system', 'arguments of the solver')
prop('C20', 'Reported constraint forces are the forces that were applied',
     'After a step the force and torque a constraint reports for each equation and body is the reaction computed for exactly that equation and body, for any mix of constraints with different numbers of equations.',
     ['inputs', 'configurations', 'histories'], 'all mixes of constraints, all multipliers',
     'Only a scene with one constraint type is tested.',
     ['src/optimized_nsv_rigid_body_system.cpp', 'src/generic_rigid_body_system.cpp', 'src/rk4_ode_solver.cpp'], [('reaction report', 'src/*_rigid_body_system.cpp process')], 'reported reactions', 'F_x, F_y, F_t of each constraint')
prop('C21', 'System state storage stays valid across resizes, copies and destruction',
     'After any sequence of resizing, copying and destroying a system state it has room for what was requested, all its arrays are separate and fully usable, a copy equals its source in every entry, and everything allocated is released exactly once.',
     ['histories', 'inputs'], 'all sequences of operations, all sizes including zero bodies or zero rows',
     'Tests only resize once and do not look at memory.',
     ['src/system_state.cpp', 'include/utilities.h'], [('resize, copy, destroy', 'src/system_state.cpp'), ('array release', 'include/utilities.h')], 'storage of the state', 'arrays, counts, allocator')
prop('C22', 'A step advances exactly the requested time and reports true timings',
     'One call to process advances the simulation by the requested time in the requested number of equal sub-steps, each integrated to completion, and the reported average durations are the averages over the most recent recorded samples, zero when none was recorded; the recorded times are those spent in integration, constraint solving, force evaluation and constraint evaluation, and are never negative.',
     ['inputs', 'histories'], 'all time steps, numbers of sub-steps, numbers of previous calls',
     'Tests do not look at sub-steps or timings.',
     ['src/rigid_body_system.cpp', 'src/optimized_nsv_rigid_body_system.cpp', 'src/generic_rigid_body_system.cpp'], [('sub-step loop', 'src/*_rigid_body_system.cpp process'), ('timing ring', 'src/rigid_body_system.cpp findAverage')], 'time and timing samples', 'body motion and average durations')

CLAIM = {c: None for c in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22'.split()}
NOTE = ('Every verification condition generated from the LLVM IR of the current sources is discharged for all inputs, sizes and iterations (loops by induction). '
        'Assumes real arithmetic for doubles, mathematical integers, the assumed contracts of the C++ runtime, valid arguments; a function the generator cannot interpret falls back to a bounded check and is reported as such.')

if __name__ == '__main__':
    with open('properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh',
             checks=[dict(property=c, quick_cmd='./check %s' % c, thorough_cmd='./check %s --thorough' % c, evidence_file='evidence/%s.json' % c,
                          technique='contract-based deductive verification of the compiled source (verification conditions over LLVM IR, z3/cvc5 discharge)',
                          level='proof', level_note=CLAIM[c] or NOTE) for c in sorted(CLAIM)],
             not_applicable=[dict(property=p['id'], reason='contracts not finished yet') for p in P if p['id'] not in CLAIM],
             notes='No hooks are needed in /repo: the verified text is the LLVM IR of the unmodified sources.')
    json.dump(m, open('MANIFEST.json', 'w'), indent=1)
