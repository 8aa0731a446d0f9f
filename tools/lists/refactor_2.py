[
# 0 registry
('C16', [('src/rigid_body_system.cpp', '''    m_rigidBodies[body->index] = m_rigidBodies.back();
    m_rigidBodies[body->index]->index = body->index;
    m_rigidBodies.resize(m_rigidBodies.size() - 1);
    body->index = -1;''', '''    const int slot = body->index;
    RigidBody *last = m_rigidBodies.back();
    m_rigidBodies.pop_back();
    if (last != body) {
        m_rigidBodies[slot] = last;
        last->index = slot;
    }
    body->index = -1;''')]),
('C16', [('src/rigid_body_system.cpp', '''    m_constraints.push_back(constraint);
    constraint->m_index = (int)m_constraints.size() - 1;''', '''    constraint->m_index = getConstraintCount();
    m_constraints.push_back(constraint);''')]),
('C16', [('src/rigid_body_system.cpp', '''    int count = 0;
    for (Constraint *constraint: m_constraints) {
        count += constraint->getConstraintCount();
    }

    return count;''', '''    int count = 0;
    const int m = getConstraintCount();
    for (int i = m - 1; i >= 0; --i) {
        count += m_constraints[i]->getConstraintCount();
    }

    return count;''')]),
('C22', [('src/rigid_body_system.cpp', '''        if (samples[i] != -1) {
            accum += samples[i];
            ++count;
        }
    }

    if (count == 0) return 0;
    else return (float)accum / count;''', '''        if (samples[i] == -1) continue;
        accum += samples[i];
        count = count + 1;
    }

    return (count > 0) ? (float)accum / count : 0.0f;''')]),
# 4 population split
('C17 C22', [('src/rigid_body_system.cpp', '''    for (int i = 0; i < n; ++i) {
        m_state.a_x[i] = 0;
        m_state.a_y[i] = 0;

        m_state.v_x[i] = m_rigidBodies[i]->v_x;''', '''    for (int i = 0; i < n; ++i) {
        m_state.a_theta[i] = 0;
        m_state.a_x[i] = 0;
        m_state.a_y[i] = 0;
    }

    for (int i = 0; i < n; ++i) {
        m_state.v_x[i] = m_rigidBodies[i]->v_x;'''), ('src/rigid_body_system.cpp', '''        m_state.a_theta[i] = 0;
        m_state.v_theta[i] =''', '''        m_state.v_theta[i] =''')]),
('C17 C22', [('src/rigid_body_system.cpp', '''        m_state.v_x[i] = m_rigidBodies[i]->v_x;
        m_state.v_y[i] = m_rigidBodies[i]->v_y;

        m_state.p_x[i] = m_rigidBodies[i]->p_x;
        m_state.p_y[i] = m_rigidBodies[i]->p_y;
''', '''        const RigidBody &body = *m_rigidBodies[i];
        m_state.v_x[i] = body.v_x;
        m_state.v_y[i] = body.v_y;

        m_state.p_x[i] = body.p_x;
        m_state.p_y[i] = body.p_y;
'''), ('src/rigid_body_system.cpp', '''    for (int i = 0, j_f = 0; i < m; ++i) {
        m_state.indexMap[i] = j_f;
        j_f += m_constraints[i]->getConstraintCount();
    }''', '''    int j_f = 0;
    int i = 0;
    for (Constraint *constraint : m_constraints) {
        m_state.indexMap[i++] = j_f;
        j_f += constraint->getConstraintCount();
    }''')]),
('C17', [('src/rigid_body_system.cpp', '''        M->set(0, i * 3 + 0, m_rigidBodies[i]->m);
        M->set(0, i * 3 + 1, m_rigidBodies[i]->m);
        M->set(0, i * 3 + 2, m_rigidBodies[i]->I);

        M_inv->set(0, i * 3 + 0, 1 / m_rigidBodies[i]->m);
        M_inv->set(0, i * 3 + 1, 1 / m_rigidBodies[i]->m);
        M_inv->set(0, i * 3 + 2, 1 / m_rigidBodies[i]->I);''', '''        const double m = m_rigidBodies[i]->m;
        const double I = m_rigidBodies[i]->I;
        const int row = 3 * i;
        for (int k = 0; k < 2; ++k) {
            M->set(0, row + k, m);
            M_inv->set(0, row + k, 1 / m);
        }
        M->set(0, row + 2, I);
        M_inv->set(0, row + 2, 1.0 / I);''')]),
('C17 C22', [('src/rigid_body_system.cpp', '''    for (int i = 0; i < n; ++i) {
        m_state.f_x[i] = 0.0;
        m_state.f_y[i] = 0.0;
        m_state.t[i] = 0.0;
    }
''', '''    memset(m_state.f_x, 0, sizeof(double) * n);
    memset(m_state.f_y, 0, sizeof(double) * n);
    memset(m_state.t, 0, sizeof(double) * n);
''')]),
('C17 C22', [('src/rigid_body_system.cpp', '''    for (int i = 0; i < n_f; ++i) {
        m_forceGenerators[i]->apply(&m_state);
    }''', '''    for (ForceGenerator *generator : m_forceGenerators) {
        generator->apply(&m_state);
    }''')]),
# 9 optimized process: helper and reorder
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '''    for (int i = 0; i < steps; ++i) {
        m_odeSolver.start(&m_state, dt / steps);

        while (true) {
            const bool done = m_odeSolver.step(&m_state);
''', '''    const double stepDt = dt / steps;
    for (int i = 0; i < steps; ++i) {
        m_odeSolver.start(&m_state, stepDt);

        bool done = false;
        while (!done) {
            done = m_odeSolver.step(&m_state);
'''), ('src/optimized_nsv_rigid_body_system.cpp', '''            if (done) break;
''', ''), ('src/optimized_nsv_rigid_body_system.cpp', 'processConstraints(dt / steps, &evalTime', 'processConstraints(stepDt, &evalTime')]),
('C17 C20', [('src/optimized_nsv_rigid_body_system.cpp', '''    const int n = getRigidBodyCount();
    for (int i = 0; i < n; ++i) {
        m_rigidBodies[i]->v_x = m_state.v_x[i];
        m_rigidBodies[i]->v_y = m_state.v_y[i];

        m_rigidBodies[i]->p_x = m_state.p_x[i];
        m_rigidBodies[i]->p_y = m_state.p_y[i];

        m_rigidBodies[i]->v_theta = m_state.v_theta[i];
        m_rigidBodies[i]->theta = m_state.theta[i];
    }
''', '''    for (RigidBody *body : m_rigidBodies) {
        const int i = body->index;
        body->p_x = m_state.p_x[i];
        body->p_y = m_state.p_y[i];
        body->theta = m_state.theta[i];

        body->v_x = m_state.v_x[i];
        body->v_y = m_state.v_y[i];
        body->v_theta = m_state.v_theta[i];
    }
''')]),
('C20', [('src/optimized_nsv_rigid_body_system.cpp', '''    for (int i = 0, i_f = 0; i < m; ++i) {
        Constraint *constraint = m_constraints[i];

        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {
            for (int k = 0; k < constraint->m_bodyCount; ++k) {
                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];
                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];
                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];
            }
        }
    }''', '''    int row = 0;
    for (int i = 0; i < m; ++i) {
        Constraint *constraint = m_constraints[i];
        const int rows = constraint->getConstraintCount();

        for (int j = 0; j < rows; ++j) {
            const int base = (row + j) * 2;
            for (int k = 0; k < constraint->m_bodyCount; ++k) {
                constraint->F_t[j][k] = m_state.r_t[base + k];
                constraint->F_x[j][k] = m_state.r_x[base + k];
                constraint->F_y[j][k] = m_state.r_y[base + k];
            }
        }
        row += rows;
    }''')]),
('C20', [('src/optimized_nsv_rigid_body_system.cpp', '''    for (int i = 0, i_f = 0; i < m; ++i) {
        Constraint *constraint = m_constraints[i];

        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {''', '''    for (int i = 0; i < m; ++i) {
        Constraint *constraint = m_constraints[i];
        int i_f = m_state.indexMap[i];

        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {''')]),
# 13 J assembly merged loops
('C18 C19', [('src/optimized_nsv_rigid_body_system.cpp', '''                const int index = m_constraints[j]->m_bodies[i]->index;

                if (index == -1) continue;

                m_iv.J_sparse.setBlock(j_f, i, index);
            }

            for (int i = 0; i < m_constraints[j]->m_bodyCount * 3; ++i) {
                const int index = m_constraints[j]->m_bodies[i / 3]->index;

                if (index == -1) continue;

                m_iv.J_sparse.set(j_f, i / 3, i % 3,
                        constraintOutput.J[k][i]);
            }
''', '''                const int index = m_constraints[j]->m_bodies[i]->index;

                if (index == -1) continue;

                m_iv.J_sparse.setBlock(j_f, i, index);
                for (int l = 0; l < 3; ++l) {
                    m_iv.J_sparse.set(j_f, i, l, constraintOutput.J[k][i * 3 + l]);
                }
            }
''')]),
('C18 C19', [('src/optimized_nsv_rigid_body_system.cpp', '''    m_iv.q_dot.resize(1, n * 3);
    for (int i = 0; i < n; ++i) {
        m_iv.q_dot.set(0, i * 3 + 0, m_state.v_x[i]);
        m_iv.q_dot.set(0, i * 3 + 1, m_state.v_y[i]);
        m_iv.q_dot.set(0, i * 3 + 2, m_state.v_theta[i]);
    }

    m_iv.F_ext.initialize(1, 3 * n, 0.0);
    for (int i = 0; i < n; ++i) {
        m_iv.F_ext.set(0, i * 3 + 0, m_state.f_x[i]);''', '''    m_iv.q_dot.resize(1, n * 3);
    m_iv.F_ext.initialize(1, 3 * n, 0.0);
    for (int i = 0; i < n; ++i) {
        m_iv.q_dot.set(0, i * 3 + 0, m_state.v_x[i]);
        m_iv.q_dot.set(0, i * 3 + 1, m_state.v_y[i]);
        m_iv.q_dot.set(0, i * 3 + 2, m_state.v_theta[i]);

        m_iv.F_ext.set(0, i * 3 + 0, m_state.f_x[i]);''')]),
('C18 C19', [('src/optimized_nsv_rigid_body_system.cpp', '''    m_iv.F_ext.scale(dt, &m_iv.reg0);
    m_iv.reg0.leftScale(m_iv.M_inv, &m_iv.reg1);
    m_iv.reg1.add(m_iv.q_dot, &m_iv.q_dot_prime);
''', '''    m_iv.F_ext.leftScale(m_iv.M_inv, &m_iv.reg0);
    m_iv.reg0.scale(dt, &m_iv.reg1);
    m_iv.q_dot.add(m_iv.reg1, &m_iv.q_dot_prime);
''')]),
('C18 C19', [('src/optimized_nsv_rigid_body_system.cpp', '''    m_iv.J_sparse.multiply(m_iv.q_dot_prime, &m_iv.reg0);
    m_iv.reg0.add(m_iv.v_bias, &m_iv.reg1);
    m_iv.reg1.add(m_iv.b_err, &m_iv.reg0);
    m_iv.reg0.negate(&m_iv.right);''', '''    m_iv.J_sparse.multiply(m_iv.q_dot_prime, &m_iv.right);
    m_iv.right.madd(m_iv.v_bias, 1.0);
    m_iv.right.madd(m_iv.b_err, 1.0);
    m_iv.right.negate(&m_iv.right);''')]),
('C18 C19 C20', [('src/optimized_nsv_rigid_body_system.cpp', '''        m_state.a_x[i] = m_iv.F_ext.get(0, i * 3 + 0);
        m_state.a_y[i] = m_iv.F_ext.get(0, i * 3 + 1);
        m_state.a_theta[i] = m_iv.F_ext.get(0, i * 3 + 2);''', '''        m_state.a_x[i] = m_state.f_x[i];
        m_state.a_y[i] = m_state.f_y[i];
        m_state.a_theta[i] = m_state.t[i];''')]),
('C18 C20', [('src/optimized_nsv_rigid_body_system.cpp', '''    for (int i = 0; i < m_f; ++i) {
        for (int j = 0; j < 2; ++j) {
            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);
            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);
            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);
        }
    }''', '''    for (int i = 0; i < 2 * m_f; ++i) {
        m_state.r_x[i] = m_iv.sreg0.get(i / 2, i % 2, 0);
        m_state.r_y[i] = m_iv.sreg0.get(i / 2, i % 2, 1);
        m_state.r_t[i] = m_iv.sreg0.get(i / 2, i % 2, 2);
    }''')]),
('C18 C20', [('src/optimized_nsv_rigid_body_system.cpp', '''                if (body == -1) continue;

                m_state.a_x[body] += m_state.r_x[j_f * 2 + k];
                m_state.a_y[body] += m_state.r_y[j_f * 2 + k];
                m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];
            }
        }
    }

    for (int i = 0; i < n; ++i) {
        const double invMass = m_iv.M_inv.get(0, i * 3 + 0);
        const double invInertia = m_iv.M_inv.get(0, i * 3 + 2);

        m_state.a_x[i] *= invMass;
        m_state.a_y[i] *= invMass;
        m_state.a_theta[i] *= invInertia;
    }''', '''                if (body >= 0) {
                    const int entry = j_f * 2 + k;
                    m_state.a_theta[body] = m_state.a_theta[body] + m_state.r_t[entry];
                    m_state.a_x[body] = m_state.a_x[body] + m_state.r_x[entry];
                    m_state.a_y[body] = m_state.a_y[body] + m_state.r_y[entry];
                }
            }
        }
    }

    for (int i = 0; i < n; ++i) {
        m_state.a_x[i] *= m_iv.M_inv.get(0, 3 * i);
        m_state.a_y[i] *= m_iv.M_inv.get(0, 3 * i + 1);
        m_state.a_theta[i] *= m_iv.M_inv.get(0, 3 * i + 2);
    }''')]),
# 20 helper extraction in the header
('C18 C19', [('include/optimized_nsv_rigid_body_system.h', '            void propagateResults();', '            void propagateResults();\n            void assembleVelocities(int n);'), ('src/optimized_nsv_rigid_body_system.cpp', '''    m_iv.q_dot.resize(1, n * 3);
    for (int i = 0; i < n; ++i) {
        m_iv.q_dot.set(0, i * 3 + 0, m_state.v_x[i]);
        m_iv.q_dot.set(0, i * 3 + 1, m_state.v_y[i]);
        m_iv.q_dot.set(0, i * 3 + 2, m_state.v_theta[i]);
    }
''', '''    assembleVelocities(n);
'''), ('src/optimized_nsv_rigid_body_system.cpp', '''void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(''', '''void atg_scs::OptimizedNsvRigidBodySystem::assembleVelocities(int n) {
    m_iv.q_dot.resize(1, n * 3);
    for (int i = 0; i < n; ++i) {
        m_iv.q_dot.set(0, i * 3 + 0, m_state.v_x[i]);
        m_iv.q_dot.set(0, i * 3 + 1, m_state.v_y[i]);
        m_iv.q_dot.set(0, i * 3 + 2, m_state.v_theta[i]);
    }
}

void atg_scs::OptimizedNsvRigidBodySystem::processConstraints(''')]),
]
