[('C15', [('src/conjugate_gradient_sle_solver.cpp', '    const int n = right.getHeight();\n', '    const int n = right.getHeight();\n    double rk_mag = 0.0;\n'), ('src/conjugate_gradient_sle_solver.cpp', '    m_p.set(&m_r);\n\n', '    m_p.set(&m_r);\n    rk_mag = m_r.vectorMagnitudeSquared();\n\n'), ('src/conjugate_gradient_sle_solver.cpp', '        const double rk_mag = m_r.vectorMagnitudeSquared();\n        const double alpha', '        const double alpha'), ('src/conjugate_gradient_sle_solver.cpp', '        m_p.pmadd(m_r, beta);\n', '        m_p.pmadd(m_r, beta);\n        rk_mag = rk1_mag;\n')]), ('C09', [('src/spring.cpp', '    if (m_body1->index != -1) {\n        state->applyForce(\n            m_p1_x,\n            m_p1_y,\n            dx * x * m_ks + rel_v_x * m_kd,\n            dy * x * m_ks + rel_v_y * m_kd,\n            m_body1->index\n        );\n    }\n\n    if (m_body2->index != -1) {\n        state->applyForce(\n            m_p2_x,\n            m_p2_y,\n            -dx * x * m_ks - rel_v_x * m_kd,\n            -dy * x * m_ks - rel_v_y * m_kd,\n            m_body2->index\n        );\n    }\n', '    const double F_x = dx * x * m_ks + rel_v_x * m_kd;\n    const double F_y = dy * x * m_ks + rel_v_y * m_kd;\n\n    if (m_body2->index != -1) {\n        state->applyForce(m_p2_x, m_p2_y, -F_x, -F_y, m_body2->index);\n    }\n\n    if (m_body1->index != -1) {\n        state->applyForce(m_p1_x, m_p1_y, F_x, F_y, m_body1->index);\n    }\n')]), ('C09 C10', [('src/spring.cpp', 'void atg_scs::Spring::apply(', 'static void endpoint(atg_scs::SystemState *state, atg_scs::RigidBody *body, double lx, double ly, double *x, double *y, double *vx, double *vy) {\n    *vx = *vy = 0;\n    if (body->index == -1) {\n        body->localToWorld(lx, ly, x, y);\n        return;\n    }\n    state->localToWorld(lx, ly, x, y, body->index);\n    state->velocityAtPoint(lx, ly, vx, vy, body->index);\n}\n\nvoid atg_scs::Spring::apply('), ('src/spring.cpp', '    if (m_body1->index != -1) {\n        state->localToWorld(m_p1_x, m_p1_y, &x1, &y1, m_body1->index);\n        state->velocityAtPoint(m_p1_x, m_p1_y, &v_x1, &v_y1, m_body1->index);\n    }\n    else {\n        m_body1->localToWorld(m_p1_x, m_p1_y, &x1, &y1);\n    }\n\n    if (m_body2->index != -1) {\n        state->localToWorld(m_p2_x, m_p2_y, &x2, &y2, m_body2->index);\n        state->velocityAtPoint(m_p2_x, m_p2_y, &v_x2, &v_y2, m_body2->index);\n    }\n    else {\n        m_body2->localToWorld(m_p2_x, m_p2_y, &x2, &y2);\n    }\n', '    endpoint(state, m_body1, m_p1_x, m_p1_y, &x1, &y1, &v_x1, &v_y1);\n    endpoint(state, m_body2, m_p2_x, m_p2_y, &x2, &y2, &v_x2, &v_y2);\n')]), ('C09', [('src/spring.cpp', '    if (std::abs(l) >= 1E-2) {\n        dx /= l;\n        dy /= l;\n    }\n    else {\n        dx = 0.0;\n        dy = 0.0;\n    }\n', '    const double invLength = (l >= 1E-2) ? 1.0 / l : 0.0;\n    dx *= invLength;\n    dy *= invLength;\n')]), ('C10', [('src/spring.cpp', '    const double l = std::sqrt(dx * dx + dy * dy);\n\n    return 0.5 * m_ks * (l - m_restLength) * (l - m_restLength);', '    const double extension = std::sqrt(dy * dy + dx * dx) - m_restLength;\n\n    return 0.5 * m_ks * extension * extension;')]), ('C09', [('src/gravity_force_generator.cpp', '        state->f_y[i] += -state->m[i] * m_g;\n', '        const double weight = m_g * state->m[i];\n        state->f_y[i] -= weight;\n')]), ('C10', [('src/rigid_body.cpp', '    const double speed_2 = v_x * v_x + v_y * v_y;\n    const double E_k = 0.5 * m * speed_2;\n    const double E_r = 0.5 * I * v_theta * v_theta;\n\n    return E_k + E_r;', '    return 0.5 * (m * (v_x * v_x + v_y * v_y) + I * v_theta * v_theta);')]), ('C07', [('src/rigid_body.cpp', '    *l_x = cos_theta * (x - p_x) + sin_theta * (y - p_y);\n    *l_y = -sin_theta * (x - p_x) + cos_theta * (y - p_y);', '    const double dx = x - p_x, dy = y - p_y;\n\n    *l_x = dx * cos_theta + dy * sin_theta;\n    *l_y = dy * cos_theta - dx * sin_theta;')]), ('C05 C06', [('src/link_constraint.cpp', '    output->J_dot[0][0] = 0;\n    output->J_dot[0][1] = 0;\n    output->J_dot[0][2] =', '    for (int i = 0; i < 2; ++i) {\n        for (int j = 0; j < 6; ++j) {\n            output->J_dot[i][j] = 0.0;\n        }\n    }\n\n    output->J_dot[0][2] ='), ('src/link_constraint.cpp', '    output->J_dot[1][3] = 0;\n    output->J_dot[1][4] = 0;\n', '')]), ('C05 C06', [('src/link_constraint.cpp', '    const double bodyX = q1 + cos_q3 * m_local_x_1 - sin_q3 * m_local_y_1;\n    const double bodyY = q2 + sin_q3 * m_local_x_1 + cos_q3 * m_local_y_1;\n', '    const double rx = cos_q3 * m_local_x_1 - sin_q3 * m_local_y_1;\n    const double ry = sin_q3 * m_local_x_1 + cos_q3 * m_local_y_1;\n    const double bodyX = q1 + rx;\n    const double bodyY = q2 + ry;\n'), ('src/link_constraint.cpp', '    output->J[0][2] = -sin_q3 * m_local_x_1 - cos_q3 * m_local_y_1;\n', '    output->J[0][2] = -ry;\n'), ('src/link_constraint.cpp', '    output->J[1][2] = cos_q3 * m_local_x_1 - sin_q3 * m_local_y_1;\n', '    output->J[1][2] = rx;\n'), ('src/link_constraint.cpp', '        -cos_q3 * q3_dot * m_local_x_1 + sin_q3 * q3_dot * m_local_y_1;\n', '        -q3_dot * rx;\n'), ('src/link_constraint.cpp', '        -sin_q3 * q3_dot * m_local_x_1 - cos_q3 * q3_dot * m_local_y_1;\n', '        -q3_dot * ry;\n')]), ('C05 C06', [('src/link_constraint.cpp', '    output->limits[0][0] = -m_maxForce;\n    output->limits[0][1] = m_maxForce;\n\n    output->limits[1][0] = -m_maxForce;\n    output->limits[1][1] = m_maxForce;\n', '    for (int i = 0; i < getConstraintCount(); ++i) {\n        output->limits[i][0] = -m_maxForce;\n        output->limits[i][1] = +m_maxForce;\n    }\n')]), ('C05', [('src/fixed_position_constraint.cpp', '    const double current_x = q1 + cos_q3 * m_local_x - sin_q3 * m_local_y;\n    const double current_y = q2 + sin_q3 * m_local_x + cos_q3 * m_local_y;\n', '    double current_x, current_y;\n    state->localToWorld(m_local_x, m_local_y, &current_x, &current_y, body);\n')]), ('C05', [('src/line_constraint.cpp', '    const double C = deltaX * perpX + deltaY * perpY;\n', '    const double C = m_dx * deltaY - m_dy * deltaX;\n')]), ('C05', [('src/rolling_constraint.cpp', '    output->J[0][3] = -1 * dx;\n    output->J[0][4] = -1 * dy;\n', '    output->J[0][3] = ds_dq1;\n    output->J[0][4] = ds_dq2;\n')]), ('C05 C06', [('src/clutch_constraint.cpp', '    output->J_dot[0][0] = 0;\n    output->J_dot[0][1] = 0;\n    output->J_dot[0][2] = 0;\n\n    output->J_dot[0][3] = 0;\n    output->J_dot[0][4] = 0;\n    output->J_dot[0][5] = 0;\n', '    for (double &x : output->J_dot[0]) x = 0;\n')]), ('C05 C06', [('src/simple_gear_constraint.cpp', '    if (!m_neutral) {\n        noLimits(output);\n    }\n    else {\n        output->limits[0][0] = output->limits[0][1] = 0;\n    }\n', '    noLimits(output);\n    if (m_neutral) {\n        output->limits[0][1] = 0;\n        output->limits[0][0] = 0;\n    }\n')]), ('C09', [('src/constant_speed_motor.cpp', '    double v1;\n    double a1;\n\n    if (m_body0->index == -1) {\n        v1 = a1 = 0;\n    }\n    else {\n        v1 = state->v_theta[m_body0->index];\n        a1 = state->a_theta[m_body0->index];\n    }\n', '    const int i0 = m_body0->index;\n    const bool fixed = (i0 == -1);\n    const double v1 = fixed ? 0.0 : state->v_theta[i0];\n    const double a1 = fixed ? 0.0 : state->a_theta[i0];\n'), ('src/constant_speed_motor.cpp', '    const double limitedTorque =\n        std::fmin(m_maxTorque, std::fmax(-m_maxTorque, totalTorque));\n', '    const double limitedTorque =\n        std::fmax(-m_maxTorque, std::fmin(m_maxTorque, totalTorque));\n')]), ('C06', [('src/constraint.cpp', '    memset(m_bodies, 0, sizeof(RigidBody *) * MaxBodyCount);\n\n    for (int i = 0; i < MaxConstraintCount; ++i) {\n        for (int j = 0; j < MaxBodyCount; ++j) {\n            F_x[i][j] = F_y[i][j] = F_t[i][j] = 0;\n        }\n    }', '    for (int i = 0; i < MaxBodyCount; ++i) {\n        m_bodies[i] = nullptr;\n    }\n\n    memset(F_x, 0, sizeof(F_x));\n    memset(F_y, 0, sizeof(F_y));\n    memset(F_t, 0, sizeof(F_t));')]), ('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies[body->index] = m_rigidBodies.back();\n    m_rigidBodies[body->index]->index = body->index;\n    m_rigidBodies.resize(m_rigidBodies.size() - 1);\n    body->index = -1;\n', '    const int slot = body->index;\n    RigidBody *last = m_rigidBodies.back();\n\n    m_rigidBodies[slot] = last;\n    last->index = slot;\n    m_rigidBodies.pop_back();\n    body->index = -1;\n')]), ('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies.push_back(body);\n    body->index = (int)m_rigidBodies.size() - 1;\n', '    body->index = (int)m_rigidBodies.size();\n    m_rigidBodies.push_back(body);\n'), ('src/rigid_body_system.cpp', '    m_constraints.push_back(constraint);\n    constraint->m_index = (int)m_constraints.size() - 1;\n', '    constraint->m_index = getConstraintCount();\n    m_constraints.emplace_back(constraint);\n')]), ('C16 C17 C19', [('src/rigid_body_system.cpp', '    for (Constraint *constraint: m_constraints) {\n        count += constraint->getConstraintCount();\n    }\n', '    for (size_t i = 0; i < m_constraints.size(); ++i) {\n        count += m_constraints[i]->getConstraintCount();\n    }\n')]), ('C17', [('src/rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        M->set(0, i * 3 + 0, m_rigidBodies[i]->m);\n        M->set(0, i * 3 + 1, m_rigidBodies[i]->m);\n        M->set(0, i * 3 + 2, m_rigidBodies[i]->I);\n\n        M_inv->set(0, i * 3 + 0, 1 / m_rigidBodies[i]->m);\n        M_inv->set(0, i * 3 + 1, 1 / m_rigidBodies[i]->m);\n        M_inv->set(0, i * 3 + 2, 1 / m_rigidBodies[i]->I);\n     }\n', '    int row = 0;\n    for (RigidBody *body : m_rigidBodies) {\n        const double invMass = 1.0 / body->m;\n        const double invInertia = 1.0 / body->I;\n\n        M->set(0, row, body->m);\n        M_inv->set(0, row++, invMass);\n        M->set(0, row, body->m);\n        M_inv->set(0, row++, invMass);\n        M->set(0, row, body->I);\n        M_inv->set(0, row++, invInertia);\n    }\n')]), ('C17', [('src/rigid_body_system.cpp', '    for (int i = 0; i < n_f; ++i) {\n        m_forceGenerators[i]->apply(&m_state);\n    }\n', '    SystemState *state = &m_state;\n    for (ForceGenerator *generator : m_forceGenerators) {\n        generator->apply(state);\n    }\n')]), ('C17', [('src/rigid_body_system.cpp', '    for (int i = 0, j_f = 0; i < m; ++i) {\n        m_state.indexMap[i] = j_f;\n        j_f += m_constraints[i]->getConstraintCount();\n    }\n', '    int equation = 0;\n    for (int i = 0; i < m; ++i) {\n        m_state.indexMap[i] = equation;\n        equation = equation + m_constraints[i]->getConstraintCount();\n    }\n'), ('src/rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = 0;\n        m_state.a_y[i] = 0;\n', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_state.a_y[i] = 0;\n')]), ('C17', [('src/rigid_body_system.cpp', '        m_state.v_x[i] = m_rigidBodies[i]->v_x;\n        m_state.v_y[i] = m_rigidBodies[i]->v_y;\n\n        m_state.p_x[i] = m_rigidBodies[i]->p_x;\n        m_state.p_y[i] = m_rigidBodies[i]->p_y;\n\n        m_state.a_theta[i] = 0;\n        m_state.v_theta[i] = m_rigidBodies[i]->v_theta;\n        m_state.theta[i] = m_rigidBodies[i]->theta;\n\n        m_state.m[i] = m_rigidBodies[i]->m;\n', '        const RigidBody &body = *m_rigidBodies[i];\n\n        m_state.m[i] = body.m;\n\n        m_state.p_x[i] = body.p_x;\n        m_state.p_y[i] = body.p_y;\n        m_state.theta[i] = body.theta;\n\n        m_state.v_x[i] = body.v_x;\n        m_state.v_y[i] = body.v_y;\n        m_state.v_theta[i] = body.v_theta;\n\n        m_state.a_theta[i] = 0;\n')])]