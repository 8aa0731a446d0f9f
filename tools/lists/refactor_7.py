[
('C07 C08', [('src/system_state.cpp', '    double w_x, w_y;\n    localToWorld(x, y, &w_x, &w_y, body);\n\n    const double v_theta = this->v_theta[body];\n    const double angularToLinear_x = -v_theta * (w_y - this->p_y[body]);\n    const double angularToLinear_y = v_theta * (w_x - this->p_x[body]);\n\n    *v_x = this->v_x[body] + angularToLinear_x;\n    *v_y = this->v_y[body] + angularToLinear_y;', '    const double c = std::cos(theta[body]);\n    const double s = std::sin(theta[body]);\n    const double arm_x = c * x - s * y;\n    const double arm_y = s * x + c * y;\n    const double w = this->v_theta[body];\n\n    *v_x = this->v_x[body] - w * arm_y;\n    *v_y = this->v_y[body] + w * arm_x;')]),
('C08', [('src/system_state.cpp', '    double w_x, w_y;\n    localToWorld(x_l, y_l, &w_x, &w_y, body);\n\n    this->f_x[body] += f_x;\n    this->f_y[body] += f_y;\n\n    this->t[body] +=\n        (w_y - this->p_y[body]) * -f_x +\n        (w_x - this->p_x[body]) * f_y;', '    const double c = std::cos(theta[body]);\n    const double s = std::sin(theta[body]);\n    const double moment = (c * x_l - s * y_l) * f_y - (s * x_l + c * y_l) * f_x;\n\n    this->t[body] += moment;\n    this->f_x[body] += f_x;\n    this->f_y[body] += f_y;')]),
('C21', [('src/system_state.cpp', '    std::memcpy((void *)a_theta, (void *)state->a_theta, sizeof(double) * n);\n    std::memcpy((void *)v_theta, (void *)state->v_theta, sizeof(double) * n);\n    std::memcpy((void *)theta, (void *)state->theta, sizeof(double) * n);\n', '    std::copy(state->a_theta, state->a_theta + n, a_theta);\n    std::copy_n(state->v_theta, n, v_theta);\n    for (int i = n - 1; i >= 0; --i) theta[i] = state->theta[i];\n'), ('src/system_state.cpp', '#include <cstring>', '#include <cstring>\n#include <algorithm>')]),
('C21', [('src/system_state.cpp', '    const int n = state->n;\n    const int n_c = state->n_c;\n\n    if (n == 0 && n_c == 0) {\n        return;\n    }\n\n    std::memcpy((void *)indexMap', '    const int n = state->n;\n    const int n_c = state->n_c;\n    auto copyBodies = [n](double *target, const double *source) {\n        if (n > 0) std::memcpy(target, source, sizeof(double) * n);\n    };\n    if (n_c <= 0 && n <= 0) return;\n\n    copyBodies(a_x, state->a_x);\n    std::memcpy((void *)indexMap')]),
('C21', [('src/system_state.cpp', '    if (n >= bodyCount && n_c >= constraintCount) {\n        return;\n    }\n\n    destroy();\n', '    const bool fits = bodyCount <= n && constraintCount <= n_c;\n    if (fits) return;\n\n    destroy();\n')]),
('C21', [('src/system_state.cpp', '    m = new double[n];\n\n    r_x = new double[(size_t)n_c * 2];\n    r_y = new double[(size_t)n_c * 2];\n    r_t = new double[(size_t)n_c * 2];', '    m = new double[n];\n\n    const size_t reactions = (size_t)n_c + (size_t)n_c;\n    double **arrays[] = { &r_x, &r_y, &r_t };\n    for (double **array : arrays) *array = new double[reactions];')]),
('C09', [('src/spring.cpp', '    if (std::abs(l) >= 1E-2) {\n        dx /= l;\n        dy /= l;\n    }\n    else {\n        dx = 0.0;\n        dy = 0.0;\n    }\n', '    const bool degenerate = !(l >= 1E-2);\n    dx = degenerate ? 0.0 : dx / l;\n    dy = degenerate ? 0.0 : dy / l;\n')]),
('C09', [('src/spring.cpp', '    if (m_body1->index != -1) {\n        state->applyForce(\n            m_p1_x,\n            m_p1_y,\n            dx * x * m_ks + rel_v_x * m_kd,\n            dy * x * m_ks + rel_v_y * m_kd,\n            m_body1->index\n        );\n    }\n', '    const double F_x = dx * x * m_ks + rel_v_x * m_kd;\n    const double F_y = dy * x * m_ks + rel_v_y * m_kd;\n    const int first = m_body1->index;\n    if (first >= 0) {\n        state->applyForce(m_p1_x, m_p1_y, F_x, F_y, first);\n    }\n')]),
('C09', [('src/spring.cpp', '#include <cmath>\n', '#include <cmath>\n\nnamespace {\n    struct End { double x, y, v_x, v_y; };\n\n    End endOf(atg_scs::RigidBody *body, double p_x, double p_y, atg_scs::SystemState *state) {\n        End end = { 0, 0, 0, 0 };\n        if (body->index == -1) {\n            body->localToWorld(p_x, p_y, &end.x, &end.y);\n            return end;\n        }\n\n        state->localToWorld(p_x, p_y, &end.x, &end.y, body->index);\n        state->velocityAtPoint(p_x, p_y, &end.v_x, &end.v_y, body->index);\n        return end;\n    }\n}\n'), ('src/spring.cpp', '    if (m_body1->index != -1) {\n        state->localToWorld(m_p1_x, m_p1_y, &x1, &y1, m_body1->index);\n        state->velocityAtPoint(m_p1_x, m_p1_y, &v_x1, &v_y1, m_body1->index);\n    }\n    else {\n        m_body1->localToWorld(m_p1_x, m_p1_y, &x1, &y1);\n    }\n', '    const End e1 = endOf(m_body1, m_p1_x, m_p1_y, state);\n    x1 = e1.x; y1 = e1.y; v_x1 = e1.v_x; v_y1 = e1.v_y;\n')]),
('C10', [('src/spring.cpp', '    return 0.5 * m_ks * (l - m_restLength) * (l - m_restLength);', '    const double extension = l - m_restLength;\n    return m_ks * extension * extension / 2;')]),
('C10', [('src/spring.cpp', '    double x1, y1;\n    double x2, y2;\n\n    m_body1->localToWorld(m_p1_x, m_p1_y, &x1, &y1);\n    m_body2->localToWorld(m_p2_x, m_p2_y, &x2, &y2);\n\n    const double dx = x2 - x1;\n    const double dy = y2 - y1;\n\n    const double l = std::sqrt(dx * dx + dy * dy);\n', '    double ends[4];\n    const_cast<Spring *>(this)->getEnds(&ends[0], &ends[1], &ends[2], &ends[3]);\n\n    const double l = std::sqrt((ends[2] - ends[0]) * (ends[2] - ends[0]) + (ends[3] - ends[1]) * (ends[3] - ends[1]));\n')]),
('C09', [('src/constant_speed_motor.cpp', '    double v1;\n    double a1;\n\n    if (m_body0->index == -1) {\n        v1 = a1 = 0;\n    }\n    else {\n        v1 = state->v_theta[m_body0->index];\n        a1 = state->a_theta[m_body0->index];\n    }\n', '    const int base = m_body0->index;\n    const bool ground = base == -1;\n    const double v1 = ground ? 0.0 : state->v_theta[base];\n    const double a1 = ground ? 0.0 : state->a_theta[base];\n')]),
('C09', [('src/constant_speed_motor.cpp', '    const double limitedTorque =\n        std::fmin(m_maxTorque, std::fmax(-m_maxTorque, totalTorque));\n', '    double limitedTorque = totalTorque;\n    if (limitedTorque > m_maxTorque) limitedTorque = m_maxTorque;\n    else if (limitedTorque < -m_maxTorque) limitedTorque = -m_maxTorque;\n')]),
('C07', [('src/rigid_body.cpp', '    *l_x = cos_theta * (x - p_x) + sin_theta * (y - p_y);\n    *l_y = -sin_theta * (x - p_x) + cos_theta * (y - p_y);', '    const double d_x = x - p_x;\n    const double d_y = y - p_y;\n\n    *l_x = d_x * cos_theta + d_y * sin_theta;\n    *l_y = d_y * cos_theta - d_x * sin_theta;')]),
('C05', [('src/rolling_constraint.cpp', '    const double dx_dot = -sin_q3 * q3_dot * m_dx - cos_q3 * q3_dot * m_dy;\n    const double dy_dot = cos_q3 * q3_dot * m_dx - sin_q3 * q3_dot * m_dy;\n', '    const double dx_dot = -q3_dot * dy;\n    const double dy_dot = q3_dot * dx;\n')]),
('C05', [('src/rolling_constraint.cpp', '    const double d_dx_dq3_dot = -cos_q3 * q3_dot * m_dx + sin_q3 * q3_dot * m_dy;\n    const double d_dy_dq3_dot = -sin_q3 * q3_dot * m_dx - cos_q3 * q3_dot * m_dy;\n', '    const double d_dx_dq3_dot = -dy_dot;\n    const double d_dy_dq3_dot = dx_dot;\n')]),
('C05 C06', [('src/clutch_constraint.cpp', '    output->J[0][0] = 0.0;\n    output->J[0][1] = 0.0;\n    output->J[0][2] = -1.0;\n\n    output->J[0][3] = 0.0;\n    output->J[0][4] = 0.0;\n    output->J[0][5] = 1.0;\n\n    output->J_dot[0][0] = 0;\n    output->J_dot[0][1] = 0;\n    output->J_dot[0][2] = 0;\n\n    output->J_dot[0][3] = 0;\n    output->J_dot[0][4] = 0;\n    output->J_dot[0][5] = 0;\n', '    static const double row[6] = { 0.0, 0.0, -1.0, 0.0, 0.0, 1.0 };\n    for (int i = 0; i < 6; ++i) {\n        output->J[0][i] = row[i];\n        output->J_dot[0][i] = 0;\n    }\n')]),
('C05 C06', [('src/clutch_constraint.cpp', '    output->J[0][0] = 0.0;\n    output->J[0][1] = 0.0;\n    output->J[0][2] = -1.0;\n\n    output->J[0][3] = 0.0;\n    output->J[0][4] = 0.0;\n    output->J[0][5] = 1.0;\n', '    for (int body = 0; body < 2; ++body) {\n        double *J = &output->J[0][body * 3];\n        J[0] = J[1] = 0.0;\n        J[2] = (body == 0) ? -1.0 : 1.0;\n    }\n')]),
('C06', [('src/simple_gear_constraint.cpp', '    if (!m_neutral) {\n        noLimits(output);\n    }\n    else {\n        output->limits[0][0] = output->limits[0][1] = 0;\n    }', '    noLimits(output);\n    if (m_neutral) {\n        output->limits[0][0] = 0;\n        output->limits[0][1] = 0;\n    }')]),
('C05 C06', [('src/link_constraint.cpp', '    const double C1 = bodyX - linkedBodyX;\n    const double C2 = bodyY - linkedBodyY;\n', '    double x1, y1, x2, y2;\n    state->localToWorld(m_local_x_1, m_local_y_1, &x1, &y1, body);\n    state->localToWorld(m_local_x_2, m_local_y_2, &x2, &y2, linkedBody);\n    const double C1 = x1 - x2;\n    const double C2 = y1 - y2;\n')]),
('C05 C06', [('src/link_constraint.cpp', '    const double C1 = bodyX - linkedBodyX;\n    const double C2 = bodyY - linkedBodyY;\n\n    output->J[0][0] = 1.0;\n    output->J[0][1] = 0.0;\n    output->J[0][2] = -sin_q3 * m_local_x_1 - cos_q3 * m_local_y_1;\n', '    const double C1 = bodyX - linkedBodyX;\n    const double C2 = bodyY - linkedBodyY;\n    const double armY = bodyY - q2;\n\n    output->J[0][0] = 1.0;\n    output->J[0][1] = 0.0;\n    output->J[0][2] = -armY;\n')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '    if (sufficientlySmall(m_r, right)) {\n        goto succeeded;\n    }\n\n    m_p.set(&m_r);\n\n    for (int k = 0; k < m_maxIterations; ++k) {\n        multiply(J, W, m_p, &m_Ap);\n\n        const double rk_mag = m_r.vectorMagnitudeSquared();\n        const double alpha = rk_mag / m_p.dot(m_Ap);\n        m_x.madd(m_p, alpha);\n        m_r.madd(m_Ap, -alpha);\n\n        if (sufficientlySmall(m_r, right)) {\n            goto succeeded;\n        }\n\n        const double rk1_mag = m_r.vectorMagnitudeSquared();\n        const double beta = rk1_mag / rk_mag;\n        m_p.pmadd(m_r, beta);\n    }\n\n    return false;\n\nsucceeded:\n    result->set(&m_x);\n\n    return true;', '    bool converged = sufficientlySmall(m_r, right);\n    if (!converged) m_p.set(&m_r);\n\n    double rk_mag = m_r.vectorMagnitudeSquared();\n    for (int k = 0; !converged && k < m_maxIterations; ++k) {\n        multiply(J, W, m_p, &m_Ap);\n\n        const double alpha = rk_mag / m_p.dot(m_Ap);\n        m_x.madd(m_p, alpha);\n        m_r.madd(m_Ap, -alpha);\n\n        converged = sufficientlySmall(m_r, right);\n        if (!converged) {\n            const double rk1_mag = m_r.vectorMagnitudeSquared();\n            m_p.pmadd(m_r, rk1_mag / rk_mag);\n            rk_mag = rk1_mag;\n        }\n    }\n\n    if (converged) result->set(&m_x);\n\n    return converged;')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {\n            return false;\n        }\n    }\n\n    return true;', '        const double tolerance = std::fmax(std::abs(m_maxError * t), m_minError);\n        const bool within = std::abs(err) <= tolerance;\n        if (!within) return false;\n    }\n\n    return true;')]),
('C11', [('src/nsv_ode_solver.cpp', '    system->dt = m_dt;\n\n    for (int i = 0; i < system->n; ++i) {', '    const double dt = m_dt;\n    system->dt = dt;\n\n    const int bodies = system->n;\n    for (int i = bodies - 1; i >= 0; --i) {')]),
('C11', [('src/nsv_ode_solver.cpp', '    for (int i = 0; i < system->n; ++i) {', '    auto advance = [this](double &x, double rate) { x += rate * m_dt; };\n    (void)advance;\n    for (int i = 0; i < system->n; ++i) {')]),
('C11', [('src/euler_ode_solver.cpp', '    system->dt = m_dt;\n\n    for (int i = 0; i < system->n; ++i) {', '    const double dt = m_dt;\n    system->dt = dt;\n\n    const int bodies = system->n;\n    for (int i = bodies - 1; i >= 0; --i) {')]),
('C11', [('src/euler_ode_solver.cpp', '    for (int i = 0; i < system->n; ++i) {', '    auto advance = [this](double &x, double rate) { x += rate * m_dt; };\n    (void)advance;\n    for (int i = 0; i < system->n; ++i) {')]),
('C11', [('src/nsv_ode_solver.cpp', '        system->v_x[i] += system->a_x[i] * m_dt;\n        system->v_y[i] += system->a_y[i] * m_dt;\n        system->v_theta[i] += system->a_theta[i] * m_dt;\n\n        system->p_x[i] += system->v_x[i] * m_dt;\n        system->p_y[i] += system->v_y[i] * m_dt;\n        system->theta[i] += system->v_theta[i] * m_dt;\n    }', '        system->v_x[i] += system->a_x[i] * m_dt;\n        system->v_y[i] += system->a_y[i] * m_dt;\n        system->v_theta[i] += system->a_theta[i] * m_dt;\n    }\n\n    for (int i = 0; i < system->n; ++i) {\n        system->p_x[i] += system->v_x[i] * m_dt;\n        system->p_y[i] += system->v_y[i] * m_dt;\n        system->theta[i] += system->v_theta[i] * m_dt;\n    }')]),
('C11', [('src/euler_ode_solver.cpp', '    for (int i = 0; i < system->n; ++i) {\n        system->p_x[i] += system->v_x[i] * m_dt;\n        system->p_y[i] += system->v_y[i] * m_dt;\n        system->theta[i] += system->v_theta[i] * m_dt;\n\n        system->v_x[i] += system->a_x[i] * m_dt;\n        system->v_y[i] += system->a_y[i] * m_dt;\n        system->v_theta[i] += system->a_theta[i] * m_dt;\n    }', '    double *positions[] = { system->p_x, system->p_y, system->theta };\n    double *velocities[] = { system->v_x, system->v_y, system->v_theta };\n    double *accelerations[] = { system->a_x, system->a_y, system->a_theta };\n    for (int c = 0; c < 3; ++c) {\n        for (int i = 0; i < system->n; ++i) {\n            positions[c][i] += velocities[c][i] * m_dt;\n            velocities[c][i] += accelerations[c][i] * m_dt;\n        }\n    }')]),
('C11', [('src/nsv_ode_solver.cpp', '        system->v_x[i] += system->a_x[i] * m_dt;\n        system->v_y[i] += system->a_y[i] * m_dt;\n        system->v_theta[i] += system->a_theta[i] * m_dt;\n\n        system->p_x[i] += system->v_x[i] * m_dt;\n        system->p_y[i] += system->v_y[i] * m_dt;\n        system->theta[i] += system->v_theta[i] * m_dt;', '        const double v_x = system->v_x[i] + system->a_x[i] * m_dt;\n        const double v_y = system->v_y[i] + system->a_y[i] * m_dt;\n        const double v_theta = system->v_theta[i] + system->a_theta[i] * m_dt;\n\n        system->p_x[i] += v_x * m_dt;\n        system->p_y[i] += v_y * m_dt;\n        system->theta[i] += v_theta * m_dt;\n\n        system->v_x[i] = v_x;\n        system->v_y[i] = v_y;\n        system->v_theta[i] = v_theta;')]),
('C09', [('src/gravity_force_generator.cpp', '    const int n = state->n;\n\n    for (int i = 0; i < n; ++i) {\n        state->f_y[i] += -state->m[i] * m_g;\n    }', '    double *f = state->f_y;\n    for (const double *m = state->m, *end = state->m + state->n; m != end; ++m, ++f) {\n        *f -= *m * m_g;\n    }')]),
('C03', [('include/sparse_matrix.h', '                        double v = 0.0;\n                        for (int k = 0; k < T_Entries; ++k) {\n                            const int offset = k * T_Stride;\n                            const int block = m_blockData[i * T_Entries + k];\n                            if (block == -1) continue;\n\n                            for (int l = 0; l < T_Stride; ++l) {\n                                v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);\n                            }\n                        }\n', '                        double v = 0.0;\n                        const int *blocks = &m_blockData[i * T_Entries];\n                        const double *row = m_matrix[i];\n                        for (int e = 0; e < T_Entries * T_Stride; ++e) {\n                            const int block = blocks[e / T_Stride];\n                            if (block != -1) {\n                                v += row[e] * b.get(j, block * T_Stride + e % T_Stride);\n                            }\n                        }\n')]),
('C03', [('include/sparse_matrix.h', '                for (int i = 0; i < m_height; ++i) {\n                    double v = 0.0;\n                    for (int k = 0; k < T_Entries; ++k) {\n                        const int offset = k * T_Stride;\n                        const int block = m_blockData[i * T_Entries + k];\n                        if (block == -1) continue;\n\n                        for (int l = 0; l < T_Stride; ++l) {\n                            const int j = block * T_Stride + l;\n                            target->add(0, j, m_matrix[i][offset + l] * b.get(0, i));\n                        }\n                    }\n                }\n', '                for (int k = 0; k < T_Entries; ++k) {\n                    for (int i = 0; i < m_height; ++i) {\n                        const int block = m_blockData[i * T_Entries + k];\n                        if (block == -1) continue;\n\n                        const double x = b.get(0, i);\n                        for (int l = 0; l < T_Stride; ++l) {\n                            target->add(0, block * T_Stride + l, m_matrix[i][k * T_Stride + l] * x);\n                        }\n                    }\n                }\n')]),
('C03', [('include/sparse_matrix.h', '                                if (block0 == block1) {\n                                    for (int m = 0; m < T_Stride; ++m) {\n                                        dot +=\n                                            m_matrix[i][k * T_Stride + m]\n                                            * b_T.m_matrix[j][l * T_Stride + m];\n                                    }\n                                }\n', '                                if (block0 != block1) continue;\n\n                                const double *r0 = &m_matrix[i][k * T_Stride];\n                                const double *r1 = &b_T.m_matrix[j][l * T_Stride];\n                                double part = 0;\n                                for (int m = 0; m < T_Stride; ++m) part += r0[m] * r1[m];\n                                dot += part;\n')]),
('C04', [('include/sparse_matrix.h', '                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);\n                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);', '                for (int i = 0; i < m_height; ++i) {\n                    for (int j = 0; j < T_Entries; ++j) {\n                        setEmpty(i, j);\n                    }\n                }')]),
('C04', [('include/sparse_matrix.h', '                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);\n                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);', '                for (int i = 0; i < T_Entries * m_height; ++i) m_blockData[i] = -1;\n                for (int i = 0; i < T_Stride * T_Entries * m_height; ++i) m_data[i] = 0.0;')]),
('C04', [('include/sparse_matrix.h', '                for (int i = 0; i < height; ++i) {\n                    m_matrix[i] = &m_data[i * T_Entries * T_Stride];\n                }\n            }\n\n            void destroy', '                double *row = m_data;\n                for (int i = 0; i < height; ++i, row += T_Entries * T_Stride) {\n                    m_matrix[i] = row;\n                }\n            }\n\n            void destroy')]),
('C03', [('include/sparse_matrix.h', '                        const int index = m_blockData[i * T_Entries + j];\n                        if (index == -1) continue;\n\n                        target->setBlock(i, j, index);\n\n                        for (int k = 0; k < T_Stride; ++k) {\n                            target->set(\n                                i,\n                                j,\n                                k,\n                                scale.get(0, i) * m_matrix[i][j * T_Stride + k]);\n                        }\n', '                        const int index = m_blockData[i * T_Entries + j];\n                        if (index != -1) {\n                            target->m_blockData[i * T_Entries + j] = index;\n                            const double s = scale.get(0, i);\n                            double *to = target->m_matrix[i] + j * T_Stride;\n                            for (int k = 0; k < T_Stride; ++k) {\n                                to[k] = m_matrix[i][j * T_Stride + k] * s;\n                            }\n                        }\n')]),
('C05', [('src/line_constraint.cpp', '    const double C = deltaX * perpX + deltaY * perpY;\n', '    const double C = m_dx * deltaY - m_dy * deltaX;\n')])
]
