[
('C01', [('src/matrix.cpp', '    double result = 0;\n    for (int i = 0; i < m_height; ++i) {\n        result += m_matrix[i][0] * b.m_matrix[i][0];\n    }\n\n    return result;', '    double even = 0, odd = 0;\n    int i = 0;\n    for (; i + 1 < m_height; i += 2) {\n        even += m_matrix[i][0] * b.m_matrix[i][0];\n        odd += m_matrix[i + 1][0] * b.m_matrix[i + 1][0];\n    }\n    if (i < m_height) even += m_matrix[i][0] * b.m_matrix[i][0];\n\n    return even + odd;')]),
('C01', [('src/matrix.cpp', '    double result = 0;\n    for (int i = 0; i < m_height; ++i) {\n        result += m_matrix[i][0] * b.m_matrix[i][0];\n    }\n\n    return result;', '    double result = 0;\n    const int n4 = m_height & ~3;\n    int i = 0;\n    for (; i < n4; i += 4) {\n        result += m_matrix[i][0] * b.m_matrix[i][0] + m_matrix[i + 1][0] * b.m_matrix[i + 1][0] + m_matrix[i + 2][0] * b.m_matrix[i + 2][0] + m_matrix[i + 3][0] * b.m_matrix[i + 3][0];\n    }\n    for (; i < m_height; ++i) result += m_matrix[i][0] * b.m_matrix[i][0];\n\n    return result;')]),
('C01', [('src/matrix.cpp', '    double result = 0;\n    for (int i = 0; i < m_height; ++i) {\n        result += m_matrix[i][0] * b.m_matrix[i][0];\n    }\n\n    return result;', '    double s0 = 0, s1 = 0, s2 = 0, s3 = 0;\n    int i = 0;\n    for (; i + 3 < m_height; i += 4) {\n        s0 += m_matrix[i][0] * b.m_matrix[i][0];\n        s1 += m_matrix[i + 1][0] * b.m_matrix[i + 1][0];\n        s2 += m_matrix[i + 2][0] * b.m_matrix[i + 2][0];\n        s3 += m_matrix[i + 3][0] * b.m_matrix[i + 3][0];\n    }\n    for (; i < m_height; ++i) s0 += m_matrix[i][0] * b.m_matrix[i][0];\n\n    return s0 + s1 + s2 + s3;')]),
('C01', [('src/matrix.cpp', '    double result = 0;\n    for (int i = 0; i < m_height; ++i) {\n        result += m_matrix[i][0] * b.m_matrix[i][0];\n    }\n\n    return result;', '    double result = 0;\n    const int half = m_height / 2;\n    for (int i = 0; i < half; ++i) {\n        result += m_matrix[2 * i][0] * b.m_matrix[2 * i][0];\n        result += m_matrix[2 * i + 1][0] * b.m_matrix[2 * i + 1][0];\n    }\n    if (m_height % 2 != 0) result += m_matrix[m_height - 1][0] * b.m_matrix[m_height - 1][0];\n\n    return result;')]),
('C01', [('src/matrix.cpp', '            double v = 0.0;\n            for (int ii = 0; ii < m_width; ++ii) {\n                v += m_matrix[i][ii] * b.m_matrix[ii][j];\n            }\n', '            double v = 0.0;\n            int ii = 0;\n            for (; ii + 1 < m_width; ii += 2) {\n                v += m_matrix[i][ii] * b.m_matrix[ii][j] + m_matrix[i][ii + 1] * b.m_matrix[ii + 1][j];\n            }\n            for (; ii < m_width; ++ii) v += m_matrix[i][ii] * b.m_matrix[ii][j];\n')]),
('C01', [('src/matrix.cpp', '            double v = 0.0;\n            for (int ii = 0; ii < m_width; ++ii) {\n                v += m_matrix[i][ii] * b.m_matrix[ii][j];\n            }\n', '            double lo = 0.0, hi = 0.0;\n            const int mid = m_width / 2;\n            for (int ii = 0; ii < mid; ++ii) {\n                lo += m_matrix[i][ii] * b.m_matrix[ii][j];\n            }\n            for (int ii = mid; ii < m_width; ++ii) hi += m_matrix[i][ii] * b.m_matrix[ii][j];\n            const double v = lo + hi;\n')]),
('C01 C02', [('src/matrix.cpp', '    for (int i = 0; i < height; ++i) {\n        for (int j = 0; j < width; ++j) {\n            m_matrix[i][j] = value;\n        }\n    }\n', '    std::fill(m_data, m_data + (size_t)width * height, value);\n')]),
('C01 C02', [('src/matrix.cpp', '    for (int i = 0; i < height; ++i) {\n        for (int j = 0; j < width; ++j) {\n            m_matrix[i][j] = value;\n        }\n    }\n', '    for (int i = 0; i < height; ++i) std::fill_n(m_matrix[i], width, value);\n')]),
('C02', [('src/matrix.cpp', '    memset(m_data, 0, sizeof(double) * width * height);', '    std::fill(m_data, m_data + width * height, 0.0);')]),
('C02', [('src/matrix.cpp', '    memset(m_data, 0, sizeof(double) * width * height);', '    for (int i = 0; i < width * height; ++i) m_data[i] = 0.0;')]),
('C01', [('src/matrix.cpp', '        for (int j = 0; j < reference->m_width; ++j) {\n            m_matrix[i][j] = reference->m_matrix[i][j];\n        }', '        std::copy(reference->m_matrix[i], reference->m_matrix[i] + m_width, m_matrix[i]);')]),
('C01', [('src/matrix.cpp', '        for (int j = 0; j < m_width; ++j) {\n            m_matrix[i][j] = data[i * m_width + j];\n        }', '        std::copy_n(data + i * m_width, m_width, m_matrix[i]);')]),
('C01', [('src/matrix.cpp', '        for (int j = 0; j < m_width; ++j) {\n            target->m_matrix[i][j] = -m_matrix[i][j];\n        }', '        std::transform(m_matrix[i], m_matrix[i] + m_width, target->m_matrix[i], [](double x) { return -x; });')]),
('C01', [('src/matrix.cpp', '    double result = 0;\n    for (int i = 0; i < m_height; ++i) {\n        result += m_matrix[i][0] * b.m_matrix[i][0];\n    }\n\n    return result;', '    auto product = [&](int i) { return m_matrix[i][0] * b.m_matrix[i][0]; };\n    double result = 0;\n    for (int i = 0; i < m_height; ++i) result += product(i);\n\n    return result;')]),
('C01', [('src/matrix.cpp', '            double v = 0.0;\n            for (int ii = 0; ii < m_width; ++ii) {\n                v += m_matrix[i][ii] * b.m_matrix[ii][j];\n            }\n\n            target->m_matrix[i][j] = v;\n        }\n    }\n}\n', '            target->m_matrix[i][j] = 0;\n        }\n        for (int ii = 0; ii < m_width; ++ii) {\n            const double f = m_matrix[i][ii];\n            for (int j = 0; j < b.m_width; ++j) {\n                target->m_matrix[i][j] += f * b.m_matrix[ii][j];\n            }\n        }\n    }\n}\n')]),
('C01', [('src/matrix.cpp', '#include <assert.h>\n', '#include <assert.h>\n\nnamespace {\n    template <typename F>\n    void forEach(int width, int height, F f) {\n        for (int i = 0; i < height; ++i) {\n            for (int j = 0; j < width; ++j) {\n                f(i, j);\n            }\n        }\n    }\n}\n'), ('src/matrix.cpp', '    for (int i = 0; i < m_height; ++i) {\n        for (int j = 0; j < m_width; ++j) {\n            target->m_matrix[i][j] = m_matrix[i][j] + b.m_matrix[i][j];\n        }\n    }', '    forEach(m_width, m_height, [&](int i, int j) { target->m_matrix[i][j] = m_matrix[i][j] + b.m_matrix[i][j]; });')]),
('C01 C02', [('src/matrix.cpp', '        m_capacityWidth = (width > m_capacityWidth)\n            ? width\n            : m_capacityWidth;\n\n        m_capacityHeight = (height > m_capacityHeight)\n            ? height\n            : m_capacityHeight;\n', '        m_capacityWidth = std::max(width, m_capacityWidth);\n        m_capacityHeight = std::max(height, m_capacityHeight);\n')]),
('C16', [('src/rigid_body_system.cpp', '    int count = 0;\n    for (Constraint *constraint: m_constraints) {\n        count += constraint->getConstraintCount();\n    }\n\n    return count;', '    int count = 0;\n    for (size_t i = 0; i < m_constraints.size(); ++i) {\n        count += m_constraints[i]->getConstraintCount();\n    }\n\n    return count;')]),
('C16', [('src/rigid_body_system.cpp', '    int count = 0;\n    for (Constraint *constraint: m_constraints) {\n        count += constraint->getConstraintCount();\n    }\n\n    return count;', '    return std::accumulate(m_constraints.begin(), m_constraints.end(), 0,\n        [](int sum, Constraint *c) { return sum + c->getConstraintCount(); });'), ('src/rigid_body_system.cpp', '#include <cmath>\n', '#include <cmath>\n#include <numeric>\n')]),
('C16', [('src/rigid_body_system.cpp', '#include <cmath>\n', '#include <cmath>\n\nnamespace {\n    template <typename T>\n    int append(std::vector<T *> &list, T *object) {\n        list.push_back(object);\n        return (int)list.size() - 1;\n    }\n}\n'), ('src/rigid_body_system.cpp', '    m_rigidBodies.push_back(body);\n    body->index = (int)m_rigidBodies.size() - 1;', '    body->index = append(m_rigidBodies, body);')]),
('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies.push_back(body);\n    body->index = (int)m_rigidBodies.size() - 1;', '    body->index = (int)m_rigidBodies.size();\n    m_rigidBodies.push_back(body);')]),
('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies[body->index] = m_rigidBodies.back();\n    m_rigidBodies[body->index]->index = body->index;\n    m_rigidBodies.resize(m_rigidBodies.size() - 1);\n    body->index = -1;', '    const int index = body->index;\n    std::swap(m_rigidBodies[index], m_rigidBodies.back());\n    m_rigidBodies.pop_back();\n    if (index < (int)m_rigidBodies.size()) {\n        m_rigidBodies[index]->index = index;\n    }\n\n    body->index = -1;'), ('src/rigid_body_system.cpp', '#include <cmath>\n', '#include <cmath>\n#include <algorithm>\n')]),
('C16', [('src/rigid_body_system.cpp', '    m_constraints[constraint->m_index] = m_constraints.back();\n    m_constraints[constraint->m_index]->m_index = constraint->m_index;\n    m_constraints.resize(m_constraints.size() - 1);\n    constraint->m_index = -1;', '    const int last = (int)m_constraints.size() - 1;\n    if (constraint->m_index != last) {\n        Constraint *moved = m_constraints[last];\n        moved->m_index = constraint->m_index;\n        m_constraints[moved->m_index] = moved;\n    }\n\n    m_constraints.erase(m_constraints.begin() + last);\n    constraint->m_index = -1;')]),
('C16 C22', [('src/rigid_body_system.cpp', '    for (int i = 0; i < ProfilingSamples; ++i) {\n        m_odeSolveMicroseconds[i] = -1;\n        m_constraintSolveMicroseconds[i] = -1;\n        m_forceEvalMicroseconds[i] = -1;\n        m_constraintEvalMicroseconds[i] = -1;\n    }', '    for (long long *samples : { m_odeSolveMicroseconds, m_constraintSolveMicroseconds, m_forceEvalMicroseconds, m_constraintEvalMicroseconds }) {\n        for (int i = 0; i < ProfilingSamples; ++i) {\n            samples[i] = -1;\n        }\n    }')]),
('C16 C22', [('src/rigid_body_system.cpp', '    for (int i = 0; i < ProfilingSamples; ++i) {\n        m_odeSolveMicroseconds[i] = -1;\n        m_constraintSolveMicroseconds[i] = -1;\n        m_forceEvalMicroseconds[i] = -1;\n        m_constraintEvalMicroseconds[i] = -1;\n    }', '    std::fill_n(m_odeSolveMicroseconds, ProfilingSamples, -1);\n    std::fill_n(m_constraintSolveMicroseconds, ProfilingSamples, -1);\n    std::fill_n(m_forceEvalMicroseconds, ProfilingSamples, -1);\n    std::fill_n(m_constraintEvalMicroseconds, ProfilingSamples, -1);'), ('src/rigid_body_system.cpp', '#include <cmath>\n', '#include <cmath>\n#include <algorithm>\n')]),
('C22', [('src/rigid_body_system.cpp', '    for (int i = 0; i < ProfilingSamples; ++i) {\n        if (samples[i] != -1) {\n            accum += samples[i];\n            ++count;\n        }\n    }\n\n    if (count == 0) return 0;\n    else return (float)accum / count;', '    for (const long long *s = samples; s != samples + ProfilingSamples; ++s) {\n        if (*s == -1) continue;\n        accum += *s;\n        count++;\n    }\n\n    return (count > 0) ? (float)accum / count : 0.0f;')]),
('C17', [('src/rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_state.f_x[i] = 0.0;\n        m_state.f_y[i] = 0.0;\n        m_state.t[i] = 0.0;\n    }\n', '    std::fill(m_state.f_x, m_state.f_x + n, 0.0);\n    std::fill(m_state.f_y, m_state.f_y + n, 0.0);\n    std::fill(m_state.t, m_state.t + n, 0.0);\n'), ('src/rigid_body_system.cpp', '#include <cmath>\n', '#include <cmath>\n#include <algorithm>\n')]),
('C17', [('src/rigid_body_system.cpp', '    for (int i = 0; i < n_f; ++i) {\n        m_forceGenerators[i]->apply(&m_state);\n    }', '    std::for_each(m_forceGenerators.begin(), m_forceGenerators.end(), [this](ForceGenerator *g) { g->apply(&m_state); });'), ('src/rigid_body_system.cpp', '#include <cmath>\n', '#include <cmath>\n#include <algorithm>\n')]),
('C17', [('src/rigid_body_system.cpp', '        M->set(0, i * 3 + 0, m_rigidBodies[i]->m);\n        M->set(0, i * 3 + 1, m_rigidBodies[i]->m);\n        M->set(0, i * 3 + 2, m_rigidBodies[i]->I);\n\n        M_inv->set(0, i * 3 + 0, 1 / m_rigidBodies[i]->m);\n        M_inv->set(0, i * 3 + 1, 1 / m_rigidBodies[i]->m);\n        M_inv->set(0, i * 3 + 2, 1 / m_rigidBodies[i]->I);', '        const RigidBody &body = *m_rigidBodies[i];\n        const double diagonal[3] = { body.m, body.m, body.I };\n        for (int k = 0; k < 3; ++k) {\n            M->set(0, i * 3 + k, diagonal[k]);\n            M_inv->set(0, i * 3 + k, 1 / diagonal[k]);\n        }')]),
('C17', [('src/rigid_body_system.cpp', '    for (int i = 0, j_f = 0; i < m; ++i) {\n        m_state.indexMap[i] = j_f;\n        j_f += m_constraints[i]->getConstraintCount();\n    }', '    int j_f = 0, i = 0;\n    for (const Constraint *constraint : m_constraints) {\n        m_state.indexMap[i++] = j_f;\n        j_f += constraint->getConstraintCount();\n    }')]),
('C22 C17 C19', [('src/optimized_nsv_rigid_body_system.cpp', '#include <chrono>\n', '#include <chrono>\n\nnamespace {\n    long long microseconds(std::chrono::steady_clock::duration d) {\n        return std::chrono::duration_cast<std::chrono::microseconds>(d).count();\n    }\n}\n'), ('src/optimized_nsv_rigid_body_system.cpp', '            odeSolveTime +=\n                std::chrono::duration_cast<std::chrono::microseconds>(s3 - s2).count();\n            forceEvalTime +=\n                std::chrono::duration_cast<std::chrono::microseconds>(s1 - s0).count();\n', '            odeSolveTime += microseconds(s3 - s2);\n            forceEvalTime += microseconds(s1 - s0);\n')]),
('C20 C17', [('src/optimized_nsv_rigid_body_system.cpp', '        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {\n            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];\n                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];\n                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];\n            }\n        }\n', '        const int rows = constraint->getConstraintCount();\n        for (int j = 0; j < rows; ++j) {\n            const int base = (i_f + j) * 2;\n            for (int k = constraint->m_bodyCount - 1; k >= 0; --k) {\n                constraint->F_x[j][k] = m_state.r_x[base + k];\n                constraint->F_y[j][k] = m_state.r_y[base + k];\n                constraint->F_t[j][k] = m_state.r_t[base + k];\n            }\n        }\n        i_f += rows;\n')]),
('C20 C17', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0, i_f = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {\n            for (int k', '    for (int i = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        for (int j = 0; j < constraint->getConstraintCount(); ++j) {\n            const int i_f = m_state.indexMap[i] + j;\n            for (int k')]),
('C18 C20', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }', '    for (int i = 0; i < m_f * 2; ++i) {\n        m_state.r_x[i] = m_iv.sreg0.get(i / 2, i % 2, 0);\n        m_state.r_y[i] = m_iv.sreg0.get(i / 2, i % 2, 1);\n        m_state.r_t[i] = m_iv.sreg0.get(i / 2, i % 2, 2);\n    }')]),
('C18 C20', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }', '    auto store = [this](int i, int j) {\n        m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n        m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n        m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n    };\n    for (int i = 0; i < m_f; ++i) {\n        store(i, 0);\n        store(i, 1);\n    }')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp', '            for (int i = 0; i < m_constraints[j]->m_bodyCount; ++i) {\n                const int index = m_constraints[j]->m_bodies[i]->index;\n\n                if (index == -1) continue;\n', '            Constraint *constraint = m_constraints[j];\n            for (int i = 0; i < constraint->m_bodyCount; ++i) {\n                const RigidBody *body = constraint->m_bodies[i];\n                const int index = body->index;\n                const bool registered = index != -1;\n\n                if (!registered) continue;\n')]),
('C22 C17 C19', [('src/generic_rigid_body_system.cpp', '#include <chrono>\n', '#include <chrono>\n\nnamespace {\n    long long microseconds(std::chrono::steady_clock::duration d) {\n        return std::chrono::duration_cast<std::chrono::microseconds>(d).count();\n    }\n}\n'), ('src/generic_rigid_body_system.cpp', '            odeSolveTime +=\n                std::chrono::duration_cast<std::chrono::microseconds>(s3 - s2).count();\n            forceEvalTime +=\n                std::chrono::duration_cast<std::chrono::microseconds>(s1 - s0).count();\n', '            odeSolveTime += microseconds(s3 - s2);\n            forceEvalTime += microseconds(s1 - s0);\n')]),
('C20 C17', [('src/generic_rigid_body_system.cpp', '        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {\n            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];\n                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];\n                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];\n            }\n        }\n', '        const int rows = constraint->getConstraintCount();\n        for (int j = 0; j < rows; ++j) {\n            const int base = (i_f + j) * 2;\n            for (int k = constraint->m_bodyCount - 1; k >= 0; --k) {\n                constraint->F_x[j][k] = m_state.r_x[base + k];\n                constraint->F_y[j][k] = m_state.r_y[base + k];\n                constraint->F_t[j][k] = m_state.r_t[base + k];\n            }\n        }\n        i_f += rows;\n')]),
('C20 C17', [('src/generic_rigid_body_system.cpp', '    for (int i = 0, i_f = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        for (int j = 0; j < constraint->getConstraintCount(); ++j, ++i_f) {\n            for (int k', '    for (int i = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        for (int j = 0; j < constraint->getConstraintCount(); ++j) {\n            const int i_f = m_state.indexMap[i] + j;\n            for (int k')]),
('C18 C20', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }', '    for (int i = 0; i < m_f * 2; ++i) {\n        m_state.r_x[i] = m_iv.sreg0.get(i / 2, i % 2, 0);\n        m_state.r_y[i] = m_iv.sreg0.get(i / 2, i % 2, 1);\n        m_state.r_t[i] = m_iv.sreg0.get(i / 2, i % 2, 2);\n    }')]),
('C18 C20', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }', '    auto store = [this](int i, int j) {\n        m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n        m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n        m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n    };\n    for (int i = 0; i < m_f; ++i) {\n        store(i, 0);\n        store(i, 1);\n    }')]),
('C19', [('src/generic_rigid_body_system.cpp', '            for (int i = 0; i < m_constraints[j]->m_bodyCount; ++i) {\n                const int index = m_constraints[j]->m_bodies[i]->index;\n\n                if (index == -1) continue;\n', '            Constraint *constraint = m_constraints[j];\n            for (int i = 0; i < constraint->m_bodyCount; ++i) {\n                const RigidBody *body = constraint->m_bodies[i];\n                const int index = body->index;\n                const bool registered = index != -1;\n\n                if (!registered) continue;\n')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp', '            for (int i = 0; i < m_constraints[j]->m_bodyCount * 3; ++i) {\n                const int index = m_constraints[j]->m_bodies[i / 3]->index;\n\n                if (index == -1) continue;\n\n                m_iv.J_sparse.set(j_f, i / 3, i % 3,\n                        constraintOutput.J[k][i]);\n            }\n', '            for (int b = 0; b < m_constraints[j]->m_bodyCount; ++b) {\n                if (m_constraints[j]->m_bodies[b]->index == -1) continue;\n                for (int c = 0; c < 3; ++c) {\n                    m_iv.J_sparse.set(j_f, b, c, constraintOutput.J[k][b * 3 + c]);\n                }\n            }\n')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.reg0.add(m_iv.v_bias, &m_iv.reg1);\n    m_iv.reg1.add(m_iv.b_err, &m_iv.reg0);\n    m_iv.reg0.negate(&m_iv.right);\n', '    m_iv.right.initialize(1, m_f);\n    for (int i = 0; i < m_f; ++i) {\n        m_iv.right.set(0, i, -(m_iv.reg0.get(0, i) + m_iv.v_bias.get(0, i) + m_iv.b_err.get(0, i)));\n    }\n')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.F_ext.scale(dt, &m_iv.reg0);\n    m_iv.reg0.leftScale(m_iv.M_inv, &m_iv.reg1);\n    m_iv.reg1.add(m_iv.q_dot, &m_iv.q_dot_prime);\n', '    m_iv.F_ext.leftScale(m_iv.M_inv, &m_iv.q_dot_prime);\n    m_iv.q_dot_prime.pmadd(m_iv.q_dot, dt);\n')]),
('C19', [('src/generic_rigid_body_system.cpp', '    m_iv.reg2.negate(&m_iv.reg1);\n\n    m_iv.reg1.subtract(m_iv.reg0, &m_iv.reg2);\n    m_iv.reg2.subtract(m_iv.ks, &m_iv.reg0);\n', '    m_iv.reg2.add(m_iv.reg0, &m_iv.reg1);\n    m_iv.reg1.add(m_iv.ks, &m_iv.reg2);\n    m_iv.reg2.negate(&m_iv.reg0);\n')]),
('C18', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_iv.F_ext.get(0, i * 3 + 0);\n        m_state.a_y[i] = m_iv.F_ext.get(0, i * 3 + 1);\n        m_state.a_theta[i] = m_iv.F_ext.get(0, i * 3 + 2);\n    }\n', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_state.f_x[i];\n        m_state.a_y[i] = m_state.f_y[i];\n        m_state.a_theta[i] = m_state.t[i];\n    }\n')]),
('C12', [('src/rk4_ode_solver.cpp', '    double stageWeight = 0.0;\n    switch (m_stage) {\n        case RkStage::Stage_1: stageWeight = 1.0; break;\n        case RkStage::Stage_2: stageWeight = 2.0; break;\n        case RkStage::Stage_3: stageWeight = 2.0; break;\n        case RkStage::Stage_4: stageWeight = 1.0; break;\n        default: stageWeight = 0.0;\n    }\n', '    const bool middle = m_stage == RkStage::Stage_2 || m_stage == RkStage::Stage_3;\n    const bool outer = m_stage == RkStage::Stage_1 || m_stage == RkStage::Stage_4;\n    const double stageWeight = middle ? 2.0 : outer ? 1.0 : 0.0;\n')]),
('C12', [('src/rk4_ode_solver.cpp', '    for (int i = 0; i < system->n; ++i) {\n        m_accumulator.v_theta[i] += (m_dt / 6.0) * system->a_theta[i] * stageWeight;\n        m_accumulator.theta[i] += (m_dt / 6.0) * system->v_theta[i] * stageWeight;\n        m_accumulator.v_x[i] += (m_dt / 6.0) * system->a_x[i] * stageWeight;\n        m_accumulator.v_y[i] += (m_dt / 6.0) * system->a_y[i] * stageWeight;\n        m_accumulator.p_x[i] += (m_dt / 6.0) * system->v_x[i] * stageWeight;\n        m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;\n    }\n', '    const double h = stageWeight * m_dt / 6.0;\n    auto accumulate = [&](double *target, const double *rate) {\n        for (int i = 0; i < system->n; ++i) target[i] += h * rate[i];\n    };\n    accumulate(m_accumulator.v_theta, system->a_theta);\n    accumulate(m_accumulator.theta, system->v_theta);\n    accumulate(m_accumulator.v_x, system->a_x);\n    accumulate(m_accumulator.v_y, system->a_y);\n    accumulate(m_accumulator.p_x, system->v_x);\n    accumulate(m_accumulator.p_y, system->v_y);\n')]),
('C12', [('src/rk4_ode_solver.cpp', '        for (int i = 0; i < system->n_c * 2; ++i) {\n            system->r_x[i] = m_accumulator.r_x[i];\n            system->r_y[i] = m_accumulator.r_y[i];\n            system->r_t[i] = m_accumulator.r_t[i];\n        }', '        const size_t bytes = sizeof(double) * 2 * (size_t)system->n_c;\n        memcpy((void *)system->r_x, (void *)m_accumulator.r_x, bytes);\n        memcpy((void *)system->r_y, (void *)m_accumulator.r_y, bytes);\n        memcpy((void *)system->r_t, (void *)m_accumulator.r_t, bytes);'), ('src/rk4_ode_solver.cpp', '#include "../include/rk4_ode_solver.h"\n', '#include "../include/rk4_ode_solver.h"\n\n#include <cstring>\n')]),
('C12', [('src/rk4_ode_solver.cpp', '    for (int i = 0; i < system->n_c * 2; ++i) {\n        m_accumulator.r_x[i] += system->r_x[i] * stageWeight / 6.0;\n        m_accumulator.r_y[i] += system->r_y[i] * stageWeight / 6.0;\n        m_accumulator.r_t[i] += system->r_t[i] * stageWeight / 6.0;\n    }\n', '    for (int c = 0; c < system->n_c; ++c) {\n        for (int b = 0; b < 2; ++b) {\n            const int i = 2 * c + b;\n            m_accumulator.r_x[i] += system->r_x[i] * stageWeight / 6.0;\n            m_accumulator.r_y[i] += system->r_y[i] * stageWeight / 6.0;\n            m_accumulator.r_t[i] += system->r_t[i] * stageWeight / 6.0;\n        }\n    }\n')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '        double s0 = 0.0, s1 = 0.0;\n        for (int j = 0; j < i; ++j) {\n            s0 += left.get(j, i) * k_next->get(0, j);\n        }\n\n        for (int j = i + 1; j < n; ++j) {\n            s1 += left.get(j, i) * k->get(0, j);\n        }\n\n        const double k_next_i =\n            (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);\n\n        const double min_k', '        double sum = right.get(0, i);\n        for (int j = 0; j < n; ++j) {\n            if (j < i) sum -= left.get(j, i) * k_next->get(0, j);\n            else if (j > i) sum -= left.get(j, i) * k->get(0, j);\n        }\n\n        const double k_next_i = sum / left.get(i, i);\n\n        const double min_k')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '    for (int i = 0; i < m_maxIterations; ++i) {\n        const double maxDelta = solveIteration(\n                m_M,\n                right,\n                result,\n                result);\n\n        if (maxDelta < m_minDelta) {\n            return true;\n        }\n    }\n\n    return false;', '    int iteration = 0;\n    bool converged = false;\n    while (!converged && iteration < m_maxIterations) {\n        converged = solveIteration(m_M, right, result, result) < m_minDelta;\n        ++iteration;\n    }\n\n    return converged;')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '    for (int i = 0; i < m_maxIterations; ++i) {\n        const double maxDelta = solveIteration(\n            m_M,\n            right,\n            limits,\n            result,\n            result);\n\n        if (maxDelta < m_minDelta) {\n            return true;\n        }\n    }\n\n    return false;', '    for (int remaining = m_maxIterations; remaining > 0; --remaining) {\n        if (solveIteration(m_M, right, limits, result, result) < m_minDelta) return true;\n    }\n\n    return false;')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));', '        double x = k_next_i;\n        if (!(x <= limitMax)) x = limitMax;\n        if (!(x >= limitMin)) x = limitMin;')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));', '        const double capped = (k_next_i < limitMax) ? k_next_i : limitMax;\n        const double x = (capped > limitMin) ? capped : limitMin;')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '    const int n = right.getHeight();\n    if (result->getHeight() != n) {\n        result->initialize(1, n);\n    }\n\n    if (previous != nullptr && previous->getHeight() == n) {\n        result->set(previous);\n    }\n', '    const int n = right.getHeight();\n    const bool warm = previous != nullptr && previous->getHeight() == n;\n    if (warm) {\n        result->set(previous);\n    }\n    else if (result->getHeight() != n) {\n        result->initialize(1, n);\n    }\n')])
]
