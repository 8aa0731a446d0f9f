[
('C02', [('src/matrix.cpp','    if (m_matrix == nullptr) {\n        return;','    if (m_width == 0 || m_height == 0) {\n        return;')]),
('C02', [('src/matrix.cpp','    if (width == m_width && height == m_height) return;','    if (m_matrix != nullptr && width * height == m_width * m_height) return;')]),
('C02', [('src/matrix.cpp','    memset(m_data, 0, sizeof(double) * width * height);','    for (int i = 0; i < width; ++i) memset(m_matrix[i], 0, sizeof(double) * width);')]),
('C02', [('src/matrix.cpp','''    for (int i = 0; i < height; ++i) {
        m_matrix[i] = &m_data[i * width];''','''    for (int i = 0; i < height; ++i) {
        m_matrix[i] = &m_data[i * m_capacityHeight];''')]),
('C01 C02', [('src/matrix.cpp','    if (width == m_width && height == m_height) return;\n','    if (width <= m_width && height <= m_height) { m_width = width; m_height = height; return; }\n')]),
('C04', [('include/sparse_matrix.h','                if (m_matrix == nullptr) {\n                    return;','                if (m_height == 0) {\n                    return;')]),
('C04 C03', [('include/sparse_matrix.h','                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);','                if (height > m_capacityHeight) memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);')]),
('C03', [('include/sparse_matrix.h','                            target->add(0, j, m_matrix[i][offset + l] * b.get(0, i));','                            target->set(0, j, target->get(0, j) + m_matrix[i][offset + l] * b.get(0, k == 0 ? i : (i < m_width ? i : 0)));')]),
('C03', [('include/sparse_matrix.h','''                                            * b_T.m_matrix[j][l * T_Stride + m];
                                    }
''','''                                            * b_T.m_matrix[j][l * T_Stride + m];
                                    }
                                    break;
''')]),
('C03', [('include/sparse_matrix.h','''                            if (block0 == -1) continue;

                            for (int l''','''                            if (block0 == -1) break;

                            for (int l''')]),
('C03', [('include/sparse_matrix.h','                            scale.get(0, index * T_Stride + k) * m_matrix[i][j * T_Stride + k]);','                            scale.get(0, index * T_Stride + (k == 1 ? 0 : k)) * m_matrix[i][j * T_Stride + k]);')]),
('C13', [('src/gauss_seidel_sle_solver.cpp','maxDifference = (delta > maxDifference || std::isnan(delta))','maxDifference = (delta > maxDifference)',1)]),
('C13', [('src/gauss_seidel_sle_solver.cpp','const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));','const double min_k = std::fmax(1E-3, std::abs(k_next_i));',1)]),
('C13', [('src/gauss_seidel_sle_solver.cpp','previous != nullptr && previous->getHeight() == n','previous != nullptr && previous->getHeight() >= n',1)]),
('C13', [('src/gauss_seidel_sle_solver.cpp','    m_reg.multiplyTranspose(J, &m_M);','    if (m_M.getHeight() != n || m_reg.getWidth() != J.getWidth() || n > 8) m_reg.multiplyTranspose(J, &m_M);',1)]),
('C13', [('src/gauss_seidel_sle_solver.cpp','std::fmax(limitMin, std::fmin(limitMax, k_next_i))','std::fmin(limitMax, std::fmax(limitMin, k_next_i))')]),
('C13', [('src/gauss_seidel_sle_solver.cpp','if (maxDelta < m_minDelta) {','if (maxDelta <= m_minDelta) {',1)]),
('C14', [('src/gaussian_elimination_sle_solver.cpp','        if (maxV == 0) {','        if (maxV < 1E-12) {')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp','                A.set(k, i, 0.0);\n','')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp','        if (A.get(i, i) != 0) {','        if (fastAbs(A.get(i, i)) > 1E-9) {')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp','            for (int i = h + 1; i < m; ++i) {\n                const double f','            for (int i = h + 1; i < m; ++i) {\n                if (A.get(k, i) < 0 && A.get(k, i) > -1E-6) continue;\n                const double f')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp','    if (previous != nullptr && previous->getHeight() == n) {','    if (previous != nullptr && previous->getHeight() == n && previous != result) {')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp','    for (int k = 0; k < m_maxIterations; ++k) {\n','    for (int k = 0; k < m_maxIterations && k < 3 * n; ++k) {\n')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp','std::fmax(std::abs(m_maxError * t), m_minError)','std::abs(m_maxError * t) + m_minError')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp','        if (!(std::abs(err) <= ','        if ((std::abs(err) > ')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp','        const double beta = rk1_mag / rk_mag;','        const double beta = (k % 10 == 9) ? 0.0 : rk1_mag / rk_mag;')]),
]
