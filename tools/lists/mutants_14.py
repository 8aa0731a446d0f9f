[
("src/gaussian_elimination_sle_solver.cpp",'A.fastRowSwap(h, i_max);',''),
("src/gaussian_elimination_sle_solver.cpp",'int i_max = h;\n','int i_max = 0;\n'),
("src/gaussian_elimination_sle_solver.cpp",'const double f = A.get(k, i) / A.get(k, h);','const double f = A.get(k, h) / A.get(k, i);'),
("src/gaussian_elimination_sle_solver.cpp",'A.set(k, i, 0.0);',''),
("src/gaussian_elimination_sle_solver.cpp",'for (int j = k + 1; j < n; ++j) {','for (int j = k + 1; j < n - 1; ++j) {'),
("src/gaussian_elimination_sle_solver.cpp",'for (int i = h + 1; i < m; ++i) {\n                const double f','for (int i = h + 2; i < m; ++i) {\n                const double f'),
("src/gaussian_elimination_sle_solver.cpp",'A.get(j, i) - A.get(j, h) * f','A.get(j, i) + A.get(j, h) * f'),
("src/gaussian_elimination_sle_solver.cpp",'A.get(j, i) - A.get(j, h) * f','A.get(j, i) - A.get(j, k) * f'),
("src/gaussian_elimination_sle_solver.cpp",'if (v > maxV) {','if (v < maxV) {'),
("src/gaussian_elimination_sle_solver.cpp",'const double v = fastAbs(A.get(k, i));','const double v = A.get(k, i);'),
("src/gaussian_elimination_sle_solver.cpp",'for (int j = m - 1; j > i; --j) {','for (int j = m - 1; j > i + 1; --j) {'),
("src/gaussian_elimination_sle_solver.cpp",'A.get(j, i) * result->get(0, j)','A.get(j, i) * result->get(0, i)'),
("src/gaussian_elimination_sle_solver.cpp",'(b_i - sum) / A.get(i, i)','(b_i + sum) / A.get(i, i)'),
("src/gaussian_elimination_sle_solver.cpp",'A.set(n - 1, i, right.get(0, i));','A.set(n - 1, i, right.get(0, m - 1 - i));'),
("src/gaussian_elimination_sle_solver.cpp",'A.set(j, i, m_M.get(j, i));','A.set(j, i, m_M.get(i, j));'),
("src/gaussian_elimination_sle_solver.cpp",'if (maxV == 0) {\n            ++k;','if (maxV == 0) {\n            ++k; ++h;'),
("src/gaussian_elimination_sle_solver.cpp",'J.rightScale(W, &m_reg);\n    m_reg.multiplyTranspose(J, &m_M);','J.rightScale(W, &m_reg);\n    m_reg.multiplyTranspose(m_reg, &m_M);'),
("src/gaussian_elimination_sle_solver.cpp",'if (v > maxV) {\n                maxV = v;\n                i_max = i;','if (v > maxV) {\n                i_max = i;'),
("src/gaussian_elimination_sle_solver.cpp",'if (maxV == 0) {','if (maxV < 1E-3) {'),
("src/gaussian_elimination_sle_solver.cpp",'if (A.get(i, i) != 0) {','if (fastAbs(A.get(i, i)) > 1E-4) {'),
("src/gaussian_elimination_sle_solver.cpp",'if (A.get(n - 2, m - 1) == 0) {','if (A.get(n - 2, m - 1) < 1E-9) {'),
("src/gaussian_elimination_sle_solver.cpp",'result->resize(1, m);',''),
]
