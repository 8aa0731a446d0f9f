
[("src/gauss_seidel_sle_solver.cpp",'for (int j = 0; j < i; ++j)','for (int j = 1; j < i; ++j)'),
("src/gauss_seidel_sle_solver.cpp",'for (int j = 0; j < i; ++j)','for (int j = 1; j < i; ++j)',1),
("src/gauss_seidel_sle_solver.cpp",'for (int j = i + 1; j < n; ++j)','for (int j = i + 2; j < n; ++j)'),
("src/gauss_seidel_sle_solver.cpp",'for (int j = i + 1; j < n; ++j)','for (int j = i + 1; j < n - 1; ++j)',1),
("src/gauss_seidel_sle_solver.cpp",'left.get(j, i)','left.get(i, j)'),
("src/gauss_seidel_sle_solver.cpp",'std::fmax(1E-3, std::abs(k->get(0, i)))','std::fmax(1E-2, std::abs(k->get(0, i)))'),
("src/gauss_seidel_sle_solver.cpp",'std::fmax(1E-3, std::abs(k->get(0, i)))','std::fmax(1E-3, std::abs(x))',1),
("src/gauss_seidel_sle_solver.cpp",'(delta > maxDifference)','(delta < maxDifference)'),
("src/gauss_seidel_sle_solver.cpp",'(delta > maxDifference)\n            ? delta\n            : maxDifference','true ? delta : maxDifference'),
("src/gauss_seidel_sle_solver.cpp",'std::abs(x - k->get(0, i)) / min_k','std::abs(k_next_i - k->get(0, i)) / min_k'),
("src/gauss_seidel_sle_solver.cpp",'std::fmax(limitMin, std::fmin(limitMax, k_next_i))','std::fmin(limitMin, std::fmax(limitMax, k_next_i))'),
("src/gauss_seidel_sle_solver.cpp",'std::fmax(limitMin, std::fmin(limitMax, k_next_i))','std::fmin(limitMax, k_next_i)'),
("src/gauss_seidel_sle_solver.cpp",'const double limitMin = limits.get(0, i);','const double limitMin = limits.get(0, 0);'),
("src/gauss_seidel_sle_solver.cpp",'if (maxDelta < m_minDelta) {','if (maxDelta < m_minDelta || i > 5) {'),
("src/gauss_seidel_sle_solver.cpp",'if (maxDelta < m_minDelta) {','if (maxDelta < m_minDelta || i > 5) {',1),
("src/gauss_seidel_sle_solver.cpp",'return false;','return true;'),
("src/gauss_seidel_sle_solver.cpp",'return false;','return true;',1),
("src/gauss_seidel_sle_solver.cpp",'if (previous != nullptr && previous->getHeight() == n) {','if (previous != nullptr) {'),
("src/gauss_seidel_sle_solver.cpp",'if (previous != nullptr && previous->getHeight() == n) {','if (previous != nullptr && previous->getHeight() > n) {',1),
("src/gauss_seidel_sle_solver.cpp",'result->set(previous);','result->set(&right);'),
("src/gauss_seidel_sle_solver.cpp",'J.rightScale(W, &m_reg);','J.leftScale(W, &m_reg);'),
("src/gauss_seidel_sle_solver.cpp",'m_reg.multiplyTranspose(J, &m_M);','m_reg.multiplyTranspose(m_reg, &m_M);'),
("src/gauss_seidel_sle_solver.cpp",'i < m_maxIterations','i <= m_maxIterations'),
("src/gauss_seidel_sle_solver.cpp",'i < m_maxIterations','i < m_maxIterations/2',1),
("src/gauss_seidel_sle_solver.cpp",'if (result->getHeight() != n) {','{'),
("src/gauss_seidel_sle_solver.cpp",'if (result->getWidth() != 1 || result->getHeight() != n) {','if (result->getHeight() < n) {'),
("src/gauss_seidel_sle_solver.cpp",'right.get(0, i) - s0 - s1','right.get(0, i) - s0 + s1',1),
("src/gauss_seidel_sle_solver.cpp",'(1 / left.get(i, i))','(1 / left.get(0, 0))'),
]
