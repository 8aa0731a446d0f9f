
[("src/conjugate_gradient_sle_solver.cpp",'m_r.madd(m_Ap, -1);','m_r.madd(m_Ap, 1);'),
("src/conjugate_gradient_sle_solver.cpp",'m_r.madd(m_Ap, -alpha);','m_r.madd(m_Ap, alpha);'),
("src/conjugate_gradient_sle_solver.cpp",'m_x.madd(m_p, alpha);','m_x.madd(m_r, alpha);'),
("src/conjugate_gradient_sle_solver.cpp",'m_x.initialize(1, n);','m_x.resize(1, n);'),
("src/conjugate_gradient_sle_solver.cpp",'const double beta = rk1_mag / rk_mag;','const double beta = rk_mag / rk1_mag;'),
("src/conjugate_gradient_sle_solver.cpp",'m_p.pmadd(m_r, beta);','m_p.madd(m_r, beta);'),
("src/conjugate_gradient_sle_solver.cpp",'rk_mag / m_p.dot(m_Ap)','rk_mag / m_r.dot(m_Ap)'),
("src/conjugate_gradient_sle_solver.cpp",'const double rk_mag = m_r.vector','const double rk_mag = m_p.vector'),
("src/conjugate_gradient_sle_solver.cpp",'previous->getHeight() == n','previous->getHeight() >= 0'),
("src/conjugate_gradient_sle_solver.cpp",'result->resize(1, n);',''),
("src/conjugate_gradient_sle_solver.cpp",'result->set(&m_x);','result->set(&m_p);'),
("src/conjugate_gradient_sle_solver.cpp",'return false;\n\nsucceeded','goto succeeded;\n\nsucceeded'),
("src/conjugate_gradient_sle_solver.cpp",'k < m_maxIterations','k < m_maxIterations / 2'),
("src/conjugate_gradient_sle_solver.cpp",'std::fmax(std::abs(m_maxError * t), m_minError)','std::fmin(std::abs(m_maxError * t), m_minError)'),
("src/conjugate_gradient_sle_solver.cpp",'std::abs(err) >','err >'),
("src/conjugate_gradient_sle_solver.cpp",'i < x.getHeight()','i < x.getHeight() - 1'),
("src/conjugate_gradient_sle_solver.cpp",'W.componentMultiply(m_mreg0, &m_mreg1);\n    J.multiply(m_mreg1, target);','W.componentMultiply(m_mreg0, &m_mreg1);\n    J.multiply(m_mreg0, target);'),
("src/conjugate_gradient_sle_solver.cpp",'if (sufficientlySmall(m_r, right)) {','if (sufficientlySmall(m_r, m_x)) {',1),
("src/conjugate_gradient_sle_solver.cpp",'if (sufficientlySmall(m_r, right)) {','if (sufficientlySmall(m_p, right)) {',1),
("src/conjugate_gradient_sle_solver.cpp",'m_x.set(previous);','m_x.set(previous); m_x.scale(0.5, &m_x);'),
("src/conjugate_gradient_sle_solver.cpp",'m_r.set(&right);','m_r.set(&right); right.set(0,0,0);'),
("src/conjugate_gradient_sle_solver.cpp",'m_p.set(&m_r);','m_p.set(&right);'),
]
