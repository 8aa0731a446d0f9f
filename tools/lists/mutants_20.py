[('src/generic_rigid_body_system.cpp','m_iv.sreg0.get(i, j, 1);','m_iv.sreg0.get(i, 0, 1);'),
('src/optimized_nsv_rigid_body_system.cpp','m_iv.lambda.scale(1 / dt','m_iv.lambda.scale(dt'),
('src/optimized_nsv_rigid_body_system.cpp','for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {','for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 1; ++j) {'),
('src/optimized_nsv_rigid_body_system.cpp','constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];','constraint->F_x[j][k] = m_state.r_x[i_f * 2 + j];'),
]
