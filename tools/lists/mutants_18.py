[('src/generic_rigid_body_system.cpp','m_state.a_y[body] += m_state.r_y[j_f * 2 + k];','m_state.a_y[body] += m_state.r_x[j_f * 2 + k];'),
('src/generic_rigid_body_system.cpp','m_state.a_x[i] *= invMass;','m_state.a_x[i] *= invInertia;'),
('src/generic_rigid_body_system.cpp','if (body == -1) continue;','if (body == -1) break;'),
('src/optimized_nsv_rigid_body_system.cpp','if (body == -1) continue;','if (body == -1) break;'),
('src/optimized_nsv_rigid_body_system.cpp','for (int j = 0; j < n_f; ++j, ++j_f) {','for (int j = 0; j < n_f && j < 2; ++j, ++j_f) {'),
('src/optimized_nsv_rigid_body_system.cpp','m_state.a_x[body] += m_state.r_x[j_f * 2 + k];','m_state.a_x[body] += m_state.r_x[j_f * 2];'),
('src/optimized_nsv_rigid_body_system.cpp','m_iv.F_ext.get(0, i * 3 + 2);','m_iv.F_ext.get(0, i * 3 + 1);'),
]
