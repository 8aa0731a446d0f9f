[('src/generic_rigid_body_system.cpp','m_iv.J_dot_sparse.setBlock(j_f, i, index);','m_iv.J_dot_sparse.setBlock(j_f, i, m_constraints[j]->m_bodies[0]->index);'),
('src/generic_rigid_body_system.cpp','m_iv.reg2.subtract(m_iv.ks, &m_iv.reg0);','m_iv.reg2.add(m_iv.ks, &m_iv.reg0);'),
('src/generic_rigid_body_system.cpp','constraintOutput.kd[k]','constraintOutput.kd[0]'),
('src/generic_rigid_body_system.cpp','m_state.f_y[i]','m_state.f_x[i]'),
('src/generic_rigid_body_system.cpp','m_iv.J_dot_sparse.multiply(m_iv.q_dot, &m_iv.reg2);','m_iv.J_sparse.multiply(m_iv.q_dot, &m_iv.reg2);'),
('src/generic_rigid_body_system.cpp','if (index == -1) continue;','if (index <= 0) continue;'),
('src/optimized_nsv_rigid_body_system.cpp','if (index == -1) continue;','if (index <= 0) continue;',1),
('src/optimized_nsv_rigid_body_system.cpp','constraintOutput.limits[k][1] * dt','constraintOutput.limits[k][0] * dt'),
('src/optimized_nsv_rigid_body_system.cpp','m_iv.limits.initialize(2, m_f);','m_iv.limits.initialize(2, m_f + 1);'),
('src/optimized_nsv_rigid_body_system.cpp','m_iv.C.scale(m_biasFactor / dt','m_iv.C.scale(m_biasFactor * dt'),
('src/optimized_nsv_rigid_body_system.cpp','m_iv.F_ext.scale(dt, &m_iv.reg0);','m_iv.F_ext.scale(dt / 2, &m_iv.reg0);'),
('src/optimized_nsv_rigid_body_system.cpp','i % 3,\n                        constraintOutput.J[k][i]','i % 3,\n                        constraintOutput.J[0][i]'),
]
