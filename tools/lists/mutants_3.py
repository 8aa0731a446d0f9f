[('include/sparse_matrix.h','matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);','matrix->set(block * T_Stride + k, i, m_matrix[i][k]);'),
('include/sparse_matrix.h','matrix->initialize(m_height, m_width);','matrix->resize(m_height, m_width);'),
('include/sparse_matrix.h','if (block0 == -1) continue;',''),
('include/sparse_matrix.h','if (block0 == block1) {','if (block0 == block1 && k == l) {'),
('include/sparse_matrix.h','target->add(0, j, m_matrix[i][offset + l] * b.get(0, i));','target->set(0, j, m_matrix[i][offset + l] * b.get(0, i));'),
('include/sparse_matrix.h','v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);','v += m_matrix[i][offset + l] * b.get(0, block * T_Stride + l);'),
('include/sparse_matrix.h','scale.get(0, index * T_Stride + k) *','scale.get(0, index * T_Stride) *'),
('include/sparse_matrix.h','target->setBlock(i, j, index);','target->setBlock(i, 0, index);'),
('include/sparse_matrix.h','if (index == -1) continue;','if (index <= 0) continue;'),
('include/sparse_matrix.h','target->set(j, i, dot);','if (i <= j) { target->set(j, i, dot); target->set(i, j, dot); }'),
('include/sparse_matrix.h','for (int m = 0; m < T_Stride; ++m) {','for (int m = 0; m < T_Stride - 1; ++m) {'),
]
