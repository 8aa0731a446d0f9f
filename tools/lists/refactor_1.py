[
# matrix
('C01', [('src/matrix.cpp', '''            double v = 0.0;
            for (int ii = 0; ii < m_width; ++ii) {
                v += m_matrix[i][ii] * b.m_matrix[ii][j];
            }

            target->m_matrix[i][j] = v;''', '''            double *out = &target->m_matrix[i][j];
            *out = 0.0;
            int ii = m_width;
            while (ii-- > 0) {
                *out += b.m_matrix[ii][j] * m_matrix[i][ii];
            }''')]),
('C01', [('src/matrix.cpp', '''    for (int i = 0; i < m_height; ++i) {
        for (int j = 0; j < m_width; ++j) {
            target->m_matrix[i][j] = m_matrix[i][j] - b.m_matrix[i][j];
        }
    }''', '''    for (int j = 0; j < m_width; ++j) {
        for (int i = 0; i < m_height; ++i) {
            target->m_matrix[i][j] = m_matrix[i][j] - b.m_matrix[i][j];
        }
    }''')]),
('C01', [('src/matrix.cpp', '''    for (int i = 0; i < m_height; ++i) {
        for (int j = 0; j < m_width; ++j) {
            target->m_matrix[i][j] = m_matrix[i][j] - b.m_matrix[i][j];
        }
    }''', '''    for (int i = 0; i < m_height; ++i) {
        const double *lhs = m_matrix[i];
        const double *rhs = b.m_matrix[i];
        double *out = target->m_matrix[i];
        for (int j = 0; j < m_width; ++j) {
            *out++ = *lhs++ - *rhs++;
        }
    }''')]),
('C01', [('src/matrix.cpp', '''    if (getWidth() != b.getWidth()) return false;
    if (getHeight() != b.getHeight()) return false;

    for (int i = 0; i < getHeight(); ++i) {
        for (int j = 0; j < getWidth(); ++j) {
            if (std::abs(get(j, i) - b.get(j, i)) > err) {
                return false;
            }
        }
    }

    return true;''', '''    bool same = getWidth() == b.getWidth() && getHeight() == b.getHeight();

    for (int i = 0; same && i < getHeight(); ++i) {
        for (int j = 0; same && j < getWidth(); ++j) {
            const double d = get(j, i) - b.get(j, i);
            if (d > err || -d > err) {
                same = false;
            }
        }
    }

    return same;''')]),
('C01', [('src/matrix.cpp', '''    double result = 0;
    for (int i = 0; i < m_height; ++i) {
        result += m_matrix[0][i] * b.m_matrix[0][i];
    }

    return result;''', '''    double even = 0, odd = 0;
    int i = 0;
    for (; i + 1 < m_height; i += 2) {
        even += m_matrix[0][i] * b.m_matrix[0][i];
        odd += m_matrix[0][i + 1] * b.m_matrix[0][i + 1];
    }
    if (i < m_height) even += m_matrix[0][i] * b.m_matrix[0][i];

    return even + odd;''')]),
('C01', [('src/matrix.cpp', '''            target->m_matrix[i][j] = m_matrix[j][i];
''', '''            target->set(j, i, get(i, j));
''')]),
('C01 C02', [('src/matrix.cpp', '''    resize(reference->m_width, reference->m_height);

    for (int i = 0; i < reference->m_height; ++i) {
        for (int j = 0; j < reference->m_width; ++j) {
            m_matrix[i][j] = reference->m_matrix[i][j];
        }
    }''', '''    resize(reference->m_width, reference->m_height);

    for (int i = 0; i < m_height; ++i) {
        memcpy(m_matrix[i], reference->m_matrix[i], sizeof(double) * m_width);
    }''')]),
('C01 C02', [('src/matrix.cpp', '''    if (width == m_width && height == m_height) return;
    else if (width > m_capacityWidth || height > m_capacityHeight) {
        destroy();

        m_capacityWidth = (width > m_capacityWidth)
            ? width
            : m_capacityWidth;

        m_capacityHeight = (height > m_capacityHeight)
            ? height
            : m_capacityHeight;
''', '''    const bool same = (width == m_width) && (height == m_height);
    if (same) return;

    const bool grow = width > m_capacityWidth || height > m_capacityHeight;
    if (grow) {
        destroy();

        m_capacityWidth = std::max(m_capacityWidth, width);
        m_capacityHeight = std::max(m_capacityHeight, height);
''')]),
('C01 C02', [('src/matrix.cpp', '''    resize(width, height);

    for (int i = 0; i < height; ++i) {
        for (int j = 0; j < width; ++j) {
            m_matrix[i][j] = value;
        }
    }''', '''    resize(width, height);

    const int count = width * height;
    for (int i = 0; i < count; ++i) {
        m_data[i] = value;
    }''')]),
('C01 C02', [('src/matrix.cpp', '''    for (int i = 0; i < height; ++i) {
        m_matrix[i] = &m_data[i * width];
    }''', '''    double *row = m_data;
    for (int i = 0; i < height; ++i, row += width) {
        m_matrix[i] = row;
    }''')]),
('C01 C02', [('src/matrix.cpp', '''    resize(width, height);
    memset(m_data, 0, sizeof(double) * width * height);''', '''    initialize(width, height, 0.0);''')]),
('C01', [('src/matrix.cpp', '''    for (int i = 0; i < m_height; ++i) {
        for (int j = 0; j < m_width; ++j) {
            m_matrix[i][j] = s * m_matrix[i][j] + b.m_matrix[i][j];
        }
    }''', '''    for (int i = 0; i < m_height; ++i) {
        double *row = m_matrix[i];
        for (int j = 0; j < m_width; ++j) {
            row[j] *= s;
            row[j] += b.m_matrix[i][j];
        }
    }''')]),
# sparse
('C03', [('include/sparse_matrix.h', '''                        if (block == -1) continue;
                        else {
                            for (int k = 0; k < T_Stride; ++k) {
                                matrix->set(block * T_Stride + k, i, m_matrix[i][j * T_Stride + k]);
                            }
                        }''', '''                        if (block >= 0) {
                            const int column = block * T_Stride;
                            for (int k = 0; k < T_Stride; ++k) {
                                matrix->set(column + k, i, m_matrix[i][j * T_Stride + k]);
                            }
                        }''')]),
('C03', [('include/sparse_matrix.h', '''                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                if (block0 == block1) {
                                    for (int m = 0; m < T_Stride; ++m) {
                                        dot +=
                                            m_matrix[i][k * T_Stride + m]
                                            * b_T.m_matrix[j][l * T_Stride + m];
                                    }
                                }''', '''                                const int block1 = b_T.m_blockData[j * T_Entries + l];
                                if (block0 != block1) continue;
                                const double *u = m_matrix[i] + k * T_Stride;
                                const double *v = b_T.m_matrix[j] + l * T_Stride;
                                double partial = 0;
                                for (int m = T_Stride - 1; m >= 0; --m) {
                                    partial += u[m] * v[m];
                                }
                                dot += partial;''')]),
('C03', [('include/sparse_matrix.h', '''                    double v = 0.0;
                    for (int k = 0; k < T_Entries; ++k) {
                        const int offset = k * T_Stride;
                        const int block = m_blockData[i * T_Entries + k];
                        if (block == -1) continue;

                        for (int l = 0; l < T_Stride; ++l) {
                            const int j = block * T_Stride + l;
                            target->add(0, j, m_matrix[i][offset + l] * b.get(0, i));
                        }
                    }''', '''                    const double v = b.get(0, i);
                    for (int k = 0; k < T_Entries; ++k) {
                        const int offset = k * T_Stride;
                        const int block = m_blockData[i * T_Entries + k];
                        if (block == -1) continue;

                        for (int l = 0; l < T_Stride; ++l) {
                            const int j = block * T_Stride + l;
                            target->set(0, j, target->get(0, j) + v * m_matrix[i][offset + l]);
                        }
                    }''')]),
('C03 C04', [('include/sparse_matrix.h', '''                resize(width, height);
                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);''', '''                resize(width, height);
                for (int i = 0; i < height; ++i) {
                    for (int j = 0; j < T_Entries; ++j) {
                        setEmpty(i, j);
                    }
                }''')]),
('C03 C04', [('include/sparse_matrix.h', '''                resize(width, height);
                memset(m_blockData, 0xFF, sizeof(int) * T_Entries * m_height);
                memset(m_data, 0, sizeof(double) * T_Stride * T_Entries * m_height);''', '''                resize(width, height);
                for (int i = 0; i < T_Entries * m_height; ++i) m_blockData[i] = -1;
                for (int i = 0; i < T_Stride * T_Entries * m_height; ++i) m_data[i] = 0.0;''')]),
('C03', [('include/sparse_matrix.h', '''                        target->setBlock(i, j, index);

                        for (int k = 0; k < T_Stride; ++k) {
                            target->set(
                                i,
                                j,
                                k,
                                scale.get(0, i) * m_matrix[i][j * T_Stride + k]);
                        }''', '''                        target->setBlock(i, j, index);

                        const double s = scale.get(0, i);
                        target->set(i, j, 0, s * get(i, j, 0));
                        for (int k = 1; k < T_Stride; ++k) {
                            target->set(i, j, k, s * get(i, j, k));
                        }'''), ('include/sparse_matrix.h', 'inline double get(int row, int entry, int slice) {', 'inline double get(int row, int entry, int slice) const {')]),
]
