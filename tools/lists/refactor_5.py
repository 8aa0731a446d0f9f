[
# 0 back substitution in one loop
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''    const double x_m = A.get(n - 1, m - 1) / A.get(n - 2, m - 1);
    result->set(0, m - 1, x_m);
    for (int i = m - 2; i >= 0; --i) {''', '''    for (int i = m - 1; i >= 0; --i) {''')]),
# 1 while loop for the search of the pivot
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''        for (int i = h + 1; i < m; ++i) {
            const double v = fastAbs(A.get(k, i));
            if (v > maxV) {
                maxV = v;
                i_max = i;
            }
        }
''', '''        int row = h + 1;
        while (row < m) {
            const double v = fastAbs(A.get(k, row));
            if (maxV < v) {
                i_max = row;
                maxV = v;
            }
            ++row;
        }
''')]),
# 2 early continue
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''        if (maxV == 0) {
            ++k;
        }
        else {
            A.fastRowSwap(h, i_max);

            for (int i = h + 1; i < m; ++i) {
                const double f = A.get(k, i) / A.get(k, h);
                A.set(k, i, 0.0);

                for (int j = k + 1; j < n; ++j) {
                    A.set(j, i, A.get(j, i) - A.get(j, h) * f);
                }
            }

            ++h;
            ++k;
        }
''', '''        if (maxV == 0) {
            ++k;
            continue;
        }

        A.fastRowSwap(h, i_max);

        const double pivot = A.get(k, h);
        for (int i = h + 1; i < m; ++i) {
            const double f = A.get(k, i) / pivot;

            for (int j = k + 1; j < n; ++j) {
                const double reduced = A.get(j, i) - f * A.get(j, h);
                A.set(j, i, reduced);
            }

            A.set(k, i, 0.0);
        }

        ++h;
        ++k;
''')]),
# 3 helper functions
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''bool atg_scs::GaussianEliminationSleSolver::solve(''', '''namespace {
    int findPivot(atg_scs::Matrix &A, int h, int k, int m, double *maxV) {
        int i_max = h;
        *maxV = atg_scs::GaussianEliminationSleSolver::fastAbs(A.get(k, i_max));
        for (int i = h + 1; i < m; ++i) {
            const double v = atg_scs::GaussianEliminationSleSolver::fastAbs(A.get(k, i));
            if (v > *maxV) {
                *maxV = v;
                i_max = i;
            }
        }
        return i_max;
    }
}

bool atg_scs::GaussianEliminationSleSolver::solve('''), ('src/gaussian_elimination_sle_solver.cpp', '''        int i_max = h;
        double maxV = fastAbs(A.get(k, i_max));
        for (int i = h + 1; i < m; ++i) {
            const double v = fastAbs(A.get(k, i));
            if (v > maxV) {
                maxV = v;
                i_max = i;
            }
        }
''', '''        double maxV = 0;
        const int i_max = findPivot(A, h, k, m, &maxV);
''')]),
# 4 subtracting instead of summing
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''        double sum = 0.0;
        for (int j = m - 1; j > i; --j) {
            sum += A.get(j, i) * result->get(0, j);
        }
''', '''        double sum = 0.0;
        for (int j = i + 1; j < m; ++j) {
            sum += A.get(j, i) * result->get(0, j);
        }
''')]),
# 5 elimination subtracts from the right side while substituting
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''        const double b_i = A.get(n - 1, i);
        double sum = 0.0;
        for (int j = m - 1; j > i; --j) {
            sum += A.get(j, i) * result->get(0, j);
        }

        if (A.get(i, i) != 0) {
            result->set(0, i, (b_i - sum) / A.get(i, i));
        }
        else {
            result->set(0, i, 0);
        }
''', '''        double rest = A.get(n - 1, i);
        for (int j = m - 1; j > i; --j) {
            rest -= A.get(j, i) * result->get(0, j);
        }

        const double d = A.get(i, i);
        result->set(0, i, d == 0 ? 0.0 : rest / d);
''')]),
# 6 the loop over all columns, the pivot column included
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''                A.set(k, i, 0.0);

                for (int j = k + 1; j < n; ++j) {
                    A.set(j, i, A.get(j, i) - A.get(j, h) * f);
                }
''', '''                for (int j = k + 1; j < n; ++j) {
                    A.set(j, i, A.get(j, i) - A.get(j, h) * f);
                }

                A.set(k, i, 0.0);
''')]),
# 7 augmented matrix filled column by column
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''    for (int i = 0; i < m; ++i) {
        for (int j = 0; j < n - 1; ++j) {
            A.set(j, i, m_M.get(j, i));
        }
        A.set(n - 1, i, right.get(0, i));
    }
''', '''    for (int j = 0; j < n - 1; ++j) {
        for (int i = 0; i < m; ++i) {
            A.set(j, i, m_M.get(j, i));
        }
    }

    for (int i = 0; i < m; ++i) {
        A.set(n - 1, i, right.get(0, i));
    }
''')]),
# 8 the order of the counters, a statement that does nothing, references
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''    int h = 0, k = 0;
    while (h < m && k < n) {''', '''    int k = 0;
    int h = 0;
    (void)right;
    for (; k < n && h < m; ) {''')]),
# 9 a helper eliminates one column below the pivot
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''bool atg_scs::GaussianEliminationSleSolver::solve(''', '''static void eliminateBelow(atg_scs::Matrix &A, int h, int k, int m, int n) {
    for (int i = h + 1; i < m; ++i) {
        const double f = A.get(k, i) / A.get(k, h);
        A.set(k, i, 0.0);

        for (int j = k + 1; j < n; ++j) {
            A.set(j, i, A.get(j, i) - A.get(j, h) * f);
        }
    }
}

bool atg_scs::GaussianEliminationSleSolver::solve('''), ('src/gaussian_elimination_sle_solver.cpp', '''            for (int i = h + 1; i < m; ++i) {
                const double f = A.get(k, i) / A.get(k, h);
                A.set(k, i, 0.0);

                for (int j = k + 1; j < n; ++j) {
                    A.set(j, i, A.get(j, i) - A.get(j, h) * f);
                }
            }

            ++h;''', '''            eliminateBelow(A, h, k, m, n);

            ++h;''')]),
# 10 for loop over k with h kept
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''    int h = 0, k = 0;
    while (h < m && k < n) {''', '''    int h = 0;
    for (int k = 0; h < m && k < n; ++k) {'''), ('src/gaussian_elimination_sle_solver.cpp', '''        if (maxV == 0) {
            ++k;
        }
        else {''', '''        if (maxV != 0) {'''), ('src/gaussian_elimination_sle_solver.cpp', '''            ++h;
            ++k;
''', '''            ++h;
''')]),
# 11 swap only if the rows differ
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''            A.fastRowSwap(h, i_max);
''', '''            if (i_max != h) {
                A.fastRowSwap(h, i_max);
            }
''')]),
# 12 scan of the result with early break, sizes named differently
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''        if (std::isnan(result->get(0, i)) || std::isinf(result->get(0, i))) {
            assert(false);
        }
''', '''        const double x_i = result->get(0, i);
        const bool finite = !std::isnan(x_i) && !std::isinf(x_i);
        assert(finite);
        if (!finite) {
            break;
        }
''')]),
# 13 sizes from the right side
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''    const int n = m_M.getWidth() + 1;
    const int m = m_M.getHeight();
''', '''    const int m = m_M.getHeight();
    const int n = m + 1;
''')]),
# 14 the search as max over all rows from h
('C14', [('src/gaussian_elimination_sle_solver.cpp', '''        for (int i = h + 1; i < m; ++i) {
            const double v = fastAbs(A.get(k, i));''', '''        for (int i = h; i < m; ++i) {
            const double v = fastAbs(A.get(k, i));''')]),
]
