[
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '        while (true) {\n            const bool done', '        bool done = false;\n        while (!done) {\n            done'), ('src/optimized_nsv_rigid_body_system.cpp', '            if (done) break;\n        }\n', '        }\n')]),
('C17 C20 C22', [('src/generic_rigid_body_system.cpp', '        while (true) {\n            const bool done', '        bool done = false;\n        do {\n            done'), ('src/generic_rigid_body_system.cpp', '            if (done) break;\n        }\n', '        } while (!done);\n')]),
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '        while (true) {\n            const bool done', '        {\n            const bool done'), ('src/optimized_nsv_rigid_body_system.cpp', '            if (done) break;\n        }\n', '            (void)done;\n        }\n')]),
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < steps; ++i) {\n        m_odeSolver', '    const double h = dt / steps;\n    for (int i = steps; i > 0; --i) {\n        m_odeSolver'), ('src/optimized_nsv_rigid_body_system.cpp', 'start(&m_state, dt / steps)', 'start(&m_state, h)'), ('src/optimized_nsv_rigid_body_system.cpp', 'processConstraints(dt / steps, ', 'processConstraints(h, ')]),
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '            constraintSolveTime += solveTime;\n            constraintEvalTime += evalTime;\n', '            constraintSolveTime = constraintSolveTime + solveTime;\n            constraintEvalTime = evalTime + constraintEvalTime;\n'), ('src/optimized_nsv_rigid_body_system.cpp', '            const bool done', '            long long evalTime = 0, solveTime = 0;\n            const bool done'), ('src/optimized_nsv_rigid_body_system.cpp', '            long long evalTime = 0, solveTime = 0;\n\n            auto s0', '            auto s0')]),
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;\n\n    m_t += dt;', '    m_t += dt;\n\n    ++m_frameIndex;\n    if (m_frameIndex >= ProfilingSamples) m_frameIndex = 0;')]),
('C17 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;\n\n    m_t += dt;', '    m_t = m_t + dt;\n\n    m_frameIndex += 1;\n    if (m_frameIndex == ProfilingSamples) m_frameIndex = 0;')]),
]
