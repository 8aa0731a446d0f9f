(lambda O,G:[(O,'m_odeSolver.start(&m_state, dt / steps);','m_odeSolver.start(&m_state, dt);'),
(G,'m_odeSolver->start(&m_state, dt / steps);','m_odeSolver->start(&m_state, (float)dt / steps);'),
(O,'processConstraints(dt / steps, &evalTime','processConstraints(dt, &evalTime'),
(O,'for (int i = 0; i < steps; ++i) {','for (int i = 1; i < steps; ++i) {'),
(O,'m_t += dt;','m_t += dt / steps;'),
(O,'s3 - s2','s3 - s1'),
(G,'constraintSolveTime += solveTime;','constraintSolveTime = solveTime;'),
(G,'constraintSolveTime += solveTime;','constraintSolveTime += evalTime;'),
(G,'            if (done) break;','            if (!done) break;'),
(G,'m_odeSolver->end();',''),
(G,'m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;','m_frameIndex = (m_frameIndex + 1) % (ProfilingSamples - 1);'),
(G,'m_forceEvalMicroseconds[m_frameIndex] = forceEvalTime;','m_constraintEvalMicroseconds[m_frameIndex] = forceEvalTime;'),
(G,'            processForces();\n','            if (i == 0) processForces();\n'),
(G,'m_rigidBodies[i]->v_y = m_state.v_y[i];','m_rigidBodies[i]->v_y = m_state.v_x[i];'),
(O,'m_rigidBodies[i]->theta = m_state.theta[i];','m_rigidBodies[i]->theta = m_state.theta[n - i - 1];'),
])('src/optimized_nsv_rigid_body_system.cpp','src/generic_rigid_body_system.cpp')