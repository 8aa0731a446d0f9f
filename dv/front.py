"""Extraction of the verified text: every source file of the repository is compiled to LLVM IR
from the current working tree on every run (clang, no optimisation), linked, and parsed."""
import os
import subprocess
import tempfile
import glob
import hashlib
import shutil
from concurrent.futures import ThreadPoolExecutor

LLVM = '/usr/lib/llvm-18/bin/'
FLAGS = ['-std=gnu++11', '-O0', '-g', '-fstandalone-debug', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone',
         '-D__forceinline=inline', '-include', 'cstring', '-w', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def inst_tu(repo):
    """translation unit that instantiates the header-only code"""
    return '''#include "%s/include/scs.h"
template class atg_scs::SparseMatrix<3, 2>;
namespace {
double dv_use(atg_scs::Matrix &m, const atg_scs::SparseMatrix<3> &s, atg_scs::SystemState &st,
              atg_scs::OptimizedNsvRigidBodySystem &sys, atg_scs::Constraint &c, int i, double v) {
    m.set(i, i, v); m.add(i, i, v); m.set(&m); m.set(&v);
    sys.getRigidBodyCount(); sys.getConstraintCount(); sys.getForceGeneratorCount();
    return m.get(i, i) + m.getWidth() + m.getHeight() + s.getWidth() + c.getConstraintCount();
}
}
double (*dv_use_p)(atg_scs::Matrix &, const atg_scs::SparseMatrix<3> &, atg_scs::SystemState &,
                   atg_scs::OptimizedNsvRigidBodySystem &, atg_scs::Constraint &, int, double) = dv_use;
''' % repo


def compile_ir(repo='/repo', work=None):
    """returns the text of the linked module"""
    own = work is None
    if own:
        work = tempfile.mkdtemp(prefix='dvir')
    try:
        inst = os.path.join(work, 'dv_inst.cpp')
        open(inst, 'w').write(inst_tu(repo))
        srcs = sorted(glob.glob(os.path.join(repo, 'src', '*.cpp'))) + [inst]

        def one(a):
            src, exc = a
            out = os.path.join(work, os.path.basename(src)[:-4] + '.ll')
            cmd = [LLVM + 'clang++'] + FLAGS + ([] if exc else ['-fno-exceptions']) + [src, '-o', out]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode and not exc:
                return one((src, True))
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
            return out
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, [(s, False) for s in srcs]))
        allf = os.path.join(work, 'all.l')
        r = subprocess.run([LLVM + 'llvm-link', '-S'] + outs + ['-o', allf], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        return open(allf).read()
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)


_mod = {}


def load(repo='/repo'):
    if repo in _mod:
        return _mod[repo]
    from . import ir
    txt = compile_ir(repo)
    m = ir.parse(txt)
    d = ir.Debug(m)
    m.sha = hashlib.sha256(txt.encode()).hexdigest()
    _mod[repo] = (m, d)
    return m, d
