"""A private build of the C libraries from /repo's working tree, in a scratch directory."""
import os
import subprocess

REPO = '/repo'


def build(dest, extra=(), log=None):
    """cmake + ninja into dest; returns None or the tail of the error output."""
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    cfg = ['cmake', '-S', REPO, '-B', dest, '-GNinja', '-DCMAKE_BUILD_TYPE=Release', '-DTOMOPY_USE_MKL=OFF',
           '-DTOMOPY_USE_CUDA=OFF', '-DTOMOPY_USE_OPENCV=OFF', '-DPYTHON_EXECUTABLE=/opt/venv/bin/python', *extra]
    p = subprocess.run(cfg, env=env, capture_output=True, text=True)
    if p.returncode:
        return (p.stdout + p.stderr)[-2000:]
    p = subprocess.run(['cmake', '--build', dest], env=env, capture_output=True, text=True)
    if p.returncode:
        return (p.stdout + p.stderr)[-2000:]
    return None


def oracle_env(mod, libdir):
    """The environment in which the oracle of a property loads the libraries."""
    env = dict(os.environ)
    if libdir:
        env['LD_LIBRARY_PATH'] = libdir
    if getattr(mod, 'ASAN', False):
        lib = subprocess.run(['/usr/bin/gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env['LD_PRELOAD'] = os.path.realpath(lib)
        # every allocation is filled with NaN bytes: a value that was never set shows up in the output
        env['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=1:handle_segv=1:abort_on_error=0'
    return env
