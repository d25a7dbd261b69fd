# source this to get the environment of a worker in a shell
eval "$(cd /verif && /opt/venv/bin/python -c "
from dst import boot
for k,v in boot.base_env(jit='${1:-jit}'=='jit').items():
    if k.startswith(('NUMBA','PYTHON','OMP','OPENBLAS','MPL')): print(f'export {k}={v!r}')")"
