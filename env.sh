# Environment of every check: PyPy venv of the repository, no bytecode written to or read from /repo.
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/mc-pycache
export PYTHONPATH="$PWD" PYTHONIOENCODING=utf-8
MC_PYTHON="${MC_PYTHON:-/opt/venv/bin/python}"
