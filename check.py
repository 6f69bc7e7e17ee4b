#!/opt/venv/bin/python
"""Deterministic simulation of mygrations: `check.py C01` decides one property, `check.py --replay FILE` repeats a run."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
REPO = os.environ.get('DST_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
WORKERS = 8


def boot():
    """Imports the simulator, puts its seams in place, then imports the code under test."""
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    from dst import vfs
    vfs.install()
    import mygrations.core.commands   # noqa: F401
    import mygrations.mygrate         # noqa: F401
    import pymysql                    # noqa: F401
    import argparse                   # noqa: F401
    import runpy                      # noqa: F401
    import glob                       # noqa: F401


def env_for(hashseed):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', TZ='UTC', LC_ALL='C.UTF-8')
    return e


if __name__ == '__main__':
    if sys.argv[1:2] and sys.argv[1].startswith('--internal'):
        boot()
        from dst import driver
        driver.internal(sys.argv[1:], REPO)
    else:
        sys.path.insert(0, HERE)
        from dst import driver
        sys.exit(driver.main(sys.argv[1:], HERE, REPO, PY, env_for, WORKERS))
