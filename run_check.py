#!/opt/venv/bin/python
"""run_check.py Pxx : decide one property on /repo's current source."""
import glob
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or sys.executable != '/opt/venv/bin/python':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
os.chdir(HERE)
from symex import runner

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--selftest':
        runner.setup_paths()
        import z3
        print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
        sys.exit(0)
    mods = glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py'))
    if not mods:
        sys.exit('no check for ' + pid)
    name = 'checks.' + os.path.basename(mods[0])[:-3]
    sys.exit(runner.main(pid, name))
