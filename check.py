#!/usr/bin/env python3
"""check.py ID [--all]: run the static check of one property against /repo's current tree."""
import sys, os, importlib.util, traceback, shutil
try: import scipy
except ImportError:
    # the linear-arithmetic prover proposes contradictory inequalities with scipy's LP; the tooling venv has it
    if not os.environ.get('VERIF_REEXEC') and shutil.which('python3-vt'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execvp('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
def run(pid):
    p = os.path.join(core.VERIF, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location(pid, p); m = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(m)
        return m.main()
    except core.AnalysisBroken as e:
        print('analysis broken: %s' % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally: core.clean_scratch()
if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        core.tool('irx'); print('ok'); sys.exit(0)
    sys.exit(run(sys.argv[1]))
