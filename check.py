#!/opt/venv/bin/python
"""usage: check.py Pnn [--tier quick|thorough] [--only substr] [-v] | Pnn --replay FILE"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from symex import env  # noqa
env.setup()
sys.setrecursionlimit(20000)
import importlib  # noqa
from symex import harness  # noqa
pid = sys.argv[1]
if pid == '--selftest':
    import pygsti, z3  # noqa
    print('selftest ok: pygsti from', os.path.dirname(pygsti.__file__), 'z3', z3.get_version_string())
    os._exit(0)
try:
    mod = importlib.import_module('checks.' + pid.lower())
except Exception as exc:
    # the check builds some of its objects while it is imported: an error raised inside pygsti is an outcome of the code under test
    import traceback, json  # noqa
    traceback.print_exc()
    tb = traceback.extract_tb(exc.__traceback__)
    own = [os.sep + 'pygsti' + os.sep in f.filename for f in tb if os.sep + 'pygsti' + os.sep in f.filename or f.filename.startswith(HERE)]
    if own and own[-1] and os.path.isfile(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        if '--replay' not in sys.argv:
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', pid + '-construction.json')
            json.dump({'property': pid, 'construction': traceback.format_exc()}, open(path, 'w'))
            print("the code under test fails on the concrete objects the check is built from: %s: %s" % (type(exc).__name__, exc))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("VIOLATION reproduced: %s" % exc)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(2)
rc = harness.main(pid, mod)
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
