import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from pyvc import loops  # noqa
from pyvc import specs  # noqa
loops.TRANSFORM.update(specs.TRANSFORM)
loops.install()
from pyvc import runner  # noqa
if __name__ == '__main__':
    rc = runner.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
