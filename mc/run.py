import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
import core                                             # noqa: E402
if __name__ == '__main__':
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
