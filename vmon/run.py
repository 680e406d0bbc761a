import sys
from vmon import core
if __name__ == '__main__':
    try:
        code = core.main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2                # 1 is for violations only
    sys.exit(code)
