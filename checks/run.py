#!/usr/bin/env python3
"""python3 checks/run.py <property id>: decide one property on /repo's current source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(1 << 29)


def main(out):
    try:
        from checks import props
        from vfa import program as PG
        try:
            props.run(sys.argv[1])
        except PG.Broken as e:
            print('analysis broken: %s' % e)
            out.append(2)
            return
    except SystemExit as e:
        out.append(e.code)
        return
    except BaseException:
        import traceback
        traceback.print_exc()
        out.append(3)
        return
    out.append(0)


if __name__ == '__main__':
    res = []
    t = threading.Thread(target=main, args=(res,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
