#!/usr/bin/env python3
"""check.py <property> | --all [case-substring]    decides a property of /repo's current source."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
REPO = os.environ.get("VF_REPO", "/repo")


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def go():
        from vf import driver
        try:
            res.append(driver.main(HERE, REPO, sys.argv[1:]))
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(3)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)


main()
