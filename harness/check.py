"""usage: check.py PROPERTY [quick|thorough]

Decides one property of /repo's working tree: exit 0 if it held on everything
explored, exit 1 with a VIOLATION line otherwise, exit 2 if the check itself
could not do its work.
"""

from __future__ import annotations

import json
import os
import sys
import traceback

import driver
import stages


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2
            else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = driver.Check(prop, tier, seed)
    try:
        stages.CHECKS[prop](check)
        return check.finish()
    except driver.Broken as error:
        print('ERROR: %s' % error)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        check.close()


if __name__ == '__main__':
    sys.exit(main())
