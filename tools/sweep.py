"""Some cases of several checks in one process (for mutate.py): sweep.py SECONDS CASES PID..."""

import importlib
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    sys.setrecursionlimit(3000)
    seconds, cases, pids = float(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    from vmon import core

    def on_alarm(signum, frame):
        raise core.CaseTimeout()
    signal.signal(signal.SIGVTALRM, on_alarm)
    for pid in pids:
        module = importlib.import_module('props.' + pid)
        ctx = core.Ctx('quick')
        setup = getattr(module, 'setup', None)
        if setup:
            setup(ctx)
        started = time.time()
        for index in range(cases):
            if time.time() - started > seconds:
                break
            rng = random.Random('%s:%s:%d' % (1, pid, index))
            signal.setitimer(signal.ITIMER_VIRTUAL, 30)
            try:
                module.case(ctx, rng, index)
            except BaseException as error:
                print('caught %s %d %s' % (pid, index, str(error).split('\n')[0][:150] or traceback.format_exc()[-300:]))
                os._exit(1)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if '-v' in os.environ.get('SWEEP', ''):
            print(pid, index, round(time.time() - started, 1))
    print('quiet')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
