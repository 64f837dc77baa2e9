"""Runs a share of one property's cases in one process and writes what was observed."""

import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    job = json.loads(sys.argv[1])
    result = {'status': 'error', 'violations': [], 'detail': ''}
    try:
        run(job, result)
    except BaseException:
        result['status'] = 'error'
        result['detail'] = traceback.format_exc()[-4000:]
    with open(job['out'], 'w') as f:
        json.dump(result, f)


def run(job, result):
    sys.setrecursionlimit(3000)
    from vmon import core
    module = importlib.import_module('props.' + job['property'])
    ctx = core.Ctx(job['tier'])

    def on_alarm(signum, frame):
        raise core.CaseTimeout()
    signal.signal(signal.SIGVTALRM, on_alarm)

    started = time.time()
    setup = getattr(module, 'setup', None)
    if setup:
        setup(ctx)
    if job['first']:
        for key, probe in getattr(module, 'KNOWN', {}).items():
            text = probe()
            if text:
                ctx.known[key] = text
    cases = job['cases']
    if cases is None:
        cases = range(*job['range'])
    violations = result['violations']
    done = 0
    beat = os.open(job['out'] + '.beat', os.O_WRONLY | os.O_CREAT)
    for index in cases:
        if time.time() - started > job['soft_cap']:
            ctx.count('stopped_by_time_cap')
            break
        rng = random.Random('%s:%s:%d' % (job['seed'], job['property'], index))
        signal.setitimer(signal.ITIMER_VIRTUAL, job['case_cpu'])
        message = None
        os.pwrite(beat, b'%-10d %-20.2f\n' % (index, time.process_time()), 0)
        try:
            module.case(ctx, rng, index)
        except core.Violation as e:
            message = str(e)
        except core.HarnessError:
            raise
        except core.CaseTimeout:
            message = ('a call did not end within %s CPU seconds\n' % job['case_cpu']
                + traceback.format_exc()[-2500:])
        except MemoryError:
            raise
        except Exception as e:
            message = 'unexpected %s while observing the code\n%s' % (type(e).__name__,
                traceback.format_exc()[-3500:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        done += 1
        if message is not None:
            violations.append({'case': index, 'message': message})
            if len(violations) >= job['max_violations']:
                break
    finish = getattr(module, 'finish', None)
    if finish and not violations:
        finish(ctx)
    result.update(status='ok', evaluations=ctx.evaluations, signatures=sorted(ctx.signatures),
        counters=ctx.counters, samples=ctx.samples, known=ctx.known, cases=done)


if __name__ == '__main__':
    main()
