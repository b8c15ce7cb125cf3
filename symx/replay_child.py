"""Runs harness cases on the real, un-instrumented code with concrete values.

usage: python -m symx.replay_child JOBS.json   (cwd /verif)
JOBS: {"harness": "c01", "repo": "/repo", "cfog": dir or null, "jobs": [...]}
Prints one JSON result per job, flushed, so that a hang is attributable."""
import importlib
import json
import signal
import sys
import traceback


class Hang(BaseException):
    pass


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    sys.dont_write_bytecode = True
    sys.path.insert(0, spec['repo'])
    if spec.get('cfog'):
        sys.path.insert(0, spec['cfog'])
    sys.setrecursionlimit(3000)
    harness = importlib.import_module('props.' + spec['harness'])
    from symx.ctx import ConcreteCtx, AssumeFailed, CheckFailed, run_case

    def alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    for job in spec['jobs']:
        ctx = ConcreteCtx(job['values'])
        r = {'checks': 0}
        signal.alarm(spec.get('timeout', 10))
        try:
            try:
                run_case(harness, ctx, job['case'])
                r['status'] = 'ok'
            except AssumeFailed:
                r['status'] = 'assume'
            except CheckFailed as e:
                r['status'] = 'violation'
                r['msg'] = e.msg
            except Hang:
                r['status'] = 'violation'
                r['msg'] = 'did not terminate within %d s' % spec.get('timeout', 10)
            except Exception as e:
                r['status'] = 'violation'
                r['msg'] = 'raised %s: %s' % (type(e).__name__, e)
                r['tb'] = traceback.format_exc(limit=-5)
        except Hang:
            r['status'] = 'violation'
            r['msg'] = 'did not terminate'
        finally:
            signal.alarm(0)
        ctx.close_ctx()
        r['checks'] = ctx.checks
        r['observed'] = [o for o in ctx.observed]
        try:
            line = json.dumps(r)
        except (TypeError, ValueError):
            r['observed'] = []
            line = json.dumps(r)
        sys.stdout.write('@@' + line + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
