"""Runs scenarios (one JSON object per line of argv[1]) on the code under test
and writes their events to argv[2].

Every scenario runs in a process forked for it, so that it starts from a fresh
interpreter state and a crash or an endless loop is an event, not the end."""
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ops                                                      # noqa: E402
import faultops                                                 # noqa: E402,F401
import domops                                                   # noqa: E402,F401
import ndops                                                    # noqa: E402,F401
import headerops                                                # noqa: E402,F401
import cliops                                                   # noqa: E402,F401
import sessops                                                  # noqa: E402,F401
import parops                                                   # noqa: E402,F401
import hugeops                                                  # noqa: E402,F401
import objops                                                   # noqa: E402,F401
import composeops                                               # noqa: E402,F401
import protoops                                                 # noqa: E402,F401
import reportops                                                # noqa: E402,F401
import replaceops                                               # noqa: E402,F401
import deliverops                                               # noqa: E402,F401
import hostileops                                               # noqa: E402,F401
import leaveops                                                 # noqa: E402,F401
import oddops                                                   # noqa: E402,F401


def child(sc, d, w):
    with os.fdopen(w, 'w') as dst:
        def emit(e):
            dst.write(json.dumps(e) + '\n')
            dst.flush()
        os.chdir(d)
        ops.run_scenario(sc, d, emit)
        dst.write('"end"\n')


def run(sc, root, limit):
    d = tempfile.mkdtemp(dir=root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            # a damaged header may ask for any amount of memory
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            os.close(r)
            child(sc, d, w)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    # a machine that is busy is slow, and nothing hangs
    buf, end, last = [], time.time() + limit, time.time() + 3 * limit
    why = ''
    while True:
        left = end - time.time()
        if left <= 0:
            why = 'timeout'
            break
        if not select.select([r], [], [], left)[0]:
            if time.time() < last and os.getloadavg()[0] > 2 * (os.cpu_count() or 1):
                end = min(last, time.time() + limit / 3)
                continue
            why = 'timeout'
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    if why:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    text = b''.join(buf).decode()
    lines = text.split('\n')
    if not text.endswith('"end"\n'):
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3 and not why:
            return lines[:-1] + [json.dumps(ops.base('died', err='harness', why='harness'))]
        if os.WIFSIGNALED(status) and not why:
            why = 'signal %d' % os.WTERMSIG(status)
        lines = lines[:-1]         # may be cut off
        return lines + [json.dumps(ops.base('died', err='died', why=why))]
    return lines[:-2]


def main():
    src, out = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
    limit = int(os.environ.get('SCENARIO_SECONDS', '60'))
    assert os.path.realpath(ops.bp.__file__).startswith(
        os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))), ops.bp.__file__
    # when enough of them have hung, that is the answer; nor is there an end to the patience
    hung, stop = 0, time.time() + float(os.environ.get('WORKER_SECONDS', '1e9'))
    root = tempfile.mkdtemp(prefix='w-')
    try:
        with open(src) as fp, open(out, 'w') as dst:
            for line in fp:
                if hung > 1 or time.time() > stop:
                    continue
                ls = run(json.loads(line), root, limit)
                hung += '"why": "timeout"' in ls[-1]
                for l in ls:
                    dst.write(l + '\n')
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
