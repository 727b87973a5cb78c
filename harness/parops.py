"""Operations in several threads whose switches are decided by a schedule.

A thread (lane) only runs while it has the turn.  It hands the turn back at
points of the code under test: before its reads, writes and calls of the
compressor ('io'), before every line ('line') or every instruction ('op')."""
import contextlib
import io
import os
import sys
import threading
import time

import ops
import sessops
from ops import Env

import bloscpack

CODE = os.path.dirname(os.path.realpath(bloscpack.__file__)) + os.sep
IO_NAMES = {'read', 'write', 'seek', 'truncate', 'open', 'readinto', 'flush', 'tell', 'close',
            'compress', 'decompress', 'compress_ptr', 'decompress_ptr', 'frombuffer', 'dumps', 'loads', 'pack', 'unpack'}
BLOSC_NAMES = {'compress', 'decompress', 'compress_ptr', 'decompress_ptr'}
STUCK = 1.0          # seconds without reaching a point: waiting for another lane


class Lane(object):
    def __init__(self, n, body):
        self.n, self.body = n, body
        self.go = threading.Semaphore(0)
        self.quota = 0
        self.points = 0
        self.done = False
        self.waiting = True
        self.error = None
        self.thread = None


class Scheduler(object):
    def __init__(self, bodies, points):
        self.lanes = [Lane(i, b) for i, b in enumerate(bodies)]
        self.points = points
        self.cond = threading.Condition()

    # -- in the threads of the lanes

    def point(self, lane):
        lane.points += 1
        lane.quota -= 1
        if lane.quota > 0:
            return
        with self.cond:
            lane.waiting = True
            self.cond.notify()
        lane.go.acquire()

    def main(self, lane):
        lane.go.acquire()
        inside = []

        def point():
            # an interruption is not interrupted
            if not inside:
                inside.append(1)
                try:
                    self.point(lane)
                finally:
                    inside.pop()

        def local(frame, event, arg):
            if event == ('opcode' if self.points == 'op' else 'line'):
                point()
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(CODE):
                if self.points == 'op':
                    frame.f_trace_opcodes = True
                return local
            return None

        def profiler(frame, event, arg):
            if event == 'c_call':
                if getattr(arg, '__name__', '') in IO_NAMES and frame.f_code.co_filename.startswith(CODE):
                    point()
            elif event == 'call':
                c = frame.f_code
                if c.co_name in BLOSC_NAMES and c.co_filename.endswith(os.path.join('blosc', 'toplevel.py')):
                    point()

        try:
            if self.points == 'io':
                sys.setprofile(profiler)
            elif self.points != 'free':
                sys.settrace(tracer)
            lane.body()
        except BaseException as e:
            lane.error = e
        finally:
            sys.settrace(None)
            sys.setprofile(None)
            with self.cond:
                lane.done = True
                self.cond.notify()

    # -- in the main thread

    def turn(self, lane, quota):
        """let a lane run for so many points, or to its end"""
        with self.cond:
            # a lane that got stuck earlier may still be running
            if lane.done or not lane.waiting:
                return
            lane.quota = quota
            lane.waiting = False
        lane.go.release()
        with self.cond:
            self.cond.wait_for(lambda: lane.waiting or lane.done, STUCK)

    def run(self, schedule):
        for lane in self.lanes:
            lane.thread = threading.Thread(target=self.main, args=(lane,), daemon=True)
            lane.thread.start()
        for n, quota in schedule:
            if n < len(self.lanes):
                self.turn(self.lanes[n], quota)
        end = time.time() + 40
        while not all(l.done for l in self.lanes) and time.time() < end:
            for lane in self.lanes:
                self.turn(lane, 1 << 60)
        for lane in self.lanes:
            if lane.error is not None:
                raise lane.error
            if not lane.done:
                raise sessops.Stuck('lane %d does not end' % lane.n)
        return [l.points for l in self.lanes]

    def free(self):
        """no schedule but that of the interpreter, which switches often"""
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            self.points = 'free'
            for lane in self.lanes:
                lane.thread = threading.Thread(target=self.main, args=(lane,), daemon=True)
                lane.thread.start()
            for lane in self.lanes:
                lane.go.release()
            for lane in self.lanes:
                lane.thread.join(40)
                if lane.error is not None:
                    raise lane.error
                if not lane.done:
                    raise sessops.Stuck('lane %d does not end' % lane.n)
        finally:
            sys.setswitchinterval(old)
        return []


@contextlib.contextmanager
def unredirected():
    """output is redirected once, not by every operation"""
    @contextlib.contextmanager
    def nothing():
        yield io.StringIO(), io.StringIO()
    old = ops.quiet
    out, err = sys.stdout, sys.stderr
    ops.quiet = nothing
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        ops.quiet = old
        sys.stdout, sys.stderr = out, err


def lane_bodies(env, lanes, emit):
    bodies = []
    for i, lane in enumerate(lanes):
        le = Env(env.dir, emit)
        le.mem, le.objs = dict(env.mem), env.objs
        le.counter = 1000 * (i + 1)

        def body(le=le, i=i, lane=lane):
            for j, o in enumerate(lane):
                # steps of preparation are not compared
                o = dict(o) if o['op'] == 'copy' else dict(o, key='%d.%d' % (i, j), tag='C20.same', oh='error')
                ops.OPS[o['op']](le, o)
        bodies.append(body)
    return bodies


def do_par(env, op):
    """each lane alone, then all of them together under the given schedules"""
    points = {}

    def measure(kind):
        """how many points each lane has"""
        def run():
            return [Scheduler([b], kind).run([]) for b in lane_bodies(env, op['lanes'], lambda e: None)]
        with unredirected():
            return [p[0] for p in sessops.forked(env, run)]

    def solo():
        for b in lane_bodies(env, op['lanes'], env.emit):
            b()
        return {}
    if sessops.forked(env, solo) is None:
        return

    for s in op['schedules']:
        kind = s['points']
        if kind != 'free' and kind not in points:
            points[kind] = measure(kind)
        events = []
        if 'run' in s:
            sched = [(l - 1, q) for l, q in s['run']]
        elif kind != 'free':
            # switch points are given as fractions of a lane, or counted from its end
            last = [0.0] * len(op['lanes'])
            sched = []
            for l, f in s['at']:
                p = int(f * points[kind][l]) if f >= 0 else max(0, points[kind][l] + int(f))
                q = p - int(last[l])
                if q > 0:
                    sched.append((l, q))
                    last[l] = p

        def run():
            with unredirected():
                sch = Scheduler(lane_bodies(env, op['lanes'], events.append), kind)
                try:
                    if kind == 'free':
                        sch.free()
                    else:
                        sch.run(sched)
                except sessops.Stuck as e:
                    return {'stuck': str(e)}
            for e in events:
                env.emit(e)
            return {'stuck': ''}
        r = sessops.forked(env, run)
        if r is None:
            return
        if r['stuck']:
            env.emit(ops.base('died', err='died', why=r['stuck']))
            return
        env.emit(ops.base('par', lanes=len(op['lanes']), points=kind))


ops.OPS.update(par=do_par)
