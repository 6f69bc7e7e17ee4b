"""Executes one scenario in a forked child: a run is a pure function of the scenario, the code and PYTHONHASHSEED."""
import copy
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import time

from . import judge, vfs
from .world import HarnessError, World, db_digest

CPU_LIMIT = 25
WALL_LIMIT = 240


def shot(snap):
    return db_digest(snap)


def child(scn, prop):
    w = World(scn)
    out = {'viol': [], 'herr': None}
    try:
        w.run()
    except HarnessError as e:
        out['herr'] = str(e)[:3000]
        return out
    viol = judge.runaways(w)
    viol += judge.JUDGES[prop](w)
    out['viol'] = [list(v) for v in viol]
    out['points'] = w.points
    out['fired'] = w.fired_list
    out['choices'] = w.choices
    out['clock'] = w.server.clock
    out['digest'] = w.event_digest()
    ev = [e for e in w.events if e[0] in ('run', 'fault')]
    out['inter'] = hashlib.sha256(repr((ev, w.choices)).encode()).hexdigest()[:16] if ev else None
    out['states'] = list({shot(s['snap']) for s in w.states})
    out['probes'] = w.probes
    out['results'] = [{'cmd': r['step'].get('cmd'), 'do': r['step']['do'], 'phase': r['phase'], 'actor': r['actor'], 'ended': r.get('ended'),
                       'success': r.get('success'), 'exc': r.get('exc'), 'writes': len(w.writes(r)),
                       'plan': hashlib.sha256(judge.shown_plan(r).encode('utf8', 'surrogateescape')).hexdigest()[:16]
                       if r['step'].get('cmd') in ('plan', 'plan_export') else None} for r in w.results]
    return out


def execute(scn, prop, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            except (ValueError, OSError):
                pass
            try:
                out = child(copy.deepcopy(scn), prop)
            except MemoryError:
                out = {'viol': [], 'herr': None, 'mem': True}
            except BaseException as e:
                import traceback
                out = {'viol': [], 'herr': 'judge: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
            data = pickle.dumps(out)
            while data:
                n = os.write(wr, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wr)
    buf = []
    end = time.monotonic() + wall
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rd], [], [], left)
        if not r:
            continue
        b = os.read(rd, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(rd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {'viol': [], 'herr': 'a run took more than %s s of wall time' % wall}
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGPROF:
            return {'viol': [['hang', 'the command computes for more than %s s without end' % cpu]], 'herr': None, 'hang': True}
        return {'viol': [], 'herr': 'the run died of signal %s' % os.WTERMSIG(st)}
    try:
        out = pickle.loads(b''.join(buf))
    except Exception as e:
        return {'viol': [], 'herr': 'no result from the run: %r' % e}
    if out.get('mem'):
        return {'viol': [['memory', 'the command uses up all memory']], 'herr': None, 'hang': True}
    return out


def has(out, sig):
    return any(v[0] == sig for v in out['viol'])


def norm(scn):
    return json.loads(json.dumps(scn))
