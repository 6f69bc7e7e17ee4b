"""One simulated run: programs (mygrations commands and applications), the server, the
file system, the network, the clock, the scheduler and the fault plan, all in this process.

`World(scenario).run()` is a pure function of the scenario (plain JSON) and of the code.
"""
import _thread
import hashlib
import io
import json
import os
import random
import re
import socket
import sys
import threading
import traceback

from . import model, render, vfs
from .engine import Server
from .sqlparse import Unsupported
from .values import SqlError
from .wire import FakeSocket

REPO = os.environ.get('DST_REPO', '/repo')
MAX_IO = 6000
READ_KINDS = {'select', 'show_tables', 'show_create', 'set', 'selvar', 'sellit', 'use', 'begin', 'commit', 'rollback',
              'show_warnings', 'selfn', 'show_vars', 'show_dbs', 'describe', 'savepoint', 'rollback_to', 'release', 'lock',
              'unlock', 'maintain', None}


class SimKill(BaseException):
    """The simulated process is dead: unwinds the thread; any further I/O raises it again."""


class Runaway(BaseException):
    pass


class HarnessError(BaseException):
    pass


class Actor:
    def __init__(self, world, spec, phase):
        self.world, self.spec, self.phase = world, spec, phase
        self.name = spec['name']
        self.steps = spec['steps']
        self.cwd = '/simfs'
        self.io_n = 0
        self.step = -1
        self.killed = False
        self.exempt = 0
        self.state = 'ready'
        self.wait_fn = None
        self.wait_session = None
        self.deadline = None
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.argv = []
        self.started = False
        self.exc = None
        self.prio = 0

    def can_run(self):
        if self.state == 'ready':
            return True
        if self.state == 'blocked':
            s = self.wait_session
            return s.dead or s.victim or self.world.server.clock >= self.deadline or not self.wait_fn()
        if self.state == 'sleep':
            return self.world.server.clock >= self.deadline
        return False


class _Out:
    def __init__(self, which, real):
        self.which, self.real = which, real

    def write(self, s):
        w = vfs.ACTIVE
        if w is None or w.current is None:
            return self.real.write(s)
        return getattr(w.current, self.which).write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    @property
    def encoding(self):
        return 'utf-8'

    @property
    def buffer(self):
        raise AttributeError('buffer')

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class World:
    def __init__(self, scn):
        self.scn = scn
        sv = scn.get('server') or {}
        self.server = Server(style=sv.get('style', '8.0'), users=sv.get('users'), dbs=sv.get('dbs') or ['app'],
                             lock_wait_timeout=sv.get('lock_wait', 50), echo_charset=sv.get('echo', False))
        self.db = sv.get('db', 'app')
        self.server.waiter = self.waiter
        self.read_chunk = scn.get('read_chunk', 65536)
        self.vfs = vfs.VFS(scn.get('fs_seed', 0))
        self.sockets = []
        self.conns = {}
        self.current = None
        self.points = []       # (phase, actor, step, n, kind, detail)
        self.fired_list = []   # (phase, actor, n, kind, detail)
        self.events = []
        self.states = []       # committed states in order
        self.results = []
        self.fs_writes = []
        self.opened = []
        self.waits = []
        self.choices = []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.herr = None
        self.phase = -1
        self.faults = {}
        self.zombies = []
        self.probes = {}
        self.reads = []
        self.made = {}         # per adopt step: what the exported text makes

    # ---------------------------------------------------------------- set-up
    def setup(self):
        live = self.scn.get('live') or []
        model.build(live, self.server, self.db)
        for d, m in (self.scn.get('other_dbs') or {}).items():
            if d not in self.server.dbs:
                self.server.dbs[d] = {}
            model.build(m, self.server, d)
        self.server.log = []
        self.server.seq = 0
        self.server.next_sid = 1
        for name, tree in (self.scn.get('trees') or {}).items():
            self.put_tree(name, tree)
        for p, text in (self.scn.get('fs') or {}).items():
            if text is None:
                self.vfs.mkdirs(p)
            elif isinstance(text, dict):
                self.vfs.put(p, bytes.fromhex(text['hex']))
            else:
                self.vfs.put(p, text)
        for p in self.scn.get('noaccess') or []:
            self.vfs.noaccess.add(p)
        self.server.on_change = self.on_change
        self.fs_before = self.fs_digest()
        self.db_start = self.digest_db()
        self.other_start = {d: db_digest({n: (t, t.rows) for n, t in ts.items()}) for d, ts in self.server.dbs.items() if d != self.db}
        self.push_state(None, 'start')

    def put_tree(self, name, tree):
        root = '/simfs/' + name
        db = root + '/database'
        self.vfs.mkdirs(db)
        for fn, text in tree_files(tree).items():
            self.vfs.put(db + '/' + fn, text)
        cfg = tree.get('cfg') or {}
        if cfg.get('none'):
            return
        self.vfs.put(root + '/mygrate.conf', cfg.get('conf') or (
            'hostname_key = "DB_HOSTNAME"\nusername_key = "DB_USERNAME"\npassword_key = "DB_PASSWORD"\n'
            'database_key = "DB_DATABASE"\nenv_file = ".env"\n\nfiles_directory = "database/"\n'))
        self.vfs.put(root + '/.env', cfg.get('env') or (
            'DB_HOSTNAME = "dbhost"\nDB_USERNAME = "root"\nDB_PASSWORD = "secret"\nDB_DATABASE = "%s"\n' % self.db))

    def fs_digest(self):
        return hashlib.sha256(repr(sorted(self.vfs.files.items())).encode()).hexdigest()

    # ---------------------------------------------------------------- state recording
    def push_state(self, session, what):
        snap = {n: (t, t.rows) for n, t in self.server.dbs[self.db].items()}
        actor = session.actor if session is not None else None
        self.states.append({'seq': self.server.seq, 'what': what, 'actor': actor, 'snap': snap})
        self.events.append(('state', self.server.seq, actor, what if isinstance(what, str) else tuple(map(str, what))))

    def on_change(self, session, what):
        self.push_state(session, what)

    def live(self):
        """Current committed tables."""
        return self.server.dbs[self.db]

    def digest_db(self):
        out = []
        for d in sorted(self.server.dbs):
            out.append((d, db_digest({n: (t, t.rows) for n, t in self.server.dbs[d].items()})))
        return hashlib.sha256(repr(out).encode()).hexdigest()

    # ---------------------------------------------------------------- faults
    def fired(self, f):
        a = self.current
        if f.get('_fired'):
            return
        f['_fired'] = True
        self.fired_list.append((self.phase, a.name if a else None, f['n'], f['kind'] if not f.get('code') else 'err%d' % f['code'],
                                f.get('at_kind')))
        self.events.append(('fault', self.phase, a.name if a else None, f['n'], f['kind']))

    def io(self, kind, detail):
        """An I/O point of the current actor; returns the fault planned for it, if any."""
        a = self.current
        if a is None:
            return None
        if a.killed:
            raise SimKill()
        if a.exempt:
            return None
        n = a.io_n
        a.io_n += 1
        if n > MAX_IO:
            raise Runaway()
        detail = detail if len(detail) < 200 else detail[:200]
        self.points.append((self.phase, a.name, a.step, n, kind, detail))
        self.events.append(('io', a.name, n, kind, detail))
        f = self.faults.get((a.name, n))
        if f is not None:
            f['at_kind'] = kind
            if f['kind'] == 'kill':
                self.fired(f)
                self.kill(a, f)
                raise SimKill()
            if f['kind'] == 'sigint':
                self.fired(f)
                raise KeyboardInterrupt()
        return f

    def kill(self, a, f):
        a.killed = True
        for s in self.sockets:
            if s.actor is a and not s.closed:
                s.closed = True
                ss = s.conn.session
                if ss is None or ss.closed:
                    continue
                if f.get('zombie'):
                    ss.zombie_until = self.server.clock + f['zombie']
                    self.zombies.append(ss)
                else:
                    self.server.close_session(ss)

    # ---------------------------------------------------------------- network
    def connect(self, address, timeout):
        a = self.current
        if a is None:
            raise HarnessError('connect without an actor')
        self.yield_point()
        f = self.io('connect', '%s:%s' % (address[0], address[1]))
        if f is None and a.killed:
            raise SimKill()
        self.events.append(('connect', a.name, address[0], address[1]))
        if f:
            k = f['kind']
            if k == 'refuse':
                self.fired(f)
                raise ConnectionRefusedError(111, 'Connection refused')
            if k == 'timeout':
                self.fired(f)
                self.server.clock += timeout or 60
                raise socket.timeout('timed out')
            if k == 'dns':
                self.fired(f)
                raise socket.gaierror(-2, 'Name or service not known')
            if k == 'crash':
                self.fired(f)
                self.server.crash(f.get('lose', False))
        hosts = (self.scn.get('server') or {}).get('hosts')
        if hosts and address[0] not in hosts:
            self.server.connects.append((a.name, address[0], address[1], None, None, False))
            raise socket.gaierror(-2, 'Name or service not known')
        return FakeSocket(self, a, address[0], address[1])

    def harness_error(self, msg):
        self.herr = HarnessError(msg)
        return self.herr

    def client_closed(self, sock):
        s = sock.conn.session
        if s is not None and not s.closed and not (sock.actor.killed and s.zombie_until):
            self.server.close_session(s)

    def request(self, sock, seq, payload):
        a = self.current
        if a is None:
            return
        conn = sock.conn
        if conn.state == 'auth':
            detail = 'LOGIN'
        elif payload[:1] == b'\x03':
            detail = payload[1:].decode('utf8', 'replace')
        else:
            detail = 'COM_%02x' % payload[0]
        if detail != 'COM_01':
            self.yield_point()
        f = self.io('req', detail) if detail != 'COM_01' else None
        self.reap()
        if f:
            k = f['kind']
            if k == 'stall':
                self.fired(f)
                self.server.clock += f.get('secs', 30)
                self.reap()
                f = None
            elif k == 'drift':
                self.fired(f)
                self.drift(f)
                f = None
            elif k == 'frag':
                self.fired(f)
                sock.chunk = f.get('size', 1)
                f = None
            elif k == 'crash_before':
                self.fired(f)
                self.server.crash(f.get('lose', False))
            elif k == 'req_lost':
                self.fired(f)
                self.server.close_session(conn.session) if conn.session else None
                sock.rx.clear()
                sock.reset = True
                return
        if conn.epoch != self.server.starts or (conn.session is not None and conn.session.closed):
            sock.rx.clear()
            sock.reset = True
            return
        forced = None
        if f and f['kind'] == 'err' and conn.state == 'ready' and payload[0] == 3:
            self.fired(f)
            forced = (f['code'], f.get('msg', 'injected error'), f.get('state', 'HY000'))
            if f['code'] == 1213:
                self.server.rollback(conn.session)
            if f['code'] == 1053:
                self.server.close_session(conn.session)
            rec = {'seq': self.server.seq, 't': self.server.clock, 'sid': conn.session.sid, 'actor': conn.session.actor,
                   'sql': detail, 'kind': kind_of(detail), 'err': f['code'], 'forced': True}
            self.server.log.append(rec)
        try:
            out = conn.handle(seq, payload, forced)
        except Unsupported as e:
            if not self.scn.get('beyond'):
                self.herr = HarnessError('statement outside the simulated dialect: %s: %r' % (e, detail[:300]))
                raise self.herr
            # the declared text itself is beyond the simulated dialect: this server does not have the feature
            out = conn.handle(seq, payload, (1064, 'You have an error in your SQL syntax', '42000'))
        except ConnectionResetError:
            sock.rx.clear()
            sock.reset = True
            return
        except Exception as e:
            self.herr = HarnessError('simulated server failed on %r: %s' % (detail[:300], traceback.format_exc()[-1500:]))
            raise self.herr
        if out is None:
            if conn.session is not None:
                self.server.close_session(conn.session)
            sock.eof = True
            return
        if f:
            k = f['kind']
            if k == 'kill_after':
                self.fired(f)
                self.kill(a, f)
                raise SimKill()
            if k == 'resp_lost':
                self.fired(f)
                if conn.session is not None:
                    self.server.close_session(conn.session)
                sock.reset = True
                return
            if k == 'resp_trunc':
                self.fired(f)
                if conn.session is not None:
                    self.server.close_session(conn.session)
                sock.rx += out[:max(0, min(len(out) - 1, int(len(out) * f.get('frac', 0.5))))]
                sock.eof = True
                return
            if k == 'crash_after':
                self.fired(f)
                self.server.crash(f.get('lose', False))
                sock.rx.clear()
                sock.reset = True
                return
        sock.rx += out

    def drift(self, f):
        """Another client's statements, executed in between."""
        s = self.server.open_session('root', self.db, 'drift')
        for sql in f['sql']:
            try:
                self.server.query(s, sql)
            except SqlError:
                pass
        self.server.close_session(s)

    def reap(self):
        for s in list(self.zombies):
            if s.closed or s.zombie_until <= self.server.clock:
                self.zombies.remove(s)
                self.server.close_session(s)

    # ---------------------------------------------------------------- scheduling
    def yield_point(self):
        a = self.current
        if a.exempt or self.single or a.killed:
            return
        self.park(a)

    def park(self, a):
        self.main.release()
        a.go.acquire()
        self.current = a
        if self.herr or self.aborting:
            raise SimKill()

    def waiter(self, session, fn, timeout):
        a = self.current
        self.waits.append((a.name if a else None, self.server.seq))
        self.probe('lock_wait')
        deadline = self.server.clock + timeout
        if a is None or self.single:
            while fn():
                z = [s for s in self.zombies if s.zombie_until is not None]
                if z and min(s.zombie_until for s in z) <= deadline:
                    self.server.clock = max(self.server.clock, min(s.zombie_until for s in z))
                    self.reap()
                    continue
                self.server.clock = deadline
                self.reap()
                if fn():
                    self.probe('lock_timeout')
                    return 'timeout'
            return 'ok'
        a.state, a.wait_fn, a.wait_session, a.deadline = 'blocked', fn, session, deadline
        self.park(a)
        a.state, a.wait_fn = 'ready', None
        if session.victim:
            self.probe('deadlock')
            return 'victim'
        if session.dead or not fn():
            return 'ok'
        self.probe('lock_timeout')
        return 'timeout'

    def sleep(self, n):
        a = self.current
        if a.killed:
            raise SimKill()
        if self.single:
            self.server.clock += n
            self.reap()
            return
        a.state, a.deadline = 'sleep', self.server.clock + n
        self.park(a)
        a.state = 'ready'

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def choose(self, runnable, sched, k):
        if 'choices' in sched:
            if k < len(sched['choices']):
                c = sched['choices'][k]
                for a in runnable:
                    if a.name == c:
                        return a
            if self.last in runnable:
                return self.last
            return runnable[0]
        if sched.get('policy') == 'pct':
            if self.steps_done in self.pct_points:
                last = self.last
                if last in runnable:
                    self.pct_low -= 1
                    last.prio = self.pct_low
            return max(runnable, key=lambda a: a.prio)
        if self.last in runnable and self.rng.random() > sched.get('switch', 0.5):
            return self.last
        return runnable[self.rng.randrange(len(runnable))]

    def run_phase(self, ph, k):
        self.phase = k
        sched = ph.get('sched') or {}
        actors = [Actor(self, sp, k) for sp in ph['actors']]
        self.single = len(actors) == 1
        self.aborting = False
        self.faults = {}
        for f in ph.get('faults') or []:
            self.faults[(f['actor'], f['n'])] = dict(f)
        self.rng = random.Random('sched|%s|%s' % (sched.get('seed', 0), k))
        self.steps_done = 0
        self.last = None
        if sched.get('policy') == 'pct':
            order = list(range(len(actors)))
            self.rng.shuffle(order)
            for a, p in zip(actors, order):
                a.prio = p
            self.pct_low = 0
            self.pct_points = {self.rng.randrange(sched.get('horizon', 60)) for _ in range(sched.get('depth', 2))}
        chosen = []
        self.choices.append(chosen)
        for a in actors:
            t = threading.Thread(target=self.actor_main, args=(a,), daemon=True)
            t.start()
        while True:
            live = [a for a in actors if a.state != 'done']
            if not live:
                break
            runnable = [a for a in live if a.can_run()]
            if not runnable:
                times = [a.deadline for a in live if a.deadline is not None] + [s.zombie_until for s in self.zombies]
                times = [t for t in times if t > self.server.clock]
                if not times:
                    raise HarnessError('nothing can run')
                self.server.clock = min(times)
                self.reap()
                continue
            if len(runnable) > 1:
                a = self.choose(runnable, sched, len(chosen))
                chosen.append(a.name)
                if self.last is not None and a is not self.last and self.last in runnable:
                    self.probe('preemption')
            else:
                a = runnable[0]
            if a is not self.last:
                self.events.append(('run', a.name))
            self.last = a
            self.steps_done += 1
            self.current = a
            a.go.release()
            self.main.acquire()
            self.current = None
            if self.herr:
                raise self.herr
        self.current = None
        # programs of this phase have ended: whatever connections they left are closed
        for s in self.sockets:
            if not s.closed and not getattr(s, 'keep', False):
                s.closed = True
                self.client_closed(s)
        for sess in list(self.server.sessions.values()):
            if getattr(sess, 'app', False):
                self.server.close_session(sess)

    # ---------------------------------------------------------------- programs
    def actor_main(self, a):
        a.go.acquire()
        self.current = a
        try:
            if not self.herr:
                for i, st in enumerate(a.steps):
                    if a.killed:
                        break
                    a.step = i
                    self.run_step(a, i, st)
        except SimKill:
            pass
        except HarnessError as e:
            self.herr = e
        except BaseException as e:
            self.herr = HarnessError('harness failure in actor %s: %s' % (a.name, ''.join(
                traceback.format_exception(type(e), e, e.__traceback__))[-2500:]))
        finally:
            a.state = 'done'
            self.main.release()

    def run_step(self, a, i, st):
        r = {'phase': self.phase, 'actor': a.name, 'i': i, 'step': st, 'log0': len(self.server.log),
             'state0': len(self.states) - 1, 'con0': len(self.server.connects), 'fsw0': len(self.fs_writes),
             'op0': len(self.opened), 'pt0': len(self.points), 'fi0': len(self.fired_list)}
        do = st['do']
        a.out, a.err = io.StringIO(), io.StringIO()
        try:
            if do == 'cmd':
                self.do_cmd(a, st, r)
            elif do == 'connect':
                a.exempt += 1
                try:
                    old = self.conns.pop(st['conn'], None)
                    if old is not None:
                        old._force_close()
                    self.conns[st['conn']] = self.caller_conn(a, st)
                finally:
                    a.exempt -= 1
            elif do == 'sql':
                self.do_sql(a, st, r)
            elif do == 'app':
                self.do_app(a, st, r)
            elif do == 'run_plan':
                self.do_run_plan(a, st, r)
            elif do == 'adopt':
                self.do_adopt(a, st, r)
            elif do == 'edit':
                for p, text in st['files'].items():
                    if text is None:
                        self.vfs.files.pop(p, None)
                    else:
                        self.vfs.put(p, text)
                self.fs_before = self.fs_digest()
            else:
                raise HarnessError('unknown step ' + do)
        finally:
            r['killed'] = a.killed
            r['out'], r['err'] = clean(a.out.getvalue()), clean(a.err.getvalue())
            r['log1'], r['state1'] = len(self.server.log), len(self.states) - 1
            r['con1'], r['fsw1'], r['op1'] = len(self.server.connects), len(self.fs_writes), len(self.opened)
            r['pt1'], r['fi1'] = len(self.points), len(self.fired_list)
            self.results.append(r)
            self.events.append(('step', a.name, i, r.get('ended'), r.get('success'), r['out'], r['err'], clean(repr(r.get('value')))))

    def caller_conn(self, a, st):
        import pymysql
        c = pymysql.connect(user=st.get('user', 'root'), password=st.get('password', 'secret'), host='dbhost',
                            database=self.db, autocommit=st.get('autocommit', False), connect_timeout=2,
                            cursorclass=pymysql.cursors.DictCursor)
        c._sock.keep = True
        for sql in st.get('init') or []:
            c.cursor().execute(sql)
        return c

    def sql_files(self, st):
        name = st.get('tree')
        form = st.get('form', 'dir')
        if form == 'path':
            return st['path']
        d = '/simfs/%s/database' % name
        if form == 'dir':
            return d
        if form == 'dir/':
            return d + '/'
        names = sorted(p for p in self.vfs.files if p.startswith(d + '/') and p.endswith('.sql'))
        if st.get('order'):
            random.Random(st['order']).shuffle(names)
        if form == 'files':
            return names
        if form == 'dirlist':
            return [d]
        texts = [self.vfs.files[p].decode('utf8', 'replace') for p in names]
        if form == 'strings':
            return texts
        if form == 'string':
            return '\n'.join(texts)
        raise HarnessError('form ' + form)

    def do_cmd(self, a, st, r):
        from mygrations.core import commands
        via = st.get('via', 'cli')
        before = len(self.sockets)
        if 'fs_seed' in st:
            self.vfs.order_seed = st['fs_seed']
        if st.get('cwd'):
            a.cwd = st['cwd']
        elif st.get('tree'):
            a.cwd = '/simfs/' + st['tree']
        try:
            if via == 'cli':
                argv = ['mygrate.py'] + ([st['cmd']] if st['cmd'] is not None else [])
                if st.get('config'):
                    argv += ['--config', st['config']]
                if st.get('force'):
                    argv += ['-f']
                if st.get('vflag'):
                    argv += ['-v']
                self.run_cli(argv, r)
            else:
                opts = {}
                if via == 'conn':
                    opts['connection'] = self.conns.get(st['conn'])
                    if opts['connection'] is None:
                        raise HarnessError('no connection ' + st['conn'])
                    opts['sql_files'] = self.sql_files(st)
                elif via == 'prog':
                    opts['config'] = st.get('config', 'mygrate.conf')
                    if st.get('form'):
                        opts['sql_files'] = self.sql_files(st)
                elif via == 'files':
                    opts['sql_files'] = self.sql_files(st)
                if st.get('force'):
                    opts['force'] = True
                if via == 'prog' and st.get('noconfig'):
                    opts.pop('config')
                got = commands.execute(st['cmd'], opts, st.get('print', True))
                opts = None
                r['ended'] = 'return'
                r['flag'] = bool(got[1]) if isinstance(got, tuple) and len(got) == 2 else None
                r['value'] = jsonable(got[0]) if isinstance(got, tuple) and len(got) == 2 else repr(got)
        except SimKill:
            r['ended'] = 'killed'
        except HarnessError:
            raise
        except Runaway:
            r['ended'] = 'runaway'
        except BaseException as e:
            r['ended'] = 'exc'
            r['exc'] = type(e).__name__
            r['msg'] = clean(str(e))[:500]
            tb = e.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            r['where'] = '%s:%s' % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name) if tb else ''
            e.__traceback__ = None
        if a.killed:
            r['ended'] = 'killed'
        r['success'] = (r.get('ended') == 'return' and r.get('flag') is True) if via != 'cli' else r.get('status') == 0
        # the command has ended; connections it opened itself go away with its process or its objects
        for s in self.sockets[before:]:
            if s.actor is a and not s.closed and not getattr(s, 'keep', False) and via == 'cli':
                s.closed = True
                self.client_closed(s)

    def run_cli(self, argv, r):
        import runpy
        old = sys.argv
        try:
            sys.argv = argv
            runpy.run_path(os.path.join(REPO, 'mygrate.py'), run_name='__main__')
            r['ended'], r['status'] = 'exit', 0
        except SystemExit as e:
            if self.current.killed:
                r['ended'] = 'killed'
                return
            r['ended'] = 'exit'
            r['status'] = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
        except (HarnessError, SimKill, Runaway):
            raise
        except BaseException as e:
            r['ended'], r['status'] = 'exit', 130 if isinstance(e, KeyboardInterrupt) else 1
            r['exc'] = type(e).__name__
            r['msg'] = clean(str(e))[:500]
            tb = e.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            r['where'] = '%s:%s' % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name) if tb else ''
            sys.stderr.write('Traceback (most recent call last): %s: %s\n' % (type(e).__name__, e))
            e.__traceback__ = None
        finally:
            sys.argv = old

    def do_sql(self, a, st, r):
        c = self.conns[st['conn']]
        r['rows'] = []
        a.exempt += 1
        try:
            for q in st['sql']:
                try:
                    if q == '@commit':
                        c.commit()
                        r['rows'].append('ok')
                    elif q == '@rollback':
                        c.rollback()
                        r['rows'].append('ok')
                    elif q == '@ping':
                        c.ping(reconnect=False)
                        r['rows'].append('ok')
                    elif q == '@close':
                        c.close()
                        r['rows'].append('ok')
                    else:
                        cur = c.cursor()
                        cur.execute(q)
                        r['rows'].append(jsonable(list(cur.fetchall())))
                        cur.close()
                except SimKill:
                    raise
                except HarnessError:
                    raise
                except Exception as e:
                    r['rows'].append({'err': type(e).__name__, 'msg': clean(str(e))[:200]})
        finally:
            a.exempt -= 1
        r['ended'] = 'return'

    def last_cmd(self, a, cmd):
        for x in reversed(self.results):
            if x['step']['do'] == 'cmd' and x['step']['cmd'] == cmd and x['actor'] == a.name:
                return x
        raise HarnessError('no %s before' % cmd)

    def do_run_plan(self, a, st, r):
        """A person executes the statements plan showed, one after the other."""
        from .judge import plan_statements
        s = self.server.open_session('root', self.db, a.name)
        s.app = True
        r['errors'] = []
        pl = self.last_cmd(a, 'plan')
        for q in plan_statements(pl) if pl['success'] else []:
            try:
                self.server.query(s, q)
            except SqlError as e:
                r['errors'].append('%s (%s): %s' % (e.msg, e.code, q[:300]))
        self.server.close_session(s)
        r['ended'] = 'return'

    def replay_export(self, texts):
        """The tables that the exported statements make in an empty database, or what went wrong."""
        from .engine import Server
        srv = Server(style=self.server.style, dbs=('x',))
        s = srv.open_session('root', 'x')
        s.vars['foreign_key_checks'] = 0
        for q in texts:
            try:
                srv.query(s, q.rstrip().rstrip(';'))
            except SqlError as e:
                return '%s (%s): %s' % (e.msg, e.code, q[:300])
        srv.commit(s)
        return srv.dbs['x']

    def do_adopt(self, a, st, r):
        """A person replaces the declarations of the exported tables by what plan_export wrote."""
        from .judge import split_sql
        from .sqlparse import parse
        ex = self.last_cmd(a, 'plan_export')
        texts = ex['value'] if isinstance(ex.get('value'), list) else split_sql(re.sub('\x1b\\[1;33m.*?\x1b\\[0m', '', ex['out'], flags=re.S))
        d = '/simfs/%s/database/' % st['tree']
        if ex['success']:
            self.made[id(r)] = self.replay_export(texts)

        def name_of(q):
            m = re.match(r'\s*(?:CREATE\s+TABLE(?:\s+IF\s+NOT\s+EXISTS)?|INSERT\s+INTO)\s+(`[^`]+`|[\w$]+)', strip_comments(q), re.I)
            return m.group(1).strip('`') if m else None
        exported = {}
        for q in texts:
            exported.setdefault(name_of(q), []).append(q)
        r['exported'] = sorted(str(x) for x in exported)
        # what is declared and not there yet is no part of a description of the live database
        gone = set(exported) | {n for n in (st.get('declared_only') or []) if n not in self.live()}
        r['only_live'] = {m['n'] for m in self.scn['trees'][st['tree']]['model']} - gone <= set(self.live())
        if not ex['success']:
            r['ended'] = 'return'
            return
        for p in [p for p in self.vfs.files if p.startswith(d)]:
            keep = [q for q in split_sql(self.vfs.files[p].decode('utf8')) if name_of(q) not in gone]
            if keep:
                self.vfs.put(p, '\n'.join(keep) + '\n')
            else:
                self.vfs.files.pop(p)
        for n, qs in exported.items():
            self.vfs.put(d + 'exported_%s.sql' % n, '\n'.join(q if q.rstrip().endswith(';') else q + ';' for q in qs) + '\n')
        self.fs_before = self.fs_digest()
        r['ended'] = 'return'

    def do_app(self, a, st, r):
        s = self.server.open_session('root', self.db, a.name)
        s.app = True
        if st.get('tx'):
            s.vars['autocommit'] = 0
        r['errs'] = []
        for q in st['sql']:
            self.yield_point()
            if q == '@sleep':
                self.sleep(1)
                continue
            if s.closed:
                s = self.server.open_session('root', self.db, a.name)
                s.app = True
                if st.get('tx'):
                    s.vars['autocommit'] = 0
            try:
                res = self.server.query(s, q)
                r['errs'].append(None)
                if res.cols is not None and st.get('observe'):
                    self.reads.append({'actor': a.name, 'seq': self.server.seq, 'sql': q, 'rows': [list(map(str, x)) for x in res.rows]})
            except SqlError as e:
                r['errs'].append(e.code)
                r.setdefault('msgs', []).append(e.msg)
                if st.get('tx') and e.code in (1205, 1213):
                    self.server.rollback(s)
            except Unsupported as e:
                raise HarnessError('application statement outside the dialect: %s %s' % (e, q))
            except ConnectionResetError:
                r['errs'].append(2013)
        self.server.close_session(s)
        r['ended'] = 'return'

    # ---------------------------------------------------------------- run
    def run(self):
        import gc
        gc.disable()
        random.seed(12345)
        out, err = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = _Out('out', out), _Out('err', err)
        vfs.ACTIVE = self
        self.single = True
        self.aborting = False
        try:
            self.setup()
            for k, ph in enumerate(self.scn['phases']):
                if ph.get('fresh'):
                    # the processes of the phases before have ended, and their connections with them
                    for c in self.conns.values():
                        c._force_close()
                    self.conns.clear()
                self.run_phase(ph, k)
        finally:
            self.current = None
            vfs.ACTIVE = None
            sys.stdout, sys.stderr = out, err
        self.events.append(('end', self.digest_db(), self.server.clock))
        return self

    def event_digest(self):
        return hashlib.sha256(repr(self.events).encode('utf8', 'surrogateescape')).hexdigest()

    # ---------------------------------------------------------------- helpers for the oracles
    def cmds(self, cmd=None, phase=None, actor=None):
        return [r for r in self.results if r['step']['do'] == 'cmd' and (cmd is None or r['step']['cmd'] == cmd) and
                (phase is None or r['phase'] == phase) and (actor is None or r['actor'] == actor)]

    def sent(self, r):
        """Statements the server received from this command."""
        return [x for x in self.server.log[r['log0']:r['log1']] if x['actor'] == r['actor']]

    def writes(self, r):
        return [x for x in self.sent(r) if x['kind'] not in READ_KINDS]


def clean(s):
    return re.sub(r'0x[0-9a-f]{6,}', '0xADDR', s)


def jsonable(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        if isinstance(v, (list, tuple)):
            return [jsonable(x) for x in v]
        if isinstance(v, dict):
            return {str(k): jsonable(x) for k, x in v.items()}
        return str(v)


def strip_comments(q):
    from .sqltok import tokenize, SqlSyntax
    try:
        t = tokenize(q)
    except SqlSyntax:
        return q
    return q[t[0].pos:] if t else q


def kind_of(sql):
    from .sqlparse import parse
    try:
        return parse(sql)[0]
    except Exception:
        return 'other'


def tree_files(tree):
    """{file name: text or bytes} of a declared tree, damage applied."""
    if 'files' in tree:
        fs = {k: (v if not isinstance(v, dict) else bytes.fromhex(v['hex'])) for k, v in tree['files'].items()}
    else:
        styles = tree.get('styles') or {}
        base = tree.get('style') or {}

        def st_of(n):
            return dict(base, **styles.get(n, {}))
        fs = render.files(tree['model'], tree.get('layout') or {}, st_of)
    for d in tree.get('damage') or []:
        names = sorted(fs)
        if not names:
            break
        n = d['file'] if d.get('file') in fs else names[d.get('k', 0) % len(names)]
        b = fs[n].encode('utf8') if isinstance(fs[n], str) else fs[n]
        if d['kind'] == 'cut':
            b = b[:d['at']]
        elif d['kind'] == 'garble':
            b = b[:d['at']] + b'\xff\xfe\xc3\x28' + b[d['at']:]
        elif d['kind'] == 'replace':
            b = b.replace(d['old'].encode('utf8'), d['new'].encode('utf8'), 1)
        elif d['kind'] == 'append':
            b = b + d['text'].encode('utf8')
        fs[n] = b
    return fs


def db_digest(snap):
    out = []
    for n in sorted(snap):
        t, rows = snap[n]
        c = model.canon(t)
        out.append((n, [x.name for x in t.cols], sorted(c['cols'].items(), key=str), c['idx'], sorted(c['fks'].items()),
                    sorted(repr(sorted(r.items())) for r in rows.values())))
    return hashlib.sha256(repr(out).encode('utf8', 'surrogateescape')).hexdigest()[:16]
