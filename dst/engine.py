"""The simulated MySQL server: catalog, DDL, transactions, locks, crash and restart.

One `Server` is shared by every session of a simulated run.  All blocking goes
through `Server.waiter` (the scheduler, or an immediate virtual-clock timeout when
only one client exists), and time is `Server.clock`.
"""
import re
from decimal import Decimal

from .sqlparse import parse, Index, FK, Unsupported
from .sqltok import SqlSyntax, RESERVED
from .values import (SqlError, Col, check_type, convert, implicit_default, index_value, compare, text_of, INTS,
                     INT_WIDTH, TEXTS, BLOBS, CHARS, NUMERIC)


class Table:
    __slots__ = ('name', 'cols', 'indexes', 'fks', 'opts', 'auto_next', 'rows', 'version', 'next_rid')

    def __init__(self, name):
        self.name = name
        self.cols = []
        self.indexes = []
        self.fks = []
        self.opts = {}
        self.auto_next = 1
        self.rows = {}
        self.version = 0
        self.next_rid = 1

    def clone(self):
        t = Table(self.name)
        t.cols = [c.copy() for c in self.cols]
        t.indexes = [i.copy() for i in self.indexes]
        t.fks = [f.copy() for f in self.fks]
        t.opts = dict(self.opts)
        t.auto_next = self.auto_next
        t.rows = dict(self.rows)
        t.version = self.version
        t.next_rid = self.next_rid
        return t

    def col(self, name):
        low = name.lower()
        for c in self.cols:
            if c.name.lower() == low:
                return c
        return None

    def index(self, name):
        low = name.lower()
        for i in self.indexes:
            if i.name.lower() == low:
                return i
        return None

    def pk(self):
        return self.index('PRIMARY')

    def charset(self):
        return (self.opts.get('CHARSET') or 'utf8mb4').lower()

    def collate(self):
        return (self.opts.get('COLLATE') or DEFAULT_COLLATE.get(self.charset(), self.charset() + '_general_ci')).lower()


DEFAULT_COLLATE = {'utf8mb4': 'utf8mb4_0900_ai_ci', 'utf8': 'utf8_general_ci', 'utf8mb3': 'utf8mb3_general_ci',
                   'latin1': 'latin1_swedish_ci', 'ascii': 'ascii_general_ci', 'binary': 'binary'}


class Result:
    __slots__ = ('cols', 'rows', 'affected', 'last_id')

    # cols: list of (name, kind) for row results; None for OK results
    def __init__(self, cols=None, rows=None, affected=0, last_id=0):
        self.cols, self.rows, self.affected, self.last_id = cols, rows, affected, last_id


class Session:
    def __init__(self, server, sid, user, db, actor):
        self.server, self.sid, self.user, self.db, self.actor = server, sid, user, db, actor
        self.vars = {'foreign_key_checks': 1, 'autocommit': 1, 'unique_checks': 1}
        self.work = {}       # table -> uncommitted rows map (own writes)
        self.autos = {}
        self.snap = None     # table -> (rows, version)
        self.in_tx = False
        self.saves = {}      # savepoint -> rows maps
        self.uvars = {}
        self.locks = {}      # table -> 'S' | 'X' (row level, held to end of transaction)
        self.mdl = {}        # table -> 'S' | 'X'
        self.held = {}       # what LOCK TABLES took
        self.waiting = None  # (set of sessions) while blocked
        self.victim = False
        self.dead = False
        self.zombie_until = None
        self.closed = False


class Server:
    def __init__(self, style='8.0', users=None, dbs=('app',), lock_wait_timeout=50, echo_charset=False):
        self.style = style
        self.echo_charset = echo_charset
        self.users = dict(users or {'root': 'secret'})
        self.dbs = {d: {} for d in dbs}
        self.lock_wait_timeout = lock_wait_timeout
        self.clock = 0.0
        self.log = []          # every statement received: dict(seq, t, sid, actor, sql, kind, err)
        self.sessions = {}
        self.next_sid = 1
        self.waiter = None     # waiter(session, blockers_fn, timeout) -> 'ok' | 'timeout'
        self.on_change = None  # called after every change of committed state: on_change(session, what)
        self.read_only = False
        self.up = True
        self.starts = 1
        self.last_dml = None   # rows before the last DML commit, for lost-write crashes
        self.connects = []     # every connection attempt: (actor, host, port, user, db, ok)
        self.seq = 0
        self.lock_waits = 0

    # ---- sessions -----------------------------------------------------------------
    def open_session(self, user, db, actor=None):
        s = Session(self, self.next_sid, user, db, actor)
        self.next_sid += 1
        self.sessions[s.sid] = s
        return s

    def close_session(self, s):
        if s.closed:
            return
        s.closed = True
        s.held = {}
        self.rollback(s)
        self.sessions.pop(s.sid, None)

    def crash(self, lose_last=False):
        """Process crash and restart: sessions vanish, uncommitted work is undone; with
        lose_last the most recent row commit had not reached the disk."""
        for s in list(self.sessions.values()):
            s.dead = True
            s.closed = True
            s.work, s.locks, s.mdl, s.held, s.snap, s.in_tx = {}, {}, {}, {}, None, False
        self.sessions = {}
        lost = False
        if lose_last and self.last_dml is not None:
            db, before = self.last_dml
            for name, (rows, version) in before.items():
                t = self.dbs[db].get(name)
                if t is not None and t.version == version:
                    t.rows = rows
            lost = True
        self.last_dml = None
        self.starts += 1
        if lost and self.on_change:
            self.on_change(None, 'crash-lost-commit')
        return lost

    # ---- locks ----------------------------------------------------------------------
    def _blockers(self, s, table, mode, which):
        out = []
        for o in self.sessions.values():
            if o is s:
                continue
            have = (o.mdl if which == 'mdl' else o.locks).get((s.db, table))
            if have == 'X' or (have == 'S' and mode == 'X'):
                out.append(o)
        return out

    def _acquire(self, s, table, mode, which):
        held = s.mdl if which == 'mdl' else s.locks
        have = held.get((s.db, table))
        if have == 'X' or have == mode:
            return
        fn = lambda: self._blockers(s, table, mode, which)
        blockers = fn()
        if blockers:
            self.lock_waits += 1
            timeout = 31536000 if which == 'mdl' else self.lock_wait_timeout
            self._wait(s, fn, timeout)
        held[(s.db, table)] = mode

    def _wait(self, s, fn, timeout):
        s.waiting = fn
        try:
            self._deadlock(s)
            if s.victim:
                s.victim = False
                self.rollback(s)
                raise SqlError(1213, 'Deadlock found when trying to get lock; try restarting transaction', '40001')
            if self.waiter is None:
                self.clock += timeout
                raise SqlError(1205, 'Lock wait timeout exceeded; try restarting transaction')
            got = self.waiter(s, fn, timeout)
        finally:
            s.waiting = None
        if s.dead:
            raise ConnectionResetError('server gone')
        if got == 'victim':
            s.victim = False
            self.rollback(s)
            raise SqlError(1213, 'Deadlock found when trying to get lock; try restarting transaction', '40001')
        if got == 'timeout':
            raise SqlError(1205, 'Lock wait timeout exceeded; try restarting transaction')

    def _deadlock(self, s):
        """Find a cycle through s in the waits-for graph and mark a victim (row-level waiters first)."""
        path, seen = [], set()

        def visit(o):
            if o.sid in seen:
                return False
            seen.add(o.sid)
            path.append(o)
            if o.waiting:
                for b in o.waiting():
                    if b is s:
                        return True
                    if visit(b):
                        return True
            path.pop()
            return False

        if visit(s):
            ddl = [o for o in path if any(m == 'X' for m in o.mdl.values())]
            cands = [o for o in path if o not in ddl] or path
            cands[-1].victim = True

    # ---- transactions ---------------------------------------------------------------
    def rollback(self, s):
        s.work, s.snap, s.in_tx = {}, None, False
        s.locks, s.mdl = {}, dict(s.held)
        s.autos, s.saves = {}, {}

    def commit(self, s):
        db = self.dbs.get(s.db, {})
        changed = [n for n in s.work if n in db]
        if changed:
            self.last_dml = (s.db, {n: (db[n].rows, db[n].version) for n in changed})
            for n in changed:
                db[n].rows = s.work[n]
        s.work, s.snap, s.in_tx = {}, None, False
        s.locks, s.mdl, s.saves = {}, dict(s.held), {}
        if changed and self.on_change:
            self.on_change(s, ('commit', changed))

    def _dml_done(self, s):
        if s.vars['autocommit'] and not s.in_tx:
            self.commit(s)

    # ---- statement entry --------------------------------------------------------------
    def query(self, s, sql):
        """Execute one statement; returns Result or raises SqlError."""
        self.seq += 1
        rec = {'seq': self.seq, 't': self.clock, 'sid': s.sid, 'actor': s.actor, 'sql': sql, 'kind': None, 'err': None}
        self.log.append(rec)
        try:
            try:
                ast = parse(sql)
            except SqlSyntax as e:
                raise SqlError(1064, "You have an error in your SQL syntax; check the manual that corresponds to your "
                                     "MySQL server version for the right syntax to use near '%s'" % e.near, '42000')
            rec['kind'] = ast[0]
            return getattr(self, 'x_' + ast[0])(s, ast)
        except SqlError as e:
            rec['err'] = e.code
            rec['msg'] = e.msg
            if s.vars['autocommit'] and not s.in_tx and not s.dead:
                self.rollback(s)
            raise

    def db_of(self, s):
        if s.db is None:
            raise SqlError(1046, 'No database selected', '3D000')
        return self.dbs[s.db]

    def tbl(self, s, name):
        t = self.db_of(s).get(name)
        if t is None:
            raise SqlError(1146, "Table '%s.%s' doesn't exist" % (s.db, name), '42S02')
        return t

    # ---- administrative -----------------------------------------------------------------
    def x_set(self, s, ast):
        for scope, name, val in ast[1]:
            if scope == 'names':
                continue
            if isinstance(val, tuple):
                val = s.uvars.get(val[1]) if val[0] == 'user' else self._var(s, val[1])
            if scope == 'user':
                s.uvars[name] = val
                continue
            if scope == 'global':
                if name != 'foreign_key_checks' and name != 'lock_wait_timeout':
                    raise Unsupported('SET GLOBAL ' + name)
            if isinstance(val, str) and val.upper() in ('ON', 'OFF', 'TRUE', 'FALSE'):
                val = 1 if val.upper() in ('ON', 'TRUE') else 0
            if name in ('foreign_key_checks', 'unique_checks', 'autocommit'):
                if val not in (0, 1):
                    raise SqlError(1231, "Variable '%s' can't be set to the value of '%s'" % (name, val), '42000')
                if name == 'autocommit' and val == 1 and s.in_tx:
                    self.commit(s)
                s.vars[name] = val
            elif name in ('sql_mode', 'time_zone', 'lock_wait_timeout', 'innodb_lock_wait_timeout', 'wait_timeout',
                          'net_read_timeout', 'net_write_timeout'):
                s.vars[name] = val
            else:
                raise SqlError(1193, "Unknown system variable '%s'" % name)
        return Result()

    def x_begin(self, s, ast):
        s.held = {}
        self.commit(s)
        s.in_tx = True
        return Result()

    def x_commit(self, s, ast):
        self.commit(s)
        return Result()

    def x_rollback(self, s, ast):
        self.rollback(s)
        return Result()

    def x_use(self, s, ast):
        if ast[1] not in self.dbs:
            raise SqlError(1049, "Unknown database '%s'" % ast[1], '42000')
        s.db = ast[1]
        return Result()

    def x_show_warnings(self, s, ast):
        return Result([('Level', 'str'), ('Code', 'int'), ('Message', 'str')], [])

    def _var(self, s, name):
        v = s.vars.get(name)
        if v is None:
            v = {'sql_mode': 'ONLY_FULL_GROUP_BY,STRICT_TRANS_TABLES,NO_ZERO_IN_DATE,NO_ZERO_DATE,ERROR_FOR_DIVISION_BY_ZERO,'
                             'NO_ENGINE_SUBSTITUTION', 'time_zone': 'SYSTEM', 'lock_wait_timeout': 31536000,
                 'innodb_lock_wait_timeout': self.lock_wait_timeout, 'wait_timeout': 28800, 'net_read_timeout': 30,
                 'net_write_timeout': 60, 'version': VERSIONS[self.style], 'character_set_server': 'utf8mb4',
                 'character_set_database': 'utf8mb4', 'collation_database': 'utf8mb4_0900_ai_ci',
                 'default_storage_engine': 'InnoDB', 'max_allowed_packet': 67108864, 'lower_case_table_names': 0,
                 'transaction_isolation': 'REPEATABLE-READ', 'read_only': int(self.read_only)}.get(name)
        if v is None:
            raise SqlError(1193, "Unknown system variable '%s'" % name)
        return v

    def x_selvar(self, s, ast):
        v = self._var(s, ast[1])
        return Result([('@@' + ast[1], 'int' if isinstance(v, int) else 'str')], [[v]])

    def x_selfn(self, s, ast):
        v = {'DATABASE': s.db, 'SCHEMA': s.db, 'VERSION': VERSIONS[self.style], 'USER': '%s@localhost' % s.user,
             'CURRENT_USER': '%s@%%' % s.user, 'CONNECTION_ID': s.sid, 'ROW_COUNT': -1, 'LAST_INSERT_ID': 0}[ast[1]]
        return Result([(ast[1] + '()', 'int' if isinstance(v, int) else 'str')], [[v]])

    def x_sellit(self, s, ast):
        return Result([(str(ast[1]), 'int' if isinstance(ast[1], int) else 'str')], [[ast[1]]])

    # ---- introspection ---------------------------------------------------------------
    def x_show_tables(self, s, ast):
        names = sorted(self.db_of(s))
        if ast[3] is not None:
            names = [n for n in names if like(n, ast[3])]
        if ast[2] is not None:
            names = [n for n in names if truth(self._eval(_Plain({'tables_in_%s' % s.db.lower(): n, 'table_type': 'BASE TABLE'}), None,
                                                          ast[2]))]
        if ast[1]:
            return Result([('Tables_in_%s' % s.db, 'str'), ('Table_type', 'str')], [[n, 'BASE TABLE'] for n in names])
        return Result([('Tables_in_%s' % s.db, 'str')], [[n] for n in names])

    def x_show_vars(self, s, ast):
        out = []
        for n in ('autocommit', 'foreign_key_checks', 'sql_mode', 'version', 'lower_case_table_names', 'wait_timeout'):
            if like(n, ast[1]):
                v = self._var(s, n)
                out.append([n, {0: 'OFF', 1: 'ON'}[v] if n in ('autocommit', 'foreign_key_checks') else str(v)])
        return Result([('Variable_name', 'str'), ('Value', 'str')], out)

    def x_show_dbs(self, s, ast):
        return Result([('Database', 'str')], [[n] for n in sorted(list(self.dbs) + ['information_schema']) if like(n, ast[1])])

    def x_describe(self, s, ast):
        self._stmt_mdl(s, ast[1])
        t = self.tbl(s, ast[1])
        rows = []
        for c in t.cols:
            key = 'PRI' if t.pk() and c.name in t.pk().names() else ''
            d = c.default
            rows.append([c.name, show_type(c, self.style), 'YES' if c.null else 'NO', key,
                         text_of(d[1]) if d and d[0] == 'val' else ('CURRENT_TIMESTAMP' if d and d[0] == 'now' else None),
                         'auto_increment' if c.auto else ''])
        return Result([(n, 'str') for n in ('Field', 'Type', 'Null', 'Key', 'Default', 'Extra')], rows)

    def x_savepoint(self, s, ast):
        s.saves[ast[1].lower()] = dict(s.work)
        return Result()

    def x_rollback_to(self, s, ast):
        if ast[1].lower() not in s.saves:
            raise SqlError(1305, 'SAVEPOINT %s does not exist' % ast[1], '42000')
        s.work = dict(s.saves[ast[1].lower()])
        return Result()

    def x_release(self, s, ast):
        if s.saves.pop(ast[1].lower(), None) is None:
            raise SqlError(1305, 'SAVEPOINT %s does not exist' % ast[1], '42000')
        return Result()

    def x_lock(self, s, ast):
        s.held = {}
        self.commit(s)
        for n, mode in sorted(ast[1]):
            self.tbl(s, n)
            self._acquire(s, n, mode, 'mdl')
        s.held = dict(s.mdl)
        return Result()

    def x_unlock(self, s, ast):
        s.held = {}
        self.commit(s)
        return Result()

    def x_maintain(self, s, ast):
        self.commit(s)
        return Result([(n, 'str') for n in ('Table', 'Op', 'Msg_type', 'Msg_text')],
                      [['%s.%s' % (s.db, n), 'check', 'status', 'OK'] for n in ast[1]])

    def x_show_create(self, s, ast):
        self._stmt_mdl(s, ast[1])
        t = self.tbl(s, ast[1])
        return Result([('Table', 'str'), ('Create Table', 'str')], [[t.name, show_create(t, self.style, self.echo_charset)]])

    def _stmt_mdl(self, s, name):
        """SHOW takes the metadata lock for the statement only."""
        had = (s.db, name) in s.mdl
        self._acquire(s, name, 'S', 'mdl')
        if not had:
            s.mdl.pop((s.db, name), None)

    # ---- rows -------------------------------------------------------------------------
    def rows_for_read(self, s, t, lock):
        if lock or t.name in s.work:
            return s.work.get(t.name, t.rows)
        if not s.vars['autocommit'] or s.in_tx:
            if s.snap is None:
                s.snap = {n: (x.rows, x.version) for n, x in self.db_of(s).items()}
            if t.name not in s.snap or s.snap[t.name][1] != t.version:
                raise SqlError(1412, 'Table definition has changed, please retry transaction')
            return s.snap[t.name][0]
        return t.rows

    def x_select(self, s, ast):
        _, name, cols, where, order, lim, lock = ast
        if name == 'information_schema.tables':
            return self._info_tables(s, cols, where)
        self.tbl(s, name)
        self._acquire(s, name, 'S', 'mdl')
        try:
            t = self.tbl(s, name)
            if lock:
                self._acquire(s, name, lock, 'row')
            rows = self.rows_for_read(s, t, lock)
            ids = self._order(t, rows, order)
            ids = [r for r in ids if where is None or truth(self._eval(t, rows[r], where))]
            if lim:
                ids = ids[lim[0]:lim[0] + lim[1]]
            if cols == 'count':
                return Result([('COUNT(*)', 'int')], [[len(ids)]])
            if cols is None:
                use = t.cols
            else:
                use = []
                for c in cols:
                    use.append(self._need_col(t, c))
            return Result([(c.name, c) for c in use], [[rows[r][c.name] for c in use] for r in ids])
        finally:
            self._dml_done_read(s)

    def _info_tables(self, s, cols, where):
        names = ['TABLE_SCHEMA', 'TABLE_NAME', 'TABLE_TYPE', 'ENGINE']
        rows = [dict(zip([n.lower() for n in names], (d, n, 'BASE TABLE', 'InnoDB'))) for d in sorted(self.dbs)
                for n in sorted(self.dbs[d])]
        rows = [r for r in rows if where is None or truth(self._eval(_Plain(r), s, where))]
        if cols == 'count':
            return Result([('COUNT(*)', 'int')], [[len(rows)]])
        for c in cols or ():
            if c.upper() not in names:
                raise Unsupported('information_schema column ' + c)
        use = cols or names
        return Result([(c, 'str') for c in use], [[r[c.lower()] for c in use] for r in rows])

    def _dml_done_read(self, s):
        if s.vars['autocommit'] and not s.in_tx:
            s.mdl = dict(s.held)
            s.locks.clear()

    def _need_col(self, t, name, ctx='field list'):
        c = t.col(name)
        if c is None:
            raise SqlError(1054, "Unknown column '%s' in '%s'" % (name, ctx), '42S22')
        return c

    def _order(self, t, rows, order):
        pk = t.pk()

        def key(r):
            if pk is None:
                return (r,)
            return tuple(sortable(index_value(t.col(c), rows[r][t.col(c).name], p)) for c, p in pk.cols)
        ids = sorted(rows, key=key)
        if order:
            for n, desc in reversed(order):
                c = self._need_col(t, n, 'order clause')
                ids.sort(key=lambda r: sortable(index_value(c, rows[r][c.name])), reverse=desc)
        return ids

    def _eval(self, t, row, e):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'fn':
            return row.db if isinstance(row, Session) else None
        if k == 'like':
            a, b = self._eval(t, row, e[1]), self._eval(t, row, e[2])
            return None if a is None or b is None else int(like(text_of(a), text_of(b)))
        if k == 'col' and isinstance(t, _Plain):
            if e[1].lower() not in t:
                raise SqlError(1054, "Unknown column '%s' in 'where clause'" % e[1], '42S22')
            return t[e[1].lower()]
        if k == 'col':
            return row[self._need_col(t, e[1], 'where clause').name]
        if k == 'and':
            a, b = self._eval(t, row, e[1]), self._eval(t, row, e[2])
            if (a is not None and not truth(a)) or (b is not None and not truth(b)):
                return 0
            return None if a is None or b is None else 1
        if k == 'or':
            a, b = self._eval(t, row, e[1]), self._eval(t, row, e[2])
            if truth(a) or truth(b):
                return 1
            return None if a is None or b is None else 0
        if k == 'not':
            a = self._eval(t, row, e[1])
            return None if a is None else int(not truth(a))
        if k == 'isnull':
            return int(self._eval(t, row, e[1]) is None)
        if k == 'cmp':
            r = self._cmp(t, row, e[2], e[3])
            if r is None:
                return None
            return int({'=': r == 0, '<': r < 0, '>': r > 0, '<=': r <= 0, '>=': r >= 0, '<>': r != 0, '!=': r != 0}[e[1]])
        if k == 'in':
            null = False
            for x in e[2]:
                r = self._cmp(t, row, e[1], x)
                if r == 0:
                    return 1
                null = null or r is None
            return None if null else 0
        if k == 'arith':
            a, b = self._eval(t, row, e[2]), self._eval(t, row, e[3])
            if a is None or b is None:
                return None
            a, b = Decimal(text_of(a)), Decimal(text_of(b))
            return a + b if e[1] == '+' else a - b
        raise Unsupported('expression %s' % k)

    def _cmp(self, t, row, a, b):
        plain = isinstance(t, _Plain)
        ca = self._need_col(t, a[1], 'where clause') if a[0] == 'col' and not plain else None
        cb = self._need_col(t, b[1], 'where clause') if b[0] == 'col' and not plain else None
        va, vb = self._eval(t, row, a), self._eval(t, row, b)
        if ca is None and cb is not None:
            r = compare(cb, vb, va)
            return None if r is None else -r
        return compare(ca, va, vb)

    def _begin_write(self, s, name):
        if self.read_only:
            raise SqlError(1290, 'The MySQL server is running with the --read-only option so it cannot execute this '
                                 'statement')
        self.tbl(s, name)
        self._acquire(s, name, 'S', 'mdl')
        t = self.tbl(s, name)
        self._acquire(s, name, 'X', 'row')
        return self.tbl(s, name)

    def _unique_check(self, t, rows, rid, row):
        for i in t.indexes:
            if i.type not in ('PRIMARY', 'UNIQUE'):
                continue
            key = tuple(index_value(t.col(c), row[t.col(c).name], p) for c, p in i.cols)
            if None in key:
                continue
            for r, o in rows.items():
                if r != rid and tuple(index_value(t.col(c), o[t.col(c).name], p) for c, p in i.cols) == key:
                    raise SqlError(1062, "Duplicate entry '%s' for key '%s.%s'" % (
                        '-'.join(text_of(k) for k in key), t.name, i.name), '23000')

    def _duplicates(self, t, rows, row):
        hit = []
        for i in t.indexes:
            if i.type in ('PRIMARY', 'UNIQUE'):
                key = tuple(index_value(t.col(c), row[t.col(c).name], p) for c, p in i.cols)
                if None not in key:
                    hit += [r for r, o in rows.items() if r not in hit and
                            tuple(index_value(t.col(c), o[t.col(c).name], p) for c, p in i.cols) == key]
        return hit

    def _fk_child_check(self, s, t, row):
        if not s.vars['foreign_key_checks']:
            return
        for f in t.fks:
            vals = [row[t.col(c).name] for c in f.cols]
            if None in vals:
                continue
            p = self.db_of(s).get(f.ref_table)
            if p is None:
                raise self._fk_err(s, t, f, 1452)
            if p.name != t.name:
                self._acquire(s, p.name, 'S', 'mdl')
                self._acquire(s, p.name, 'S', 'row')
                p = self.db_of(s).get(f.ref_table)
            prow = s.work.get(p.name, p.rows)
            ok = any(all(index_value(t.col(c), v) == index_value(p.col(rc), o[p.col(rc).name])
                         for c, v, rc in zip(f.cols, vals, f.ref_cols)) for o in prow.values())
            if not ok and not (p.name == t.name and all(row[t.col(rc).name] == v for rc, v in zip(f.ref_cols, vals))):
                raise self._fk_err(s, t, f, 1452)

    def _fk_err(self, s, t, f, code):
        what = 'Cannot add or update a child row' if code == 1452 else 'Cannot delete or update a parent row'
        return SqlError(code, '%s: a foreign key constraint fails (`%s`.`%s`, CONSTRAINT `%s`)' % (what, s.db, t.name, f.name),
                        '23000')

    def _fk_parent(self, s, t, old, new):
        """Old row of t is deleted (new None) or updated: restrict / cascade in the children."""
        if not s.vars['foreign_key_checks']:
            return
        db = self.db_of(s)
        for c in sorted(db):
            ct = db[c]
            for f in ct.fks:
                if f.ref_table != t.name:
                    continue
                keys = [old[t.col(rc).name] for rc in f.ref_cols]
                if new is not None and all(index_value(t.col(rc), new[t.col(rc).name]) == index_value(t.col(rc), k)
                                           for rc, k in zip(f.ref_cols, keys)):
                    continue
                if None in keys:
                    continue
                if c != t.name:
                    self._acquire(s, c, 'S', 'mdl')
                crow = s.work.get(c, ct.rows)
                hit = [r for r, o in crow.items()
                       if all(o[ct.col(cc).name] is not None and index_value(ct.col(cc), o[ct.col(cc).name]) == index_value(t.col(rc), k)
                              for cc, rc, k in zip(f.cols, f.ref_cols, keys))]
                if not hit:
                    continue
                act = (f.on_delete if new is None else f.on_update) or 'NO ACTION'
                if act in ('RESTRICT', 'NO ACTION'):
                    raise self._fk_err(s, ct, f, 1451)
                self._acquire(s, c, 'X', 'row')
                for r in hit:
                    crow = dict(s.work.get(c, ct.rows))
                    if r not in crow:
                        continue        # gone along another way
                    o = crow[r]
                    if act == 'CASCADE' and new is None:
                        del crow[r]
                        s.work[c] = crow
                        self._fk_parent(s, ct, o, None)
                        continue
                    n = dict(o)
                    for cc, rc in zip(f.cols, f.ref_cols):
                        n[ct.col(cc).name] = None if act == 'SET NULL' else new[t.col(rc).name]
                    crow[r] = n
                    s.work[c] = crow

    def x_insert(self, s, ast):
        _, name, cols, values, replace, ignore, on_dup = ast
        t = self._begin_write(s, name)
        save = dict(s.work)
        try:
            rows = dict(s.work.get(name, t.rows))
            use = [self._need_col(t, c) for c in cols] if cols is not None else list(t.cols)
            if len(set(c.name for c in use)) != len(use):
                raise SqlError(1110, "Column specified twice", '42000')
            n = 0
            last = 0
            for k, vals in enumerate(values):
                if cols is None and not vals:
                    use_row = []
                else:
                    use_row = use
                if len(vals) != len(use_row):
                    raise SqlError(1136, "Column count doesn't match value count at row %d" % (k + 1), '21S01')
                given = {}
                for c, v in zip(use_row, vals):
                    given[c.name] = v
                row = {}
                for c in t.cols:
                    v = given.get(c.name, ('default',))
                    if v[0] == 'lit':
                        x = v[1]
                        if c.auto and (x is None or _is_zero(x)):
                            x = self._next_auto(t, rows, c)
                        try:
                            row[c.name] = convert(c, x)
                        except SqlError:
                            if not ignore:
                                raise
                            row[c.name] = _forced(c, x)
                        if c.auto and isinstance(row[c.name], int) and row[c.name] >= t.auto_next:
                            t.auto_next = row[c.name] + 1
                    elif v[0] == 'now':
                        row[c.name] = convert(c, self.now())
                    elif v[0] == 'default':
                        try:
                            row[c.name] = self._default(t, c, rows, explicit=c.name in given)
                        except SqlError:
                            if not ignore:
                                raise
                            row[c.name] = implicit_default(c)
                    elif v[0] == 'col':
                        raise SqlError(1054, "Unknown column '%s' in 'field list'" % v[1], '42S22')
                if replace or on_dup is not None:
                    hit = self._duplicates(t, rows, row)
                    if replace:
                        for r in hit:
                            rows = dict(s.work.get(name, t.rows))
                            gone = rows.pop(r)
                            s.work[name] = rows
                            self._fk_parent(s, t, gone, None)
                            rows = dict(s.work[name])
                            n += 1
                    elif hit:
                        new = dict(rows[hit[0]])
                        for cn, v in on_dup:
                            c = self._need_col(t, cn)
                            if v[0] == 'values':
                                new[c.name] = row[self._need_col(t, v[1]).name]
                            elif v[0] == 'default':
                                new[c.name] = self._default(t, c, rows)
                            elif v[0] == 'now':
                                new[c.name] = convert(c, self.now())
                            else:
                                new[c.name] = convert(c, self._eval(t, new, v))
                        if new != rows[hit[0]]:
                            self._unique_check(t, rows, hit[0], new)
                            old = rows[hit[0]]
                            rows[hit[0]] = new
                            s.work[name] = rows
                            self._fk_child_check(s, t, new)
                            self._fk_parent(s, t, old, new)
                            rows = dict(s.work[name])
                            n += 2
                        continue
                try:
                    self._unique_check(t, rows, None, row)
                    if ignore:
                        self._fk_child_check(s, t, row)
                except SqlError as e:
                    if ignore and e.code in (1062, 1452):
                        continue
                    raise
                rid = t.next_rid
                t.next_rid += 1
                rows[rid] = row
                s.work[name] = rows
                self._fk_child_check(s, t, row)
                rows = dict(s.work[name])
                n += 1
                for c in t.cols:
                    if c.auto and isinstance(row[c.name], int):
                        last = row[c.name]
            s.work[name] = rows
        except SqlError:
            s.work = save if s.work else s.work
            raise
        s_in = Result(affected=n, last_id=max(last, 0))
        if not s.vars['autocommit']:
            s.in_tx = s.in_tx
        self._dml_done(s)
        return s_in

    def now(self):
        sec = int(self.clock) % 86400
        return '2024-01-01 %02d:%02d:%02d' % (sec // 3600, sec // 60 % 60, sec % 60)

    def _next_auto(self, t, rows, c):
        v = t.auto_next
        t.auto_next += 1
        return v

    def _default(self, t, c, rows, explicit=False):
        if c.auto:
            return convert(c, self._next_auto(t, rows, c))
        if c.default is not None:
            if c.default[0] == 'null':
                return None
            if c.default[0] == 'now':
                return convert(c, self.now())
            return c.default[1]
        if c.null:
            return None
        if c.base == 'enum':
            return c.values[0]
        raise SqlError(1364, "Field '%s' doesn't have a default value" % c.name)

    def x_update(self, s, ast):
        _, name, sets, where, order, lim = ast
        t = self._begin_write(s, name)
        save = dict(s.work)
        try:
            rows = s.work.get(name, t.rows)
            targets = [(self._need_col(t, n), v) for n, v in sets]
            ids = [r for r in self._order(t, rows, order) if where is None or truth(self._eval(t, rows[r], where))]
            if not rows and where is not None:
                self._check_names(t, where)
            if lim:
                ids = ids[:lim[1]]
            n = 0
            for r in ids:
                rows = dict(s.work.get(name, t.rows))
                old = rows[r]
                new = dict(old)
                for c, v in targets:
                    if v[0] == 'default':
                        new[c.name] = self._default(t, c, rows)
                    elif v[0] == 'now':
                        new[c.name] = convert(c, self.now())
                    else:
                        new[c.name] = convert(c, self._eval(t, new, v))
                if new != old:
                    for c in t.cols:
                        if c.on_update and c.name not in [x.name for x, _ in targets]:
                            new[c.name] = convert(c, self.now())
                    n += 1
                    self._unique_check(t, rows, r, new)
                    rows[r] = new
                    s.work[name] = rows
                    self._fk_child_check(s, t, new)
                    self._fk_parent(s, t, old, new)
        except SqlError:
            s.work = save if s.work else s.work
            raise
        self._dml_done(s)
        return Result(affected=n)

    def _check_names(self, t, e):
        if isinstance(e, tuple):
            if e and e[0] == 'col':
                self._need_col(t, e[1], 'where clause')
            elif e and e[0] != 'lit':
                for x in e[1:]:
                    if isinstance(x, list):
                        for y in x:
                            self._check_names(t, y)
                    else:
                        self._check_names(t, x)

    def x_delete(self, s, ast):
        _, name, where, order, lim = ast
        t = self._begin_write(s, name)
        save = dict(s.work)
        try:
            rows = s.work.get(name, t.rows)
            if where is not None:
                self._check_names(t, where)
            ids = [r for r in self._order(t, rows, order) if where is None or truth(self._eval(t, rows[r], where))]
            if lim:
                ids = ids[:lim[1]]
            n = 0
            for r in ids:
                rows = dict(s.work.get(name, t.rows))
                if r not in rows:
                    continue
                old = rows.pop(r)
                s.work[name] = rows
                self._fk_parent(s, t, old, None)
                n += 1
        except SqlError:
            s.work = save if s.work else s.work
            raise
        self._dml_done(s)
        return Result(affected=n)

    # ---- DDL --------------------------------------------------------------------------
    def _ddl(self, s, tables):
        """Implicit commit, then exclusive metadata locks in name order."""
        if self.read_only:
            raise SqlError(1290, 'The MySQL server is running with the --read-only option so it cannot execute this '
                                 'statement')
        self.commit(s)
        for n in sorted(set(tables)):
            self._acquire(s, n, 'X', 'mdl')

    def _ddl_end(self, s):
        s.mdl = dict(s.held)
        s.locks.clear()

    def _related(self, s, name, fks=()):
        """Tables whose metadata a DDL on `name` also locks: parents and children by foreign keys."""
        db = self.db_of(s)
        out = {name}
        t = db.get(name)
        for f in list(t.fks if t else ()) + list(fks):
            out.add(f.ref_table)
        for c, ct in db.items():
            if any(f.ref_table == name for f in ct.fks):
                out.add(c)
        return out

    def x_create(self, s, ast):
        _, name, ine, cols, idx, fks, opts = ast
        self.db_of(s)
        self._ddl(s, {name} | {f.ref_table for f in fks} | self._related(s, name))
        try:
            db = self.db_of(s)
            if name in db:
                if ine:
                    return Result()
                raise SqlError(1050, "Table '%s' already exists" % name, '42S01')
            if len(name) > 64:
                raise SqlError(1059, "Identifier name '%s' is too long" % name, '42000')
            t = Table(name)
            t.opts = dict(opts)
            if 'AUTO_INCREMENT' in t.opts:
                t.auto_next = max(1, int(t.opts.pop('AUTO_INCREMENT')))
            self._check_engine(t)
            self._build(s, t, None, [('add_col', c, None) for c in cols] + [('add_index', i) for i in idx] +
                        [('add_fk', f) for f in fks])
            db[name] = t
            t.version = self.seq
            self._changed(s, ('ddl', name))
            return Result()
        finally:
            self._ddl_end(s)

    def _check_engine(self, t):
        e = str(t.opts.get('ENGINE', 'InnoDB'))
        if e.upper() not in ('INNODB', 'MYISAM', 'MEMORY'):
            raise SqlError(1286, "Unknown storage engine '%s'" % e, '42000')
        cs = str(t.opts.get('CHARSET', 'utf8mb4')).lower()
        check_charset(cs, t.opts.get('COLLATE'))

    def _changed(self, s, what):
        self.last_dml = None
        if self.on_change:
            self.on_change(s, what)

    def x_alter(self, s, ast):
        _, name, acts, _o = ast
        self.tbl(s, name)
        self._ddl(s, self._related(s, name, [a[1] for a in acts if a[0] == 'add_fk']))
        try:
            old = self.tbl(s, name)
            t = old.clone()
            for a in acts:
                if a[0] == 'options':
                    t.opts.update(a[1])
                    if 'AUTO_INCREMENT' in t.opts:
                        t.auto_next = max(t.auto_next, int(t.opts.pop('AUTO_INCREMENT')))
                    self._check_engine(t)
            self._build(s, t, old, acts)
            t.version = self.seq
            self.db_of(s)[name] = t
            self._changed(s, ('ddl', name))
            return Result()
        finally:
            self._ddl_end(s)

    def x_drop(self, s, ast):
        _, names, ie = ast
        db = self.db_of(s)
        rel = set()
        for n in names:
            rel |= self._related(s, n)
        self._ddl(s, rel)
        try:
            db = self.db_of(s)
            missing = [n for n in names if n not in db]
            if missing and not ie:
                raise SqlError(1051, "Unknown table '%s'" % ','.join('%s.%s' % (s.db, n) for n in missing), '42S02')
            gone = [n for n in names if n in db]
            if s.vars['foreign_key_checks']:
                for n in gone:
                    for c, ct in sorted(db.items()):
                        if c in gone:
                            continue
                        for f in ct.fks:
                            if f.ref_table == n:
                                raise SqlError(3730, "Cannot drop table '%s' referenced by a foreign key constraint '%s' "
                                                     "on table '%s'." % (n, f.name, c))
            for n in gone:
                del db[n]
                self._changed(s, ('drop', n))
            return Result()
        finally:
            self._ddl_end(s)

    def x_rename(self, s, ast):
        rel = set()
        for a, b in ast[1]:
            rel |= self._related(s, a) | {b}
        self._ddl(s, rel)
        try:
            db = dict(self.db_of(s))
            for a, b in ast[1]:
                if a not in db:
                    raise SqlError(1146, "Table '%s.%s' doesn't exist" % (s.db, a), '42S02')
                if b in db:
                    raise SqlError(1050, "Table '%s' already exists" % b, '42S01')
                t = db.pop(a).clone()
                t.name = b
                t.version = self.seq
                db[b] = t
                for n in list(db):
                    if any(f.ref_table == a for f in db[n].fks):
                        c = db[n] = db[n].clone()
                        c.version = self.seq
                        for f in c.fks:
                            if f.ref_table == a:
                                f.ref_table = b
            self.dbs[s.db] = db
            self._changed(s, ('ddl', ast[1][0][1]))
            return Result()
        finally:
            self._ddl_end(s)

    def x_truncate(self, s, ast):
        name = ast[1]
        self.tbl(s, name)
        self._ddl(s, {name})
        try:
            t = self.tbl(s, name)
            if s.vars['foreign_key_checks']:
                for c, ct in self.db_of(s).items():
                    if c != name and any(f.ref_table == name for f in ct.fks):
                        raise SqlError(1701, 'Cannot truncate a table referenced in a foreign key constraint', '42000')
            t2 = t.clone()
            t2.rows, t2.auto_next = {}, 1
            t2.version = self.seq
            self.db_of(s)[name] = t2
            self._changed(s, ('truncate', name))
            return Result()
        finally:
            self._ddl_end(s)

    def x_dropdb(self, s, ast):
        self.commit(s)
        if ast[1] not in self.dbs:
            if ast[2]:
                return Result()
            raise SqlError(1008, "Can't drop database '%s'; database doesn't exist" % ast[1])
        self.dbs[ast[1]] = {}
        self._changed(s, ('dropdb', ast[1]))
        return Result()

    def _build(self, s, t, old, acts):
        """Apply the clauses of CREATE/ALTER to the (cloned) table t, in the server's way: drops refer to the
        original table, then columns, then indexes, then foreign keys; finally everything is checked at once."""
        creating = old is None
        db = self.db_of(s)
        fkc = s.vars['foreign_key_checks']
        dropped_cols, renamed, changed = {}, {}, set()
        drop_idx, drop_fk = [], []
        for a in acts:
            if a[0] == 'drop_col':
                c = t.col(a[1])
                if c is None or c.name in dropped_cols:
                    raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % a[1], '42000')
                dropped_cols[c.name] = True
            elif a[0] == 'drop_index':
                i = t.index(a[1])
                if i is None or i in drop_idx:
                    raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % a[1], '42000')
                drop_idx.append(i)
            elif a[0] == 'drop_fk':
                f = [f for f in t.fks if f.name.lower() == a[1].lower()]
                if not f or f[0] in drop_fk:
                    raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % a[1], '42000')
                drop_fk.append(f[0])
        kept_fks = [f for f in t.fks if f not in drop_fk]
        # a column still used by one of the table's own foreign keys cannot go
        for f in kept_fks:
            for c in f.cols:
                if t.col(c).name in dropped_cols:
                    raise SqlError(1828, "Cannot drop column '%s': needed in a foreign key constraint '%s'" % (c, f.name))
        for cn, ct in sorted(db.items()):
            for f in (kept_fks if cn == t.name else ct.fks):
                if f.ref_table == t.name and any(rc.lower() in [d.lower() for d in dropped_cols] for rc in f.ref_cols):
                    raise SqlError(1829, "Cannot drop column '%s': needed in a foreign key constraint '%s' of table '%s'"
                                   % (f.ref_cols[0], f.name, cn))
        fk_added = [a[1] for a in acts if a[0] == 'add_fk']
        for f in fk_added:
            if f.name is not None and any(d.name.lower() == f.name.lower() for d in drop_fk):
                raise SqlError(1826, "Duplicate foreign key constraint name '%s'" % f.name)
        # columns
        orig = {c.name: c for c in t.cols}
        t.cols = [c for c in t.cols if c.name not in dropped_cols]
        add_idx = []
        added_cols = []
        for a in acts:
            if a[0] == 'add_col':
                c = a[1].copy()
                if t.col(c.name) is not None:
                    raise SqlError(1060, "Duplicate column name '%s'" % c.name, '42S21')
                if len(c.name) > 64:
                    raise SqlError(1059, "Identifier name '%s' is too long" % c.name, '42000')
                check_type(c)
                self._place(t, c, a[2])
                added_cols.append(c)
                if c.key:
                    add_idx.append(Index('PRIMARY' if c.key == 'PRIMARY' else None, c.key, [(c.name, None)]))
            elif a[0] in ('change', 'set_default', 'rename_col'):
                o = t.col(a[1])
                if o is None:
                    raise SqlError(1054, "Unknown column '%s' in '%s'" % (a[1], t.name), '42S22')
                if a[0] == 'set_default':
                    c = o.copy()
                    c.default = a[2]
                    pos = None
                elif a[0] == 'rename_col':
                    c = o.copy()
                    c.name = a[2]
                    pos = None
                else:
                    c = a[2].copy()
                    pos = a[3]
                check_type(c)
                if c.name.lower() != o.name.lower() and t.col(c.name) is not None:
                    raise SqlError(1060, "Duplicate column name '%s'" % c.name, '42S21')
                at = t.cols.index(o)
                t.cols[at] = c
                if pos:
                    t.cols.remove(c)
                    self._place(t, c, pos)
                if o.name in changed:
                    raise SqlError(1054, "Unknown column '%s' in '%s'" % (a[1], t.name), '42S22')
                changed.add(c.name)
                renamed[o.name] = c.name
                if c.key:
                    add_idx.append(Index('PRIMARY' if c.key == 'PRIMARY' else None, c.key, [(c.name, None)]))
        if not t.cols:
            raise SqlError(1090, "You can't delete all columns with ALTER TABLE; use DROP TABLE instead", '42000')
        for c in t.cols:
            if c.charset or c.collate:
                check_charset((c.charset or charset_of(c.collate)).lower(), c.collate)
        # indexes: dropped, stripped of dropped columns, renamed
        low_ren = {k.lower(): v for k, v in renamed.items()}
        idxs = []
        for i in t.indexes:
            if i in drop_idx:
                continue
            i.cols = tuple((low_ren.get(c.lower(), c), p) for c, p in i.cols
                           if orig[[o for o in orig if o.lower() == c.lower()][0]].name not in dropped_cols)
            if i.cols:
                idxs.append(i)
        for f in kept_fks:
            f.cols = tuple(low_ren.get(c.lower(), c) for c in f.cols)
            if f.ref_table == t.name:
                f.ref_cols = tuple(low_ren.get(c.lower(), c) for c in f.ref_cols)
        for a in acts:
            if a[0] == 'rename_index':
                hit = [i for i in idxs if i.name.lower() == a[1].lower()]
                if not hit:
                    raise SqlError(1176, "Key '%s' doesn't exist in table '%s'" % (a[1], t.name), '42000')
                hit[0].name = a[2]
        add_idx += [a[1].copy() for a in acts if a[0] == 'add_index']
        new_idx = []
        for i in add_idx:
            seen = set()
            for c, p in i.cols:
                col = t.col(c)
                if col is None:
                    raise SqlError(1072, "Key column '%s' doesn't exist in table" % c, '42000')
                if c.lower() in seen:
                    raise SqlError(1060, "Duplicate column name '%s'" % c, '42S21')
                seen.add(c.lower())
                if col.is_text():
                    if col.base == 'json':
                        raise SqlError(3152, "JSON column '%s' supports indexing only via generated columns" % c)
                    if p is None:
                        raise SqlError(1170, "BLOB/TEXT column '%s' used in key specification without a key length" % c,
                                       '42000')
                elif p is not None and col.base not in CHARS and col.base not in ('binary', 'varbinary'):
                    raise SqlError(1089, "Incorrect prefix key; the used key part isn't a string")
            if i.name is None:
                base = i.cols[0][0]
                n, k = base, 2
                taken = [x.name.lower() for x in idxs + new_idx if x.name] + [x.name.lower() for x in add_idx if x.name]
                while n.lower() in taken or n.upper() == 'PRIMARY':
                    n = '%s_%d' % (base, k)
                    k += 1
                i.name = n
            elif i.type != 'PRIMARY' and i.name.upper() == 'PRIMARY':
                raise SqlError(1280, "Incorrect index name '%s'" % i.name, '42000')
            if len(i.name) > 64:
                raise SqlError(1059, "Identifier name '%s' is too long" % i.name, '42000')
            if any(x.name.lower() == i.name.lower() for x in idxs + new_idx):
                if i.type == 'PRIMARY':
                    raise SqlError(1068, 'Multiple primary key defined', '42000')
                raise SqlError(1061, "Duplicate key name '%s'" % i.name, '42000')
            new_idx.append(i)
        # foreign keys
        new_fks = []
        for f0 in fk_added:
            f = f0.copy()
            if f.name is None:
                k = 1
                taken = set(x.name.lower() for x in kept_fks + new_fks)
                for x in db.values():
                    taken |= set(y.name.lower() for y in x.fks)
                while ('%s_ibfk_%d' % (t.name, k)).lower() in taken:
                    k += 1
                f.name = '%s_ibfk_%d' % (t.name, k)
            if len(f.name) > 64:
                raise SqlError(1059, "Identifier name '%s' is too long" % f.name, '42000')
            if len(f.cols) != len(f.ref_cols):
                raise SqlError(1239, "Incorrect foreign key definition for '%s': Key reference and table reference don't "
                                     "match" % f.name, '42000')
            for cn, ct in db.items():
                for x in (kept_fks if cn == t.name else ct.fks):
                    if x.name.lower() == f.name.lower():
                        raise SqlError(1826, "Duplicate foreign key constraint name '%s'" % f.name)
            if any(x.name.lower() == f.name.lower() for x in new_fks):
                raise SqlError(1826, "Duplicate foreign key constraint name '%s'" % f.name)
            for c in f.cols:
                if t.col(c) is None:
                    raise SqlError(1072, "Key column '%s' doesn't exist in table" % c, '42000')
            if f.on_delete == 'SET NULL' or f.on_update == 'SET NULL':
                if any(not t.col(c).null for c in f.cols):
                    raise SqlError(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL"
                                   % (f.cols[0], f.name))
            new_fks.append(f)
        t.fks = kept_fks + new_fks
        # the index a foreign key needs on its own columns is created when missing
        for f in new_fks:
            if not any(covers(i, f.cols) for i in idxs + new_idx):
                n, k = f.name, 2
                while any(x.name.lower() == n.lower() for x in idxs + new_idx):
                    n = '%s_%d' % (f.name, k)
                    k += 1
                new_idx.append(Index(n, 'INDEX', [(c, None) for c in f.cols], generated=True))
        # an index that had been generated for a foreign key goes when another one covers it
        explicit = [i for i in new_idx if not i.generated]
        idxs = [i for i in idxs if not (i.generated and any(covers(e, i.names()) for e in explicit))]
        t.indexes = idxs + new_idx
        pk = t.pk()
        if pk is not None:
            for c, _ in pk.cols:
                col = t.col(c)
                if col.null:
                    if col.name in [x.name for x in added_cols] or col.name in changed or creating:
                        if col.default == ('null',) or col.null_given:
                            raise SqlError(1171, 'All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, '
                                                 'use UNIQUE instead', '42000')
                    col.null = False
                    if col.default == ('null',):
                        col.default = None
        autos = [c for c in t.cols if c.auto]
        if len(autos) > 1 or (autos and not any(i.names()[0].lower() == autos[0].name.lower() for i in t.indexes)):
            raise SqlError(1075, 'Incorrect table definition; there can be only one auto column and it must be defined as '
                                 'a key', '42000')
        # column changes under own foreign keys
        for f in t.fks:
            if f.on_delete == 'SET NULL' or f.on_update == 'SET NULL':
                for c in f.cols:
                    if not t.col(c).null:
                        raise SqlError(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET "
                                             "NULL" % (c, f.name))
            if f not in new_fks and not any(covers(i, f.cols) for i in t.indexes):
                raise SqlError(1553, "Cannot drop index '%s': needed in a foreign key constraint" % f.name)
        self._order_indexes(t)
        # both sides of every foreign key must agree on existing columns and types
        for f in t.fks:
            self._fk_compat(t, f, t if f.ref_table == t.name else db.get(f.ref_table), fkc, f in new_fks)
        for cn, ct in sorted(db.items()):
            if cn == t.name:
                continue
            for f in ct.fks:
                if f.ref_table == t.name:
                    self._fk_compat(ct, f, t, fkc, False, parent_changed=not creating)
        self._rebuild_rows(s, t, old, orig, renamed, added_cols, changed)
        # rows under new foreign keys are checked when checks are on
        if fkc and not creating:
            for f in new_fks:
                p = t if f.ref_table == t.name else db.get(f.ref_table)
                for row in t.rows.values():
                    vals = [row[t.col(c).name] for c in f.cols]
                    if None in vals:
                        continue
                    if not any(all(index_value(t.col(c), v) == index_value(p.col(rc), o[p.col(rc).name])
                                   for c, v, rc in zip(f.cols, vals, f.ref_cols)) for o in p.rows.values()):
                        raise self._fk_err(s, t, f, 1452)

    def _fk_compat(self, child, f, parent, fkc, new, parent_changed=False):
        if parent is None:
            if fkc and new:
                raise SqlError(1824, "Failed to open the referenced table '%s'" % f.ref_table)
            return
        for c, rc in zip(f.cols, f.ref_cols):
            pc = parent.col(rc)
            if pc is None:
                raise SqlError(3734, "Failed to add the foreign key constraint. Missing column '%s' for constraint '%s' in "
                                     "the referenced table '%s'" % (rc, f.name, parent.name))
            if fk_type(child, child.col(c)) != fk_type(parent, pc):
                raise SqlError(3780, "Referencing column '%s' and referenced column '%s' in foreign key constraint '%s' are "
                                     "incompatible." % (c, rc, f.name))
        if not any(covers(i, f.ref_cols, prefix_ok=False) for i in parent.indexes):
            if new:
                raise SqlError(1822, "Failed to add the foreign key constraint. Missing index for constraint '%s' in the "
                                     "referenced table '%s'" % (f.name, parent.name))
            if parent_changed:
                raise SqlError(1553, "Cannot drop index: needed in a foreign key constraint '%s'" % f.name)
            if fkc:
                raise SqlError(1822, "Failed to add the foreign key constraint. Missing index for constraint '%s' in the "
                                     "referenced table '%s'" % (f.name, parent.name))

    def _order_indexes(self, t):
        pk = [i for i in t.indexes if i.type == 'PRIMARY']
        un = [i for i in t.indexes if i.type == 'UNIQUE']
        nn = [i for i in un if all(not t.col(c).null for c, _ in i.cols)]
        t.indexes = pk + nn + [i for i in un if i not in nn] + [i for i in t.indexes if i.type == 'INDEX']

    def _place(self, t, c, pos):
        if pos is None:
            t.cols.append(c)
        elif pos[0] == 'first':
            t.cols.insert(0, c)
        else:
            o = t.col(pos[1])
            if o is None:
                raise SqlError(1054, "Unknown column '%s' in '%s'" % (pos[1], t.name), '42S22')
            t.cols.insert(t.cols.index(o) + 1, c)

    def _rebuild_rows(self, s, t, old, orig, renamed, added, changed):
        if old is None or not old.rows:
            if old is not None:
                t.rows = {}
            return
        back = {v: k for k, v in renamed.items()}
        rows = {}
        for rid in sorted(old.rows):
            o = old.rows[rid]
            n = {}
            for c in t.cols:
                src = back.get(c.name, c.name)
                if src in orig and src in o and not any(c is x for x in added):
                    v = o[src]
                    if c.name in changed or src in renamed or not c.null:
                        if v is None and not c.null:
                            raise SqlError(1138, 'Invalid use of NULL value', '22004')
                        v = self._reconvert(orig[src], c, v)
                    n[c.name] = v
                elif c.auto:
                    n[c.name] = t.auto_next
                    t.auto_next += 1
                elif c.default is not None and c.default[0] != 'null':
                    n[c.name] = convert(c, self.now()) if c.default[0] == 'now' else c.default[1]
                elif c.null:
                    n[c.name] = None
                else:
                    n[c.name] = implicit_default(c)
            rows[rid] = n
        t.rows = {}
        done = {}
        for i in t.indexes:
            if i.type not in ('PRIMARY', 'UNIQUE'):
                continue
            seen = set()
            for r in rows.values():
                key = tuple(index_value(t.col(c), r[t.col(c).name], p) for c, p in i.cols)
                if None in key:
                    continue
                if key in seen:
                    raise SqlError(1062, "Duplicate entry '%s' for key '%s.%s'" % (
                        '-'.join(text_of(k) for k in key), t.name, i.name), '23000')
                seen.add(key)
        t.rows = rows

    def _reconvert(self, a, b, v):
        if v is None:
            return None
        if a.type_key() == b.type_key():
            return v
        if a.base == 'enum' and b.base in NUMERIC:
            v = a.values.index(v) + 1
        if a.base == 'bit' and b.base not in NUMERIC:
            v = str(v)
        if a.base in ('date',) and b.base in ('datetime', 'timestamp'):
            v = v + ' 00:00:00'
        if a.base in ('datetime', 'timestamp') and b.base == 'date':
            if not v[11:].startswith('00:00:00'):
                raise SqlError(1292, "Incorrect date value: '%s' for column '%s'" % (v, b.name), '22007')
        return convert(b, v)


VERSIONS = {'5.7': '5.7.44', '8.0': '8.0.36'}


class _Plain(dict):
    """Stands in for a table where there is none (SHOW ... WHERE, information_schema)."""


def like(text, pattern):
    out, k = '', 0
    while k < len(pattern):
        ch = pattern[k]
        if ch == '\\' and k + 1 < len(pattern):
            k += 1
            out += re.escape(pattern[k])
        else:
            out += '.*' if ch == '%' else ('.' if ch == '_' else re.escape(ch))
        k += 1
    return re.fullmatch(out, text, re.I | re.S) is not None


def _forced(c, x):
    """What INSERT IGNORE stores for a value that does not fit."""
    if x is not None and c.base in CHARS and isinstance(x, str):
        return x[:c.length]
    return implicit_default(c)


def _is_zero(x):
    try:
        return Decimal(str(x)) == 0
    except ArithmeticError:
        return False


def truth(v):
    if v is None:
        return False
    if isinstance(v, str):
        from .values import _loose_num
        return _loose_num(v) != 0
    return bool(v)


def sortable(v):
    if v is None:
        return (0, 0, '')
    if isinstance(v, str):
        return (2, 0, v)
    return (1, v, '')


def covers(i, cols, prefix_ok=True):
    if len(i.cols) < len(cols):
        return False
    return all(a[0].lower() == b.lower() and (prefix_ok or a[1] is None) for a, b in zip(i.cols, cols))


def charset_of(collate):
    return str(collate).lower().split('_')[0]


KNOWN_CHARSETS = {'utf8mb4', 'utf8', 'utf8mb3', 'latin1', 'ascii', 'binary', 'ucs2', 'utf16', 'utf32', 'cp1251', 'latin2',
                  'big5', 'gbk', 'sjis', 'koi8r'}


def check_charset(cs, collate):
    if cs not in KNOWN_CHARSETS:
        raise SqlError(1115, "Unknown character set: '%s'" % cs, '42000')
    if collate:
        col = str(collate).lower()
        if charset_of(col) not in KNOWN_CHARSETS or (col != 'binary' and '_' not in col):
            raise SqlError(1273, "Unknown collation: '%s'" % collate)
        if charset_of(col) != cs and not {charset_of(col), cs} <= {'utf8', 'utf8mb3'}:
            raise SqlError(1253, "COLLATION '%s' is not valid for CHARACTER SET '%s'" % (collate, cs), '42000')


def eff_charset(t, c):
    cs = (c.charset or (charset_of(c.collate) if c.collate else t.charset())).lower()
    if c.collate:
        co = c.collate.lower()
    elif c.charset and c.charset.lower() != t.charset():
        co = DEFAULT_COLLATE.get(cs, cs + '_general_ci')
    elif c.charset:
        co = DEFAULT_COLLATE.get(cs, cs + '_general_ci')
    else:
        co = t.collate()
    return cs, co


def is_char(c):
    return c.base in CHARS or c.base in TEXTS or c.base in ('enum', 'set')


def fk_type(t, c):
    if is_char(c):
        k = ('chars', c.base if c.base in ('enum', 'set') else '') + eff_charset(t, c)
        return k
    return c.fk_key()


def quote(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "''").replace('\n', '\\n').replace('\0', '\\0').replace('\r', '\\r') + "'"


def bt(n):
    return '`' + n.replace('`', '``') + '`'


def show_type(c, style):
    if c.base in INTS:
        s = c.base
        if c.base == 'tinyint' and c.width == 1 and not c.unsigned:
            s += '(1)'
        elif style == '5.7' or c.zerofill:
            w = c.width if c.width is not None else INT_WIDTH[c.base][1 if c.unsigned else 0]
            s += '(%d)' % w
    elif c.base == 'decimal':
        s = 'decimal(%d,%d)' % (c.length, c.scale)
    elif c.base in ('float', 'double'):
        s = c.base + ('(%d,%d)' % (c.length, c.scale) if c.scale is not None else '')
    elif c.base in ('enum', 'set'):
        s = '%s(%s)' % (c.base, ','.join(quote(v) for v in c.values))
    elif c.base == 'year':
        s = 'year(4)' if style == '5.7' else 'year'
    elif c.base in TEXTS or c.base in BLOBS or c.base in ('json', 'date'):
        s = c.base
    elif c.length is not None:
        s = '%s(%d)' % (c.base, c.length)
    else:
        s = c.base
    if c.unsigned:
        s += ' unsigned'
    if c.zerofill:
        s += ' zerofill'
    return s


def show_create(t, style='8.0', echo=False):
    lines = []
    for c in t.cols:
        s = '  %s %s' % (bt(c.name), show_type(c, style))
        if is_char(c):
            cs, co = eff_charset(t, c)
            tcs, tco = t.charset(), t.collate()
            if cs != tcs or co != tco or (echo and (c.charset or c.collate)):
                if style == '5.7':
                    if cs != tcs or echo:
                        s += ' CHARACTER SET %s' % cs
                    if co != DEFAULT_COLLATE.get(cs, cs + '_general_ci') or (cs == tcs and co != tco):
                        s += ' COLLATE %s' % co
                else:
                    s += ' CHARACTER SET %s COLLATE %s' % (cs, co)
            elif t.opts.get('COLLATE') and style == '5.7' and tco != DEFAULT_COLLATE.get(tcs):
                s += ' COLLATE %s' % co
        if not c.null:
            s += ' NOT NULL'
        elif c.base == 'timestamp':
            s += ' NULL'
        d = c.default
        if d is not None and d[0] == 'val':
            if c.base == 'bit':
                s += " DEFAULT b'%s'" % bin(d[1])[2:]
            else:
                s += ' DEFAULT %s' % quote(text_of(d[1]))
        elif d is not None and d[0] == 'now':
            s += ' DEFAULT CURRENT_TIMESTAMP' + ('(%d)' % d[1] if d[1] else '')
        elif c.null and not c.is_text():
            s += ' DEFAULT NULL'
        if c.on_update:
            s += ' ON UPDATE CURRENT_TIMESTAMP' + ('(%d)' % c.on_update[1] if c.on_update[1] else '')
        if c.auto:
            s += ' AUTO_INCREMENT'
        if c.comment:
            s += ' COMMENT ' + quote(c.comment)
        lines.append(s)
    for i in t.indexes:
        cols = ','.join(bt(t.col(c).name) + ('(%d)' % p if p is not None else '') for c, p in i.cols)
        if i.type == 'PRIMARY':
            lines.append('  PRIMARY KEY (%s)' % cols)
        elif i.type == 'UNIQUE':
            lines.append('  UNIQUE KEY %s (%s)' % (bt(i.name), cols))
        else:
            lines.append('  KEY %s (%s)' % (bt(i.name), cols))
    for f in sorted(t.fks, key=lambda f: f.name.lower()):
        s = '  CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)' % (
            bt(f.name), ', '.join(bt(t.col(c).name) for c in f.cols), bt(f.ref_table), ', '.join(bt(c) for c in f.ref_cols))
        for word, a in (('DELETE', f.on_delete), ('UPDATE', f.on_update)):
            if a is None:
                continue
            if style == '5.7':
                if a != 'RESTRICT':
                    s += ' ON %s %s' % (word, a)
            elif a != 'NO ACTION':
                s += ' ON %s %s' % (word, a)
        lines.append(s)
    out = 'CREATE TABLE %s (\n%s\n) ENGINE=%s' % (bt(t.name), ',\n'.join(lines), t.opts.get('ENGINE', 'InnoDB'))
    if t.auto_next > 1:
        out += ' AUTO_INCREMENT=%d' % t.auto_next
    out += ' DEFAULT CHARSET=%s' % t.charset()
    if t.collate() != DEFAULT_COLLATE.get(t.charset()) or (style == '8.0' and t.charset() == 'utf8mb4'):
        out += ' COLLATE=%s' % t.collate()
    if t.opts.get('COMMENT'):
        out += ' COMMENT=' + quote(t.opts['COMMENT'])
    return out
