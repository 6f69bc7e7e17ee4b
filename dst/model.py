"""Abstract schemas (plain JSON), their canonical form, and the ideal migration used as the oracle.

A schema is a list of tables:
  {"n": name, "cols": [col], "idx": [index], "fks": [fk], "opts": {..}, "rows": null | [ {col: value} ]}
  col:   {"n","t", "len","dec","uns","vals","null","def","auto","cs","co"}   def: null | ["null"] | ["v", x] | ["now", fsp]
  index: {"n","t": PRIMARY|UNIQUE|INDEX,"c": [col names]}
  fk:    {"n","c","rt","rc","od","ou"}
Values of rows are JSON scalars.  Nothing in this file goes through mygrations.
"""
import copy
from decimal import Decimal

from .engine import Server, Table, covers, eff_charset, fk_type, is_char
from .sqlparse import Index, FK
from .values import Col, SqlError, convert, index_value, check_type


def mkcol(m):
    c = Col(m['n'], m['t'])
    if m['t'] in ('bool', 'boolean'):
        c.base, c.length = 'tinyint', 1
    if m['t'] == 'integer':
        c.base = 'int'
    if m['t'] == 'numeric':
        c.base = 'decimal'
    if m.get('len') is not None:
        c.length = m['len']
    c.scale = m.get('dec')
    c.unsigned = bool(m.get('uns'))
    c.values = list(m['vals']) if m.get('vals') else None
    c.null = bool(m.get('null', True))
    d = m.get('def')
    if d is not None:
        c.default = ('null',) if d[0] == 'null' else (('now', d[1]) if d[0] == 'now' else ('val', _dec(d[1])))
    c.auto = bool(m.get('auto'))
    c.charset, c.collate = m.get('cs'), m.get('co')
    if m.get('onup'):
        c.on_update = ('now', m.get('len'))
    c.comment = m.get('comment')
    return c


def _dec(x):
    return Decimal(repr(x)) if isinstance(x, float) else x


def mkindex(m):
    return Index(m['n'] if m['t'] != 'PRIMARY' else 'PRIMARY', m['t'], [(c, None) for c in m['c']])


def mkfk(m):
    return FK(m['n'], [m['c']], m['rt'], [m['rc']], m.get('od'), m.get('ou'))


def table_acts(m):
    return [('add_col', mkcol(c), None) for c in m['cols']] + [('add_index', mkindex(i)) for i in m['idx']] + \
        [('add_fk', mkfk(f)) for f in m['fks']]


def build(schema, server=None, db='app', with_rows=True):
    """Materialise the schema directly in a server (no SQL involved); returns {name: Table}."""
    srv = server or Server(dbs=(db,))
    s = srv.open_session('root', db)
    s.vars['foreign_key_checks'] = 0
    for m in schema:
        t = Table(m['n'])
        t.opts = dict(m.get('opts') or {})
        if 'AUTO_INCREMENT' in t.opts:
            t.opts.pop('AUTO_INCREMENT')
        srv._build(s, t, None, table_acts(m))
        srv.dbs[db][m['n']] = t
    if with_rows:
        for m in schema:
            t = srv.dbs[db][m['n']]
            for r in m.get('rows') or []:
                put_row(t, r)
            for r in m.get('data') or []:
                put_row(t, r)
    srv.sessions.pop(s.sid, None)
    return srv.dbs[db]


def put_row(t, r):
    row = {}
    for c in t.cols:
        if c.name in r:
            row[c.name] = convert(c, _dec(r[c.name]))
        elif c.default is not None and c.default[0] == 'val':
            row[c.name] = c.default[1]
        elif c.default is not None and c.default[0] == 'now':
            row[c.name] = convert(c, '2024-01-01 00:00:00')
        elif c.null:
            row[c.name] = None
        elif c.auto:
            row[c.name] = t.auto_next
        else:
            raise SqlError(1364, "Field '%s' doesn't have a default value" % c.name)
        if c.auto and row[c.name] >= t.auto_next:
            t.auto_next = row[c.name] + 1
    for i in t.indexes:
        if i.type in ('PRIMARY', 'UNIQUE'):
            key = tuple(index_value(t.col(c), row[t.col(c).name], p) for c, p in i.cols)
            if None in key:
                continue
            for o in t.rows.values():
                if tuple(index_value(t.col(c), o[t.col(c).name], p) for c, p in i.cols) == key:
                    raise SqlError(1062, "Duplicate entry for key '%s'" % i.name)
    t.rows = dict(t.rows)
    t.rows[t.next_rid] = row
    t.next_rid += 1
    return row


def act(a):
    return 'RESTRICT' if a in (None, 'NO ACTION', 'RESTRICT') else a


def canon(t):
    """What counts as the structure of a table."""
    fkn = {f.name.lower() for f in t.fks}
    return {
        'cols': {c.name: (c.type_key(), c.null, c.canon_default(), c.on_update, c.auto) for c in t.cols},
        'idx': sorted((i.type, tuple(n.lower() for n in i.names()), '*' if i.name.lower() in fkn or i.type == 'PRIMARY' else i.name)
                      for i in t.indexes),
        'fks': {f.name: (tuple(f.cols), f.ref_table, tuple(f.ref_cols), act(f.on_delete), act(f.on_update)) for f in t.fks},
    }


def idx_equal(a, b):
    """Index lists match by type and columns; names matter unless one side is the name MySQL gave for a foreign key."""
    if len(a) != len(b):
        return False
    a, b = sorted(a), sorted(b)
    rest = list(b)
    for x in a:
        if x in rest:
            rest.remove(x)
            continue
        hit = [y for y in rest if x[:2] == y[:2] and '*' in (x[2], y[2])]
        if not hit:
            return False
        rest.remove(hit[0])
    return not rest


def struct_diff(live, want, order_matters=None):
    """Differences between {name: Table} dicts, as a list of strings.  order_matters: names of tables whose column
    order must be the declared one."""
    out = []
    for n in sorted(set(live) - set(want)):
        out.append('table %s exists but is not declared' % n)
    for n in sorted(set(want) - set(live)):
        out.append('declared table %s does not exist' % n)
    for n in sorted(set(want) & set(live)):
        a, b = canon(live[n]), canon(want[n])
        for c in sorted(set(a['cols']) - set(b['cols'])):
            out.append('column %s.%s exists but is not declared' % (n, c))
        for c in sorted(set(b['cols']) - set(a['cols'])):
            out.append('declared column %s.%s does not exist' % (n, c))
        for c in sorted(set(a['cols']) & set(b['cols'])):
            if a['cols'][c] != b['cols'][c]:
                out.append('column %s.%s is %r, declared %r' % (n, c, a['cols'][c], b['cols'][c]))
        if not idx_equal(a['idx'], b['idx']):
            out.append('indexes of %s are %r, declared %r' % (n, a['idx'], b['idx']))
        if a['fks'] != b['fks']:
            out.append('foreign keys of %s are %r, declared %r' % (n, a['fks'], b['fks']))
        if order_matters and n in order_matters:
            x, y = [c.name for c in live[n].cols], [c.name for c in want[n].cols]
            if x != y and set(x) == set(y):
                out.append('column order of %s is %r, declared %r' % (n, x, y))
    return out


def tables_equal(a, b):
    x, y = canon(a), canon(b)
    return x['cols'] == y['cols'] and x['fks'] == y['fks'] and idx_equal(x['idx'], y['idx'])


def same_coldef(a, b):
    return a.type_key() == b.type_key() and a.null == b.null and a.canon_default() == b.canon_default() and a.auto == b.auto


def snapshot(tables):
    return {n: (t, t.rows) for n, t in tables.items()}


def row_key_map(t, rows, key='id'):
    out = {}
    for r in rows.values():
        out[r.get(key)] = r
    return out


def declared_rows(want_table):
    """Rows of a built table as {id: row}."""
    return row_key_map(want_table, want_table.rows)


def rows_equal_declared(t, rows, want, declared_cols):
    """Does the live table hold exactly the declared rows?  declared_cols: {id: set of columns the file gives}.
    Returns a list of differences."""
    out = []
    live = row_key_map(t, rows)
    decl = declared_rows(want)
    if len(live) != len(rows):
        out.append('table %s has rows with equal id' % t.name)
    for i in sorted(set(live) - set(decl), key=str):
        out.append('row id=%r of %s is not declared but present' % (i, t.name))
    for i in sorted(set(decl) - set(live), key=str):
        out.append('declared row id=%r of %s is missing' % (i, t.name))
    for i in sorted(set(decl) & set(live), key=str):
        for c in sorted(declared_cols.get(i, ())):
            if c not in live[i]:
                out.append('column %s.%s of a declared row does not exist' % (t.name, c))
            elif live[i][c] != decl[i][c]:
                out.append('row id=%r of %s: column %s is %r, declared %r' % (i, t.name, c, live[i][c], decl[i][c]))
    return out


class Infeasible(Exception):
    pass


def ideal(live, target, db='app'):
    """What the perfect migration of {name: Table} `live` (with rows) to schema `target` leaves behind, or Infeasible
    when the server cannot convert the existing rows at all."""
    srv = Server(dbs=(db,))
    s = srv.open_session('root', db)
    s.vars['foreign_key_checks'] = 0
    want = build(target, with_rows=False)
    out = {}
    for m in target:
        n = m['n']
        if n not in live:
            t = want[n].clone()
        else:
            o = live[n]
            base = o.clone()
            base.fks = []
            acts = []
            wc = {c.name for c in want[n].cols}
            for i in base.indexes:
                acts.append(('drop_index', i.name))
            for c in o.cols:
                if c.name not in wc:
                    acts.append(('drop_col', c.name))
            for c in want[n].cols:
                if o.col(c.name) is None or o.col(c.name).name != c.name:
                    if o.col(c.name) is not None:
                        raise Infeasible('column %s changes only in case' % c.name)
                    acts.append(('add_col', c.copy(), None))
                else:
                    acts.append(('change', c.name, c.copy(), None))
            for i in want[n].indexes:
                acts.append(('add_index', i.copy()))
            base.indexes = [i for i in base.indexes]
            srv.dbs[db] = {}
            try:
                srv._build(s, base, o, acts)
            except SqlError as e:
                raise Infeasible('%s: %s' % (n, e))
            base.fks = [f.copy() for f in want[n].fks]
            t = base
        out[n] = t
    for t in out.values():
        for f in t.fks:
            # the options of a table, such as its character set, stay what they are
            if any(fk_type(t, t.col(c)) != fk_type(out[f.ref_table], out[f.ref_table].col(rc)) for c, rc in zip(f.cols, f.ref_cols)):
                raise Infeasible('foreign key %s needs another character set' % f.name)
    for m in target:
        if m.get('rows') is None:
            continue
        t = out[m['n']]
        keep = row_key_map(t, t.rows)
        new = {}
        t2 = t.clone()
        t2.rows = {}
        for r in m['rows']:
            ex = keep.get(convert(t.col('id'), r['id']))
            try:
                full = {c.name: (ex[c.name] if ex is not None else None) for c in t.cols} if ex is not None else {}
                for k, v in r.items():
                    full[k] = v
                put_row(t2, full)
            except SqlError as e:
                raise Infeasible('%s rows: %s' % (m['n'], e))
        t.rows = t2.rows
    return out


def declared_columns(m):
    """{converted id: columns} for the declared rows of table model m."""
    t = build([dict(m, fks=[], rows=None)])[m['n']]
    return {convert(t.col('id'), r['id']): set(r) for r in m['rows'] or []}


def deep(x):
    return copy.deepcopy(x)
