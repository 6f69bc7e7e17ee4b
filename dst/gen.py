"""Seeded generation of schemas, their evolution, data, file layouts and application traffic."""
import copy
import random
import re

from decimal import Decimal

from . import model
from .values import SqlError
from .engine import Server

TABLES = ['users', 'user', 'roles', 'accounts', 'orders', 'order_items', 'items', 'logs', 'settings', 'teams', 'tags', 'a', 'ab',
          'statuses', 'countries', 'user_roles', 'Audit', 't1', 'parents', 'children', 'create_log', 'key_values', 'customer_subscription_preferences', 'supplier_reconciliation_statements']
COLS = ['name', 'title', 'status', 'email', 'code', 'amount', 'total', 'notes', 'is_active', 'kind', 'sort_order', 'created',
        'updated', 'score', 'name2', 'a', 'ab', 'ref', 'level', 'data_x', 'begins', 'price', 'flags', 'label', 'primary_name',
        'unsigned_x', 'users', 'default_role', 'not_before', 'constraint_x', 'references_x', 'Upper', 'unique_code', 'key_code', 'outstanding_reconciliation_reference']
WORDS = ['admin', 'user', 'guest', "o'hara", 'say "hi"', 'back\\slash', 'naïve', '日本', '', ' lead', 'a,b', '(x)', 'x;y', '100%', 'NULL',
         '-- no', '# hash', "it''s", '/* c */', 'tab\there', 'multi\nline', 'zz', '0', '007', '1.50', 'TRUE', '`tick`', '%s', '{}', 'é']
PLAINWORDS = ['admin', 'user', 'guest', 'alpha', 'beta', 'gamma', 'delta', 'x1', 'x2', 'long name here', 'zz']

INTS = ['int', 'int', 'int', 'bigint', 'smallint', 'mediumint', 'tinyint']
BITS = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'bigint': 64}


class Features:
    """Swarm: which parts of the dialect this scenario uses."""

    def __init__(self, rng, **force):
        r = rng.random
        self.text = r() < .7
        self.decimal = r() < .5
        self.dates = r() < .5
        self.enum = r() < .4
        self.floats = r() < .2
        self.charsets = r() < .15
        self.char = r() < .3
        self.json = r() < .15
        self.blob = r() < .15
        self.now = r() < .25
        self.bit = r() < .1
        self.tracked = r() < .5
        self.fks = r() < .8
        self.cycles = r() < .35
        self.selfref = r() < .35
        self.composite = r() < .35
        self.unique = r() < .6
        self.quotes = r() < .5
        self.bigpk = r() < .3
        self.nonid_pk = r() < .12
        self.fk_nonpk = r() < .2
        self.varchar_fk = r() < .15
        self.strnum = r() < .2
        self.opts = r() < .4
        self.fkname_idx = r() < .25
        self.twinfk = r() < .12
        self.autonames = r() < .3
        self.width = r() < .6
        self.idkind = pick(rng, ['auto'] * 8 + ['plain', 'text'])   # what the ids of tables are
        self.wild = r() < .3       # numbers at the ends of their range, JSON and dates as people write them
        self.sets = r() < .12
        self.binary = r() < .12
        self.bare = r() < .15      # CHAR and DECIMAL without a length
        self.toggle = r() < .3     # AUTO_INCREMENT comes and goes
        self.fsp = False   # refused by the schema checks: 'cannot have a length'
        for k, v in force.items():
            setattr(self, k, v)


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def word(rng, ft):
    return pick(rng, WORDS if ft.quotes else PLAINWORDS)


def gen_type(rng, ft):
    kinds = [('int', 5), ('varchar', 5)]
    if ft.text:
        kinds.append(('text', 2))
    if ft.decimal:
        kinds.append(('decimal', 3))
    if ft.dates:
        kinds.append(('date', 3))
    if ft.enum:
        kinds.append(('enum', 2))
    if ft.floats:
        kinds.append(('float', 1))
    if ft.char:
        kinds.append(('char', 2))
    if ft.json:
        kinds.append(('json', 1))
    if ft.blob:
        kinds.append(('blob', 1))
    if ft.bit:
        kinds.append(('bit', 1))
    if ft.sets:
        kinds.append(('set', 2))
    if ft.binary:
        kinds.append(('bin', 2))
    tot = sum(w for _, w in kinds)
    x = rng.randrange(tot)
    for k, w in kinds:
        if x < w:
            break
        x -= w
    c = {'null': rng.random() < .5}
    if k == 'int':
        c['t'] = pick(rng, INTS)
        if ft.width and rng.random() < .7:
            c['w'] = {'int': 10, 'bigint': 20, 'smallint': 5, 'mediumint': 8, 'tinyint': pick(rng, [1, 3, 4])}[c['t']]
            if c['t'] == 'tinyint' and c['w'] == 1:
                c['len'] = 1
                del c['w']
        c['uns'] = rng.random() < .4 and c.get('len') != 1
    elif k in ('varchar', 'char'):
        c['t'] = k
        c['len'] = pick(rng, [10, 20, 50, 100, 255]) if k == 'varchar' else pick(rng, [1, 2, 10, 36])
        if ft.charsets and rng.random() < .4:
            c['cs'], c['co'] = pick(rng, [('latin1', 'latin1_swedish_ci'), ('utf8mb4', 'utf8mb4_bin'), ('ascii', 'ascii_general_ci'),
                                          ('utf8mb4', 'utf8mb4_unicode_ci')])
            if c['cs'] != 'utf8mb4':
                c['ascii'] = 1
    elif k == 'text':
        c['t'] = pick(rng, ['text', 'text', 'mediumtext', 'longtext', 'tinytext'])
    elif k == 'blob':
        c['t'] = pick(rng, ['blob', 'mediumblob', 'longblob', 'tinyblob'])
    elif k == 'decimal':
        c['t'] = 'decimal'
        c['len'], c['dec'] = pick(rng, [(10, 2), (20, 2), (5, 3), (8, 0), (12, 4)])
        c['uns'] = rng.random() < .2
    elif k == 'date':
        c['t'] = pick(rng, ['date', 'datetime', 'datetime', 'timestamp', 'time', 'year'] if rng.random() < .6 else ['date', 'datetime'])
        if ft.fsp and c['t'] in ('datetime', 'timestamp', 'time') and rng.random() < .4:
            c['len'] = pick(rng, [3, 6])
        if c['t'] == 'timestamp':
            c['null'] = True
    elif k == 'enum':
        c['t'] = 'enum'
        c['vals'] = pick(rng, [['a', 'b'], ['on', 'off', 'auto'], ['new', 'in progress', 'done'], ['x', 'y', 'z'], ['1', '2'],
                               ['yes', 'no']])
    elif k == 'float':
        c['t'] = pick(rng, ['float', 'double'])
    elif k == 'json':
        c['t'] = 'json'
        c['null'] = True
    elif k == 'set':
        c['t'] = 'set'
        c['vals'] = pick(rng, [['a', 'b', 'c'], ['read', 'write'], ['1', '2', '4'], ['x']])
    elif k == 'bin':
        c['t'] = pick(rng, ['binary', 'varbinary'])
        c['len'] = pick(rng, [8, 16, 20])
    elif k == 'bit':
        c['t'] = 'bit'
        c['len'] = 1   # a longer one is refused by the schema checks
    if ft.bare and rng.random() < .5:
        if k == 'char' and c['t'] == 'char':
            c.update(len=1, nolen=1)
        if k == 'decimal':
            c.update(len=10, dec=0, nolen=1)
    gen_default(rng, ft, c)
    return c


def gen_default(rng, ft, c):
    c.pop('def', None)
    t = c['t']
    if t in ('text', 'mediumtext', 'longtext', 'tinytext', 'blob', 'mediumblob', 'longblob', 'tinyblob', 'json', 'bit'):
        return
    x = rng.random()
    if x < .35:
        return
    if c['null'] and x < .6:
        c['def'] = ['null']
        return
    v = None
    if t in INTS:
        v = pick(rng, [0, 1, 5, 100])
    elif t in ('varchar', 'char'):
        v = pick(rng, ['', 'x', 'none'] + (['0', '7', '007', '1.5'] if ft.strnum else []) + (["it's", 'NULL', 'a b', 'a,b', '(z)'] if ft.quotes else []))
        v = v[:c['len']]
        if t == 'char':
            v = v.rstrip()
    elif t == 'decimal':
        v = '%.*f' % (c['dec'], pick(rng, [0, 1, 9.5])) if c['dec'] else pick(rng, ['0', '5'])
        v = '%.*f' % (c['dec'], float(v))
        if rng.random() < .3:
            c['rawdef'] = 1
    elif t in ('float', 'double'):
        v = pick(rng, [0, 1])
    elif t == 'date':
        v = pick(rng, ['2020-01-01', '1999-12-31'])
    elif t in ('datetime', 'timestamp'):
        if ft.now and rng.random() < .6:
            c['def'] = ['now', c.get('len') or 0]
            return
        v = '2020-01-01 00:00:00' + ('.' + '0' * c['len'] if c.get('len') else '')
    elif t == 'time':
        v = '10:00:00' + ('.' + '0' * c['len'] if c.get('len') else '')
    elif t == 'year':
        v = '2020'
    elif t == 'enum':
        v = pick(rng, c['vals'])
    elif t == 'set':
        v = pick(rng, c['vals'] + [''])
    elif t == 'varbinary':
        v = pick(rng, ['', 'x', 'none'])
    if v is not None:
        c['def'] = ['v', v]


def gen_value(rng, ft, c, i=0, uniq=False):
    t = c['t']
    if uniq and rng.random() < .6 and t in ('varchar', 'char', 'decimal', 'date', 'datetime', 'varbinary', 'binary'):
        return key_value(c, i)
    if c.get('null', True) and not uniq and rng.random() < .25:
        return None
    if ft.wild and not uniq and not c.get('auto') and rng.random() < .5:
        v = wild_value(rng, c)
        if v is not None:
            return v
    if t in ('tinyint',):
        return (i % 100) if uniq else rng.randrange(0, 100)
    if t in INTS:
        return i * 7 + 3 if uniq else rng.randrange(0, 20000) if t == 'smallint' else rng.randrange(0, 100000) * pick(rng, [1, 1, 0])
    if t in ('varchar', 'char'):
        w = word(rng, ft)
        if c.get('ascii'):
            w = w.encode('ascii', 'ignore').decode()
        if uniq:
            w = ('k%d' % i) + (w if rng.random() < .3 else '')
        w = w[:c['len']]
        return w.rstrip(' ') if t == 'char' and not ft.wild or uniq else w
    if t in ('text', 'mediumtext', 'longtext', 'tinytext'):
        return word(rng, ft) + (' ' + word(rng, ft) if rng.random() < .5 else '')
    if t in ('blob', 'mediumblob', 'longblob', 'tinyblob'):
        return pick(rng, PLAINWORDS)
    if t == 'decimal':
        return '%.*f' % (c['dec'], rng.randrange(0, 1000) / 10 ** min(c['dec'], 2))  if c['dec'] else str(rng.randrange(1000))
    if t in ('float', 'double'):
        return pick(rng, [0.5, 1.25, 3, 100])
    if t == 'date':
        return '20%02d-%02d-%02d' % (rng.randrange(100), rng.randrange(1, 13), rng.randrange(1, 29))
    if t in ('datetime', 'timestamp'):
        return '20%02d-%02d-%02d %02d:%02d:%02d' % (rng.randrange(0, 30), rng.randrange(1, 13), rng.randrange(1, 29),
                                                    rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if t == 'time':
        return '%s%02d:%02d:%02d' % (pick(rng, ['', '', '-']), pick(rng, [rng.randrange(24), rng.randrange(24), 26, 120, 837]), rng.randrange(60), rng.randrange(60))
    if t == 'year':
        return str(rng.randrange(1990, 2030))
    if t == 'enum':
        return pick(rng, c['vals'])
    if t == 'json':
        return pick(rng, ['{"a": 1}', '[1, 2]', '"s"'])
    if t == 'set':
        got = [x for x in c['vals'] if rng.random() < .5]
        if ft.wild:
            rng.shuffle(got)
        return ','.join(got)
    if t in ('binary', 'varbinary'):
        w = ('k%d' % i) if uniq else pick(rng, PLAINWORDS)
        return w[:c['len']] if t == 'varbinary' else (w + '0' * c['len'])[:c['len']]
    if t == 'bit':
        return rng.randrange(2)
    raise ValueError(t)


def wild_value(rng, c):
    """A value near the ends of what the column holds, or one written in another way than the server prints it."""
    t = c['t']
    if t in INTS and c.get('len') != 1:
        bits = BITS[t]
        if c.get('uns'):
            return pick(rng, [0, 1, 2 ** bits - 1, 2 ** bits - 2, 2 ** (bits - 1), 2 ** (bits - 1) + 1])
        return pick(rng, [0, -1, -2 ** (bits - 1), 2 ** (bits - 1) - 1, 2 ** (bits - 1) - 2, -7])
    if t == 'decimal':
        k = c['len'] - c['dec']
        whole = pick(rng, ['9' * k, '1' + '0' * (k - 1), '9' * (k - 1) + '8', '0']) if k > 0 else '0'
        frac = pick(rng, ['9' * c['dec'], '0' * c['dec'], '0' * (c['dec'] - 1) + '1' if c['dec'] else '', '5' + '0' * (c['dec'] - 1) if c['dec'] else ''])
        v = whole + ('.' + frac if frac else '')
        return ('-' if not c.get('uns') and rng.random() < .3 and v.strip('0.') else '') + v
    if t in ('float', 'double') and not c.get('uns'):
        return pick(rng, [-0.5, -3, 1e-05, 1e+20, 0, -1.25] + ([0.1, 1234567.891, 1e-300, 123456789012345680] if t == 'double' else []))
    if t == 'json':
        return pick(rng, ['{"a":1}', '{ "b" : [1,2] , "a" : null }', '[]', '{"k": "it\'s"}', '"x"', 'null', '[1,2]', '{"a": {"b": "c d"}}', '1.5', 'true',
                          '{"u": "é"}', '"q\\"q"'])
    return None


def nudge(rng, ft, c, v):
    """A value that is nearly v: what a sloppy comparison takes for the same."""
    t = c['t']
    null = c.get('null', True)
    if v is None:
        z = {'decimal': '0' if not c.get('dec') else '%.*f' % (c['dec'], 0), 'float': 0, 'double': 0, 'date': '2000-01-01',
             'datetime': '2000-01-01 00:00:00', 'timestamp': '2000-01-01 00:00:01', 'time': '00:00:00', 'year': '2000', 'json': '{}'}
        if t in INTS or t == 'bit':
            return 0
        if t == 'enum':
            return c['vals'][0]
        return z.get(t, pick(rng, ['', 'NULL', '0', 'null', 'None'])[:c.get('len') or 9])
    if null and rng.random() < .15:
        return None
    if t in INTS:
        top = 2 ** BITS[t] - 1 if c.get('uns') else 2 ** (BITS[t] - 1) - 1
        return pick(rng, [-v] if not c.get('uns') and 0 < v < 100 and rng.random() < .2 else [v + 1]) if v < 100 or ft.wild and v < top and rng.random() < .5 else v - 1
    if t == 'set':
        return pick(rng, [','.join(c['vals']), c['vals'][0], ''])
    if t in ('varchar', 'char', 'text', 'mediumtext', 'longtext', 'tinytext'):
        w = pick(rng, [v + ' ', ' ' + v, v.swapcase(), v.upper(), v + '.', v[:-1], v.replace(' ', '  '), v + '0', '0' + v, v + '.0', v.strip(), v + '\n',
                       v + "'", '\\' + v, v.replace("'", ''), v + '\t', v + ';', '', v + '%', v.title()])
        if c.get('ascii'):
            w = w.encode('ascii', 'ignore').decode()
        w = w[:c['len']] if c.get('len') else w
        return w.rstrip(' ') if t == 'char' else w
    if t == 'decimal' and c['dec']:
        step = Decimal(1).scaleb(-c['dec'])
        d = Decimal(v) + (step if Decimal(v) < 10 ** (c['len'] - c['dec']) - step else -step)
        return format(d, 'f')
    if t in ('float', 'double'):
        return pick(rng, [0.25, 0.5, 1, 1.25, 3, 100])
    if t in ('date', 'datetime', 'timestamp'):
        return v[:-2] + '%02d' % (int(v[-2:]) % 28 + 1)
    if t == 'time':
        return v[1:] if v[0] == '-' else v[:-1] + str((int(v[-1]) + 1) % 10)
    if t == 'year':
        return str(int(v) + 1)
    return gen_value(rng, ft, c, 1, False)


def id_col(rng, ft, tname):
    if ft.idkind == 'text' and rng.random() < .7:
        c = {'n': 'id', 't': pick(rng, ['varchar', 'char']), 'len': pick(rng, [10, 36, 40]), 'null': False, 'idk': pick(rng, ['%d', 'k%d', 'A-%d', '%03d', "o'%d"])}
        return c
    if ft.idkind == 'plain' and rng.random() < .7:
        c = {'n': 'id', 't': pick(rng, ['int', 'bigint', 'smallint', 'tinyint']), 'null': False, 'uns': rng.random() < .4}
        c['ido'] = 0 if c['uns'] else pick(rng, [0, -1, -3])
        c['ido'] += pick(rng, [-1, 0, 0]) if not c['uns'] else pick(rng, [-1, 0])
        return c
    t = pick(rng, ['int', 'int', 'bigint', 'mediumint']) if ft.bigpk else 'int'
    c = {'n': 'id', 't': t, 'null': False, 'uns': rng.random() < .7, 'auto': True}
    if ft.width:
        c['w'] = {'int': 10, 'bigint': 20, 'mediumint': 8}[t]
    return c


def new_col_name(rng, m, extra=()):
    used = {c['n'].lower() for c in m['cols']} | {x.lower() for x in extra}
    for _ in range(50):
        n = pick(rng, COLS)
        if n.lower() not in used:
            return n
    k = 1
    while 'c%d' % k in used:
        k += 1
    return 'c%d' % k


def indexable(c):
    return c['t'] not in ('text', 'mediumtext', 'longtext', 'tinytext', 'blob', 'mediumblob', 'longblob', 'tinyblob', 'json')


def idx_used(m, name):
    return any(i['n'].lower() == name.lower() for i in m['idx'])


def gen_table(rng, ft, name):
    m = {'n': name, 'cols': [], 'idx': [], 'fks': []}
    if not ft.nonid_pk or rng.random() < .7:
        m['cols'].append(id_col(rng, ft, name))
        m['idx'].append({'n': '', 't': 'PRIMARY', 'c': ['id']})
    for _ in range(rng.randrange(0, 5) + (0 if m['cols'] else 1)):
        c = gen_type(rng, ft)
        c['n'] = new_col_name(rng, m)
        m['cols'].append(c)
    if not m['idx']:
        c = [c for c in m['cols'] if indexable(c) and c['t'] not in ('json', 'bit')]
        if c:
            for x in c[:1]:
                x['null'] = False
                if x.get('def') == ['null']:
                    del x['def']
            m['idx'].append({'n': '', 't': 'PRIMARY', 'c': [c[0]['n']]})
    for _ in range(rng.randrange(0, 3)):
        add_index(rng, ft, m)
    if ft.opts and rng.random() < .6:
        m['opts'] = {'ENGINE': 'InnoDB', 'CHARSET': pick(rng, ['utf8mb4', 'utf8mb4', 'utf8'])}
        if rng.random() < .4:
            m['opts']['COLLATE'] = {'utf8mb4': 'utf8mb4_unicode_ci', 'utf8': 'utf8_unicode_ci'}[m['opts']['CHARSET']]
    return m


def add_index(rng, ft, m):
    cand = [c for c in m['cols'] if indexable(c) and c['n'] != 'id' and c['t'] != 'bit']
    if not cand:
        return False
    n = 2 if ft.composite and len(cand) > 1 and rng.random() < .5 else 1
    cols = [c['n'] for c in rng.sample(cand, n)]
    if sum(c.get('len') or 8 for c in cand if c['n'] in cols) > 700:
        return False
    t = 'UNIQUE' if ft.unique and rng.random() < .35 else 'INDEX'
    if any(i['c'] == cols and i['t'] == t for i in m['idx']):
        return False
    name = pick(rng, [cols[0], '_'.join(cols), 'idx_' + '_'.join(cols), cols[0] + '_idx', '_'.join(cols)[:20] + '_k'])[:64]
    if idx_used(m, name):
        name = 'ix%d_%s' % (len(m['idx']), cols[0])
        if idx_used(m, name):
            return False
    m['idx'].append({'n': name, 't': t, 'c': cols})
    return True


def find(schema, name):
    for m in schema:
        if m['n'] == name:
            return m
    return None


def col(m, name):
    for c in m['cols']:
        if c['n'] == name:
            return c
    return None


def fk_names(schema):
    return {f['n'].lower() for m in schema for f in m['fks']}


def like(c):
    """Attributes that must agree between a foreign key column and what it references."""
    return {k: copy.deepcopy(c[k]) for k in ('t', 'len', 'dec', 'uns', 'w', 'cs', 'co', 'ascii', 'idk', 'ido', 'nolen') if k in c}


def add_fk(rng, ft, schema, m, parent):
    pcols = [c for c in parent['cols'] if c['n'] == 'id' and (c.get('auto') or any(i['c'][0] == 'id' for i in parent['idx']))]
    if ft.fk_nonpk:
        uq = [i for i in parent['idx'] if i['t'] in ('UNIQUE', 'INDEX') and len(i['c']) == 1]
        for i in uq:
            c = col(parent, i['c'][0])
            if c['t'] in INTS and c.get('len') is None or (ft.varchar_fk and c['t'] == 'varchar' and not c.get('cs')) or \
                    ft.varchar_fk and c['t'] in ('decimal', 'date', 'datetime', 'varbinary', 'char', 'varchar'):
                pcols.append(c)
    if not pcols:
        return False
    pc = pick(rng, pcols)
    if pc['t'] in ('varchar', 'char') and (parent.get('opts') or {}) != (m.get('opts') or {}):
        return False
    base = ('%s_%s' % (parent['n'].rstrip('s').lower(), pc['n']))[:58]
    n = base
    k = 2
    while col(m, n) is not None or any(c['n'].lower() == n.lower() for c in m['cols']):
        n = '%s%d' % (base, k)
        k += 1
    c = dict(like(pc), n=n, null=rng.random() < .6)
    if c['null'] and rng.random() < .5:
        c['def'] = ['null']
    m['cols'].append(c)
    fn = pick(rng, ['%s_%s_fk' % (m['n'], n), '%s_%s_%s_fk' % (m['n'], n, parent['n']), 'fk_%s_%s' % (m['n'], n)])[:64]
    if ft.autonames and rng.random() < .4:
        fn = '%s_ibfk_%d' % (m['n'], len(m['fks']) + 1)
    while fn.lower() in fk_names(schema + [m]):
        fn = fn[:50] + '2' if len(fn) > 60 else fn + '2'
    iname = n if rng.random() < .5 else n + '_idx'
    if ft.fkname_idx and rng.random() < .6:
        iname = fn
    if rng.random() < .85 or True:
        m['idx'].append({'n': iname, 't': 'INDEX', 'c': [n]})
    acts = [None, 'CASCADE', 'RESTRICT', 'NO ACTION'] + (['SET NULL', 'SET NULL'] if c['null'] else [])
    m['fks'].append({'n': fn, 'c': n, 'rt': parent['n'], 'rc': pc['n'], 'od': pick(rng, acts), 'ou': pick(rng, [None, 'CASCADE', 'CASCADE', 'RESTRICT'])})
    return True


def gen_schema(rng, ft, n=None):
    n = n or rng.randrange(1, 6)
    names = rng.sample(TABLES, n)
    low = set()
    schema = []
    for x in names:
        if x.lower() in low:
            continue
        low.add(x.lower())
        schema.append(gen_table(rng, ft, x))
    if ft.fks:
        for i, m in enumerate(schema):
            for p in schema[:i]:
                if rng.random() < .45:
                    add_fk(rng, ft, schema, m, p)
            if ft.selfref and rng.random() < .3:
                add_fk(rng, ft, schema, m, m)
        if ft.cycles and len(schema) > 1:
            for _ in range(rng.randrange(1, 3)):
                a, b = rng.sample(schema, 2)
                add_fk(rng, ft, schema, a, b)
        if ft.twinfk:
            for _ in range(rng.randrange(1, 3)):
                m_fk_dup(rng, ft, schema)
    if ft.tracked:
        for m in schema:
            if rng.random() < .5:
                gen_rows(rng, ft, m, schema)
    rng.shuffle(schema)
    return schema


def uniq_cols(m):
    return {c for i in m['idx'] if i['t'] in ('UNIQUE',) for c in i['c']}


def trackable(m):
    return col(m, 'id') is not None and any(i['t'] == 'PRIMARY' and i['c'] == ['id'] for i in m['idx'])


def rownum(r):
    """The number behind the id of a row."""
    return int(re.sub(r'\D', '', str(r['id'])) or 0)


def id_value(m, i):
    c = col(m, 'id')
    if c is None or 'idk' not in c and 'ido' not in c:
        return i
    return i + c['ido'] if 'ido' in c else c['idk'] % i


def key_value(c, i):
    """What a unique column that others refer to holds in row i."""
    t = c['t']
    if t in INTS:
        return i % 100 if t == 'tinyint' else i * 7 + 3
    if t in ('varchar', 'char'):
        return ('k%d' % i)[:c.get('len') or 9]
    if t == 'decimal':
        return format(Decimal(i) * Decimal(1).scaleb(-min(c['dec'], 1)), '.%df' % c['dec'])
    if t in ('binary', 'varbinary'):
        return ('k%d' % i) if t == 'varbinary' else ('k%d' % i + '0' * c['len'])[:c['len']]
    if t == 'date':
        return '2020-01-%02d' % (i % 28 + 1)
    if t in ('datetime', 'timestamp'):
        return '2020-01-%02d 10:00:00' % (i % 28 + 1)
    return i


def fk_value(schema, m, f, i):
    """What the foreign key column holds to refer to row i of the other table."""
    if f['rc'] == 'id':
        p = m if f['rt'] == m['n'] else find(schema, f['rt']) if schema else None
        if p is not None:
            return id_value(p, i)
        c = col(m, f['c'])
        return i if 'idk' not in c and 'ido' not in c else id_value({'cols': [dict(c, n='id')]}, i)
    return key_value(col(m, f['c']), i)


def one_row(rng, ft, m, i, used=None, cols=None):
    row = {'id': id_value(m, i)}
    u = uniq_cols(m)
    fkc = {f['c']: f for f in m['fks']}
    for c in m['cols']:
        if c['n'] == 'id':
            continue
        if cols is not None and c['n'] not in cols:
            continue
        if c['n'] in fkc:
            row[c['n']] = None if c.get('null', True) and c['n'] not in u and rng.random() < .7 else fk_value(None, m, fkc[c['n']], i)
            continue
        row[c['n']] = gen_value(rng, ft, c, i, c['n'] in u)
    return row


def gen_rows(rng, ft, m, schema=None):
    if not trackable(m):
        return
    ids = sorted(rng.sample(range(1, 12), rng.randrange(1, 5)))
    u = uniq_cols(m)
    cols = None
    if rng.random() < .25:
        cols = {c['n'] for c in m['cols'] if (c['n'] in u) or (not c.get('null', True) and c.get('def') is None) or rng.random() < .5}
    m['rows'] = [one_row(rng, ft, m, i, cols=cols) for i in ids]
    if not any(len(r) > 1 for r in m['rows']) and len(m['cols']) > 1:
        m['rows'] = [one_row(rng, ft, m, i) for i in ids]


def gen_data(rng, ft, m, n=None):
    """Application rows of an untracked live table."""
    n = rng.randrange(0, 5) if n is None else n
    rows = []
    pk = [i for i in m['idx'] if i['t'] == 'PRIMARY']
    for k in range(1, n + 1):
        r = {}
        u = uniq_cols(m) | set(pk[0]['c'] if pk else ())
        fkc = {f['c']: f for f in m['fks']}
        for c in m['cols']:
            if c['n'] in fkc:
                if c.get('null', True) and c['n'] not in u and rng.random() < .4:
                    r[c['n']] = None
                else:
                    r[c['n']] = fk_value(None, m, fkc[c['n']], k)
            elif c['n'] == 'id':
                r['id'] = id_value(m, k)
            else:
                r[c['n']] = gen_value(rng, ft, c, k, c['n'] in u)
        rows.append(r)
    m['data'] = rows


# ------------------------------------------------------------------------------ evolution
def refs_to(schema, tname, cname=None):
    return [(m, f) for m in schema for f in m['fks'] if f['rt'] == tname and (cname is None or f['rc'] == cname)]


def drop_column(m, name, schema):
    m['cols'] = [c for c in m['cols'] if c['n'] != name]
    m['idx'] = [dict(i, c=[c for c in i['c'] if c != name]) for i in m['idx']]
    m['idx'] = [i for i in m['idx'] if i['c']]
    seen = []
    keep = []
    for i in m['idx']:
        k = (i['t'], tuple(i['c']))
        if k in seen:
            continue
        seen.append(k)
        keep.append(i)
    m['idx'] = keep
    m['fks'] = [f for f in m['fks'] if f['c'] != name]
    for r in m.get('rows') or []:
        r.pop(name, None)
    for x in schema:
        x['fks'] = [f for f in x['fks'] if not (f['rt'] == m['n'] and f['rc'] == name)]
    fix_fk_indexes(schema)


def fix_fk_indexes(schema):
    """Every foreign key column and referenced column keeps an index that starts with it."""
    for m in schema:
        for f in m['fks']:
            if not any(i['c'][0] == f['c'] for i in m['idx']):
                n = f['c']
                while idx_used(m, n):
                    n += '_x'
                m['idx'].append({'n': n, 't': 'INDEX', 'c': [f['c']]})
            p = find(schema, f['rt'])
            if p is not None and not any(i['c'][0] == f['rc'] for i in p['idx']):
                n = f['rc']
                while idx_used(p, n):
                    n += '_x'
                p['idx'].append({'n': n, 't': 'INDEX', 'c': [f['rc']]})


def mutate(rng, ft, schema, n=None, only=None):
    s = copy.deepcopy(schema)
    for m in s:
        m.pop('data', None)
    n = pick(rng, [1, 1, 2, 2, 3, 4, 6]) if n is None else n
    ops = only or ['add_table', 'drop_table', 'add_col', 'add_col', 'drop_col', 'mod_col', 'mod_col', 'retype_pk', 'retype_pk', 'add_index',
                   'drop_index', 'chg_index', 'add_fk', 'add_fk', 'drop_fk', 'fk_act', 'fk_rename', 'fk_retarget', 'rows', 'rows',
                   'track', 'rename_table', 'rename_col', 'rename_index', 'fk_move', 'pk_change', 'untrack', 'optchange',
                   'idx_swap', 'idx_swap', 'fk_dup', 'fk_dup', 'col_order'] + ['auto'] * (2 if ft.toggle else 0)
    if only is None and rng.random() < .3:
        # few kinds of changes, but more of each: rare kinds meet
        ops = rng.sample(sorted(set(ops)), rng.randrange(2, 6))
        n = n and n + 2
    done = []
    tries = 0
    while len(done) < n and tries < 60:
        tries += 1
        op = pick(rng, ops) if s else 'add_table'
        if globals()['m_' + op](rng, ft, s):
            done.append(op)
    return s, done


def m_add_table(rng, ft, s):
    names = [x for x in TABLES if x.lower() not in {m['n'].lower() for m in s}]
    if not names or len(s) > 7:
        return False
    m = gen_table(rng, ft, pick(rng, names))
    s.append(m)
    if ft.fks and len(s) > 1:
        for _ in range(rng.randrange(0, 3)):
            o = pick(rng, s)
            if rng.random() < .6:
                add_fk(rng, ft, s, m, o)
            else:
                add_fk(rng, ft, s, o, m)
    if ft.tracked and rng.random() < .5:
        gen_rows(rng, ft, m)
    return True


def m_drop_table(rng, ft, s):
    if len(s) < 2:
        return False
    m = pick(rng, s)
    s.remove(m)
    for x in s:
        x['fks'] = [f for f in x['fks'] if f['rt'] != m['n']]
    return True


def m_add_col(rng, ft, s):
    m = pick(rng, s)
    c = gen_type(rng, ft)
    c['n'] = new_col_name(rng, m)
    m['cols'].insert(rng.randrange(len(m['cols']) + 1), c)
    for r in m.get('rows') or []:
        if rng.random() < .8:
            r[c['n']] = gen_value(rng, ft, c, rownum(r), False)
    if m.get('rows') and c.get('def') is None and not c.get('null', True):
        for r in m['rows']:
            if c['n'] not in r:
                r[c['n']] = gen_value(rng, ft, c, rownum(r), False)
    uniform(m)
    return True


def uniform(m):
    """Rows give the same columns (an INSERT list); keep simple but not always."""
    pass


def m_drop_col(rng, ft, s):
    m = pick(rng, s)
    cand = [c['n'] for c in m['cols'] if c['n'] != 'id' and not any(i['t'] == 'PRIMARY' and c['n'] in i['c'] for i in m['idx'])]
    if not cand or len(m['cols']) < 2:
        return False
    drop_column(m, pick(rng, cand), s)
    return True


def involved(s, m, name):
    return any(f['c'] == name for f in m['fks']) or bool(refs_to(s, m['n'], name)) or \
        any(i['t'] == 'PRIMARY' and name in i['c'] for i in m['idx'])


def m_mod_col(rng, ft, s):
    m = pick(rng, s)
    cand = [c for c in m['cols'] if not involved(s, m, c['n'])]
    if not cand:
        return False
    c = pick(rng, cand)
    k = rng.random()
    n = c['n']
    if k < .25:
        gen_default(rng, ft, c)
    elif k < .4:
        c['null'] = not c.get('null', True)
        if not c['null'] and c.get('def') == ['null']:
            del c['def']
        if not c['null'] and any(r.get(n, 1) is None for r in m.get('rows') or []):
            c['null'] = True
            return False
    elif k < .7 and c['t'] in ('varchar', 'char'):
        c['len'] = c['len'] + pick(rng, [10, 50, 100]) if c['t'] == 'varchar' else c['len'] + 5
        c.pop('nolen', None)
    elif k < .7 and c['t'] in INTS and not c.get('len'):
        c['t'] = {'tinyint': 'int', 'smallint': 'int', 'mediumint': 'bigint', 'int': 'bigint', 'bigint': 'bigint'}[c['t']]
        c.pop('w', None)
        if ft.width:
            c['w'] = {'int': 10, 'bigint': 20}[c['t']]
    elif k < .7 and c['t'] in ('enum', 'set'):
        c['vals'] = c['vals'] + ['extra']
    elif k < .7 and c['t'] == 'decimal':
        c['len'] += 2
        c.pop('nolen', None)
    else:
        if any(n in i['c'] for i in m['idx']) or any(n in r for r in m.get('rows') or []):
            return False
        new = gen_type(rng, ft)
        c.clear()
        c.update(new, n=n)
    c.pop('rawdef', None)
    return True


def m_retype_pk(rng, ft, s):
    """Change the type of a referenced column together with everything that references it."""
    cand = [(m, c) for m in s for c in m['cols'] if refs_to(s, m['n'], c['n']) and c['t'] in INTS]
    if not cand:
        return False
    m, c = pick(rng, cand)
    todo, seen = [(m['n'], c['n'])], set()
    if rng.random() < .4 and not c.get('auto'):
        return False
    ch = rng.random()
    newt = {'int': 'bigint', 'bigint': 'int', 'mediumint': 'int', 'smallint': 'int', 'tinyint': 'int'}[c['t']]
    uns = not c.get('uns') if ch < .5 else c.get('uns')
    if ch >= .3:
        t = newt
    else:
        t = c['t']
    while todo:
        tn, cn = todo.pop()
        if (tn, cn) in seen:
            continue
        seen.add((tn, cn))
        x = find(s, tn)
        y = col(x, cn)
        y['t'], y['uns'] = t, uns
        y.pop('w', None)
        y.pop('len', None)
        if ft.width:
            y['w'] = {'int': 10, 'bigint': 20, 'mediumint': 8, 'smallint': 5, 'tinyint': 3}[t]
        for z, f in refs_to(s, tn, cn):
            todo.append((z['n'], f['c']))
        for f in x['fks']:
            if f['c'] == cn:
                todo.append((f['rt'], f['rc']))
    return True


def m_auto(rng, ft, s):
    m = pick(rng, s)
    c = col(m, 'id')
    if c is None or c['t'] not in INTS or not any(i['t'] == 'PRIMARY' and i['c'][0] == 'id' for i in m['idx']):
        return False
    if c.get('ido', 0) != 0:
        return False   # a declared id of 0 is a known finding, and the server gives such rows another id
    c['auto'] = not c.get('auto')
    c.pop('def', None)
    if not c['auto']:
        del c['auto']
    return True


def m_add_index(rng, ft, s):
    return add_index(rng, ft, pick(rng, s))


def m_drop_index(rng, ft, s):
    m = pick(rng, s)
    cand = [i for i in m['idx'] if i['t'] != 'PRIMARY']
    if not cand:
        return False
    m['idx'].remove(pick(rng, cand))
    fix_fk_indexes(s)
    return True


def m_chg_index(rng, ft, s):
    m = pick(rng, s)
    cand = [i for i in m['idx'] if i['t'] != 'PRIMARY' and not any(f['n'] == i['n'] for f in m['fks'])]
    if not cand:
        return False
    i = pick(rng, cand)
    if len(i['c']) > 1 and rng.random() < .6:
        i['c'] = i['c'][::-1]
        fix_fk_indexes(s)
        return True
    others = [c['n'] for c in m['cols'] if indexable(c) and c['n'] not in i['c'] and c['t'] != 'bit' and (c.get('len') or 0) < 300]
    if others and rng.random() < .6:
        i['c'] = i['c'] + [pick(rng, others)] if len(i['c']) < 2 else i['c'][:1]
    elif i['t'] == 'INDEX' and ft.unique and not m.get('rows'):
        i['t'] = 'UNIQUE'
    elif i['t'] == 'UNIQUE':
        i['t'] = 'INDEX'
    else:
        return False
    fix_fk_indexes(s)
    return True


def m_rename_index(rng, ft, s):
    m = pick(rng, s)
    cand = [i for i in m['idx'] if i['t'] != 'PRIMARY']
    if not cand:
        return False
    i = pick(rng, cand)
    n = i['n'] + '_r' if len(i['n']) < 40 else i['n'][:20]
    if idx_used(m, n):
        return False
    i['n'] = n
    return True


def m_idx_swap(rng, ft, s):
    """Another index takes the place of one: other name, other kind, more or fewer columns."""
    m = pick(rng, s)
    cand = [i for i in m['idx'] if i['t'] != 'PRIMARY']
    if not cand:
        return False
    fkc = {f['c'] for f in m['fks']}
    i = pick(rng, [i for i in cand if i['c'][0] in fkc] or cand)
    new = {'n': i['n'], 't': i['t'], 'c': list(i['c'])}
    others = [c['n'] for c in m['cols'] if indexable(c) and c['n'] not in i['c'] and c['t'] != 'bit' and (c.get('len') or 0) < 200]
    k = rng.random()
    if k < .4 and others:
        new['c'] = i['c'][:1] + [pick(rng, others)]
    elif k < .55 and len(i['c']) > 1:
        new['c'] = i['c'][:1]
    elif i['t'] == 'UNIQUE':
        new['t'] = 'INDEX'
    elif not m.get('rows') and ft.unique:
        new['t'] = 'UNIQUE'
    else:
        return False
    new['n'] = pick(rng, [i['n'], '_'.join(new['c'])[:50] + '_x', new['c'][0] + '_swap'] + [f['n'] for f in m['fks'] if f['c'] == new['c'][0]])
    if any(j is not i and (j['n'].lower() == new['n'].lower() or (j['c'] == new['c'] and j['t'] == new['t'])) for j in m['idx']):
        return False
    m['idx'][m['idx'].index(i)] = new
    fix_fk_indexes(s)
    return True


def m_fk_dup(rng, ft, s):
    """A second foreign key with the same column and reference, or one of two such goes away."""
    cand = [(m, f) for m in s for f in m['fks']]
    if not cand:
        return False
    two = [(m, f) for m, f in cand if any(g is not f and (g['c'], g['rt'], g['rc']) == (f['c'], f['rt'], f['rc']) for g in m['fks'])]
    if two and rng.random() < .6:
        m, f = pick(rng, two)
        m['fks'].remove(f)
        return True
    m, f = pick(rng, cand)
    g = dict(f, n='%s_ibfk_%d' % (m['n'], 7 + len(m['fks'])))
    if rng.random() < .3:
        g['ou'] = pick(rng, [None, 'CASCADE'])
    if g['n'].lower() in fk_names(s) or sum(x['c'] == f['c'] for x in m['fks']) > 2:
        return False
    m['fks'].append(g)
    return True


def m_col_order(rng, ft, s):
    m = pick(rng, s)
    if len(m['cols']) < 3:
        return False
    c = m['cols'].pop(rng.randrange(len(m['cols'])))
    m['cols'].insert(rng.randrange(len(m['cols']) + 1), c)
    return True


def m_add_fk(rng, ft, s):
    if not ft.fks:
        return False
    a, b = pick(rng, s), pick(rng, s)
    if (a is b and not ft.selfref) or len(a['fks']) > 4:
        return False
    if rng.random() < .3:
        # on an existing column
        for pc in b['cols']:
            if pc['n'] == 'id' and pc.get('auto'):
                for c in a['cols']:
                    if c['n'] != 'id' and like(c) == like(pc) and not any(f['c'] == c['n'] for f in a['fks']):
                        fn = ('late_%s_%s' % (a['n'], c['n']))[:64]
                        if fn in fk_names(s):
                            continue
                        a['fks'].append({'n': fn, 'c': c['n'], 'rt': b['n'], 'rc': 'id', 'od': None, 'ou': 'CASCADE'})
                        fix_fk_indexes(s)
                        return True
    if not add_fk(rng, ft, s, a, b):
        return False
    f = a['fks'][-1]
    c = col(a, f['c'])
    for r in a.get('rows') or []:
        r[c['n']] = None if c.get('null', True) else fk_value(s, a, f, rownum(r))
    return True


def m_drop_fk(rng, ft, s):
    cand = [(m, f) for m in s for f in m['fks']]
    if not cand:
        return False
    m, f = pick(rng, cand)
    m['fks'].remove(f)
    k = rng.random()
    if k < .35:
        drop_column(m, f['c'], s)
    elif k < .6:
        m['idx'] = [i for i in m['idx'] if not (i['t'] == 'INDEX' and i['c'] == [f['c']])]
        fix_fk_indexes(s)
    return True


def m_fk_act(rng, ft, s):
    cand = [(m, f) for m in s for f in m['fks']]
    if not cand:
        return False
    m, f = pick(rng, cand)
    acts = [None, 'CASCADE', 'RESTRICT'] + (['SET NULL'] if col(m, f['c']).get('null', True) else [])
    old = (f['od'], f['ou'])
    f['od'], f['ou'] = pick(rng, acts), pick(rng, [None, 'CASCADE', 'RESTRICT'])
    return (f['od'], f['ou']) != old


def m_fk_rename(rng, ft, s):
    cand = [(m, f) for m in s for f in m['fks']]
    if not cand:
        return False
    m, f = pick(rng, cand)
    n = f['n'] + '_v2'
    if n.lower() in fk_names(s) or len(n) > 60:
        return False
    f['n'] = n
    return True


def m_fk_retarget(rng, ft, s):
    cand = [(m, f) for m in s for f in m['fks']]
    if not cand:
        return False
    m, f = pick(rng, cand)
    c = col(m, f['c'])
    opts = [p for p in s if p['n'] != f['rt'] and col(p, 'id') is not None and like(col(p, 'id')) == like(c) and
            any(i['c'][0] == 'id' for i in p['idx'])]
    if not opts:
        return False
    f['rt'], f['rc'] = pick(rng, opts)['n'], 'id'
    return True


def m_fk_move(rng, ft, s):
    """A foreign key name moves to another table or column."""
    cand = [(m, f) for m in s for f in m['fks']]
    if len(cand) < 1 or len(s) < 2:
        return False
    m, f = pick(rng, cand)
    o = pick(rng, [x for x in s if x is not m])
    p = find(s, f['rt'])
    m['fks'].remove(f)
    if not add_fk(rng, ft, s, o, p):
        m['fks'].append(f)
        return False
    g = o['fks'][-1]
    g['n'] = f['n']
    c = col(o, g['c'])
    for r in o.get('rows') or []:
        r[c['n']] = None if c.get('null', True) else fk_value(s, o, g, rownum(r))
    return True


def m_rows(rng, ft, s):
    cand = [m for m in s if m.get('rows')]
    if not cand or not ft.tracked:
        return False
    m = pick(rng, cand)
    for _ in range(rng.randrange(1, 4)):
        k = rng.random()
        ids = {rownum(r) for r in m['rows']}
        u = uniq_cols(m)
        if k < .35:
            i = pick(rng, [x for x in range(1, 30) if x not in ids])
            m['rows'].append(one_row(rng, ft, m, i, cols=set(m['rows'][0]) if m['rows'] else None))
        elif k < .6 and len(m['rows']) > 1:
            m['rows'].remove(pick(rng, m['rows']))
        else:
            r = pick(rng, m['rows'])
            cs = [c for c in m['cols'] if c['n'] in r and c['n'] != 'id' and c['n'] not in u and not any(f['c'] == c['n'] for f in m['fks'])]
            if cs:
                c = pick(rng, cs)
                r[c['n']] = nudge(rng, ft, c, r[c['n']]) if rng.random() < .5 else gen_value(rng, ft, c, rownum(r), False)
    return True


def m_track(rng, ft, s):
    cand = [m for m in s if not m.get('rows') and trackable(m)]
    if not cand or not ft.tracked:
        return False
    gen_rows(rng, ft, pick(rng, cand))
    return True


def m_untrack(rng, ft, s):
    cand = [m for m in s if m.get('rows')]
    if not cand or rng.random() < .6:
        return False
    pick(rng, cand)['rows'] = None
    return True


def m_rename_table(rng, ft, s):
    names = [x for x in TABLES if x.lower() not in {m['n'].lower() for m in s}]
    m = pick(rng, s)
    new = pick(rng, names)
    for x in s:
        for f in x['fks']:
            if f['rt'] == m['n']:
                f['rt'] = new
    m['n'] = new
    return True


def m_rename_col(rng, ft, s):
    m = pick(rng, s)
    cand = [c for c in m['cols'] if c['n'] != 'id' and not involved(s, m, c['n'])]
    if not cand:
        return False
    c = pick(rng, cand)
    new = new_col_name(rng, m)
    old = c['n']
    c['n'] = new
    for i in m['idx']:
        i['c'] = [new if x == old else x for x in i['c']]
    for r in m.get('rows') or []:
        if old in r:
            r[new] = r.pop(old)
    return True


def m_pk_change(rng, ft, s):
    m = pick(rng, s)
    pk = [i for i in m['idx'] if i['t'] == 'PRIMARY']
    if not pk or m.get('rows') or rng.random() < .6:
        return False
    pk = pk[0]
    if pk['c'][0] == 'id' and len(pk['c']) == 1:
        cand = [c for c in m['cols'] if c['n'] != 'id' and indexable(c) and not c.get('null', True) and c['t'] not in ('bit',) and (c.get('len') or 0) < 200]
        if not cand:
            return False
        pk['c'] = ['id', pick(rng, cand)['n']]
        return True
    if len(pk['c']) == 2:
        pk['c'] = pk['c'][:1]
        return True
    return False


def m_optchange(rng, ft, s):
    return False


def reorder(rng, s):
    """Same content, different order of tables, columns kept."""
    s = copy.deepcopy(s)
    rng.shuffle(s)
    return s


# ------------------------------------------------------------------------------ feasibility
def valid(schema):
    """Is the schema one the server accepts and the properties quantify over?"""
    try:
        return model.build(schema)
    except (SqlError, KeyError, AttributeError, ValueError, TypeError):
        return None


def strip(schema):
    s = copy.deepcopy(schema)
    for m in s:
        m.pop('data', None)
    return s


def as_live(schema, rng, ft, data=True):
    """The schema as a live database: declared rows become live rows; others get application data."""
    s = copy.deepcopy(schema)
    for m in s:
        if not m.get('rows') and data:
            gen_data(rng, ft, m)
    return s


def style(rng, ft):
    st = {}
    for k, p in (('bare', .15), ('lower', .2), ('sp', .3), ('qnum', .3), ('uq', .3), ('ix', .3), ('oneline', .1),
                 ('nlrows', .3), ('one_per', .3), ('qval', .3), ('ine', .12), ('barenull', .15), ('esc', .3), ('barefk', .3), ('nofkidx', .3),
                 ('inlinepk', .15), ('syn', .2), ('nopknull', .25)):
        if rng.random() < p:
            st[k] = 1
    if st.get('esc'):
        st['esc'] = 'dbl'
    if rng.random() < .15:
        st['ckind'] = rng.randrange(3)
        st['comments'] = pick(rng, ['plain', "it's", 'a, b', '(x', 'end;', '"q', '`t`', 'KEY x (y)', ')', 'ünï -- x'])
    if rng.random() < .12:
        st['mix'] = rng.randrange(1, 1000)
    if rng.random() < .1:
        st['ckind'] = rng.randrange(3)
        st['inote'] = pick(rng, ['plain', "it's", 'end;', '"q', '`t`', "a', 'b", ')', '(1, 2), (3'])
    return st


def supported(schema):
    """Combinations the tool documents no support for (see known_findings.json): declared rows write every value as a
    quoted string, which a BIT column does not take."""
    for m in schema:
        bits = {c['n'] for c in m['cols'] if c['t'] == 'bit'}
        if any(bits & set(r) for r in m.get('rows') or ()):
            return False
    return True


def feasible(live, target):
    try:
        base = model.build(live)
        return model.ideal(base, target)
    except (model.Infeasible, SqlError):
        return None


def pair(rng, ft, nmut=None, tries=40, **kw):
    """(live schema with data, target schema) such that the perfect migration exists."""
    for _ in range(tries):
        a = gen_schema(rng, ft)
        if valid(a) is None or not supported(a):
            continue
        live = as_live(a, rng, ft)
        if valid(live) is None:
            continue
        for _ in range(6):
            k = rng.random()
            if k < .06:
                b = gen_schema(rng, ft)
                done = ['fresh']
            elif k < .1:
                live, b, done = [], strip(a), ['empty-start']
            else:
                b, done = mutate(rng, ft, a, nmut, **kw)
            if valid(b) is None or not supported(b) or feasible(live, b) is None:
                continue
            return live, b, done
    return None
