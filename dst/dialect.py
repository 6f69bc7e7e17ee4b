"""Declared .sql text in the less common forms the server's language has: the same and other meanings, in the server's words.

A statement is put together from sites (columns, indexes, foreign keys, table options, rows, the spaces between words); a few of
them are written in another form.  What the text means is for the simulated server to say, which simply executes it.
"""
import copy
import re

from . import render, sqltok
from .gen import pick
from .values import CHARS, TEXTS

INTY = ('tinyint', 'smallint', 'mediumint', 'int', 'bigint')
WORDS = ["it''s", 'a, b', 'x) ENGINE=InnoDB', 'one; two', 'say "hi"', '-- no', 'DEFAULT 5', '`b`', 'NOT NULL', '(c)']
SYNONYM = {'int': ['INTEGER', 'INT4'], 'bigint': ['INT8'], 'smallint': ['INT2'], 'tinyint': ['INT1'], 'mediumint': ['INT3', 'MIDDLEINT'],
           'decimal': ['NUMERIC', 'DEC', 'FIXED'], 'double': ['REAL', 'DOUBLE PRECISION', 'FLOAT8'], 'float': ['FLOAT4', 'FLOAT(10)', 'FLOAT(30)'],
           'char': ['CHARACTER', 'NCHAR'], 'varchar': ['CHARACTER VARYING', 'NVARCHAR', 'NATIONAL VARCHAR']}


class Parts:
    """A table as a list of definitions, each a list of words."""
    def __init__(self, m, st):
        self.m, self.st = m, st
        self.cols = [self.col(c) for c in m['cols']]
        self.idx = [self.index(i) for i in m['idx']]
        self.fks = [self.fk(f) for f in m['fks']]
        self.opts = [x for x in render.create(dict(m, cols=m['cols'][:1], idx=[], fks=[]), dict(st, oneline=1)).rsplit(')', 1)[1].strip(' ;').split(' ENGINE') if x]
        o = m.get('opts') or {}
        self.opts = ['%s=%s' % ({'CHARSET': 'DEFAULT CHARSET'}.get(k, k), o[k]) for k in ('ENGINE', 'CHARSET', 'COLLATE') if o.get(k)]
        self.head = 'CREATE TABLE'
        self.name = render.q(m['n'], st)

    def q(self, n):
        return render.q(n, self.st)

    def col(self, c):
        t = render.typ(c, dict(self.st, lower=1))
        at = []
        if not c.get('null', True):
            at.append('NOT NULL')
        elif c['t'] == 'timestamp':
            at.append('NULL')
        d = render.default(c, self.st).strip()
        if d:
            at.append(d)
        if c.get('auto'):
            at.append('AUTO_INCREMENT')
        if c.get('co'):
            at.append('COLLATE %s' % c['co'])
        return {'k': 'col', 'c': c, 'n': self.q(c['n']), 't': t, 'cs': 'CHARACTER SET %s' % c['cs'] if c.get('cs') else '', 'at': at}

    def index(self, i):
        return {'k': 'idx', 'i': i, 'w': {'PRIMARY': 'PRIMARY KEY', 'UNIQUE': 'UNIQUE KEY', 'INDEX': 'KEY'}[i['t']],
                'n': '' if i['t'] == 'PRIMARY' else self.q(i['n']), 'c': '(%s)' % ', '.join(self.q(x) for x in i['c']), 'pre': '', 'post': ''}

    def fk(self, f):
        return {'k': 'fk', 'f': f, 'w': 'CONSTRAINT %s' % self.q(f['n']), 'ix': '', 'c': '(%s)' % self.q(f['c']), 'rt': self.q(f['rt']),
                'rc': '(%s)' % self.q(f['rc']), 'on': ['ON %s %s' % (k, f[x]) for k, x in (('DELETE', 'od'), ('UPDATE', 'ou')) if f.get(x)], 'post': ''}

    def words(self, d):
        if 'raw' in d:
            return d['raw']
        if d['k'] == 'col':
            w = [d['n'], d['t'], d['cs']] + d['at']
        elif d['k'] == 'idx':
            w = [d['pre'], d['w'], d['n'], d['c'], d['post']]
        else:
            w = [d['w'], 'FOREIGN KEY', d['ix'], d['c'], 'REFERENCES', d['rt'], d['rc']] + d['on'] + [d['post']]
        return ' '.join(x for x in w if x)

    def text(self):
        return '%s %s (\n  %s\n)%s;' % (self.head, self.name, ',\n  '.join(self.words(d) for d in self.cols + self.idx + self.fks),
                                       ''.join(' ' + x for x in self.opts))


def word(rng):
    return "'%s'" % pick(rng, WORDS + ['note'] * 6)


def is_text(c):
    return c['t'] in CHARS or c['t'] in TEXTS


def set_default(d, text):
    d['at'] = [x for x in d['at'] if not x.startswith('DEFAULT')] + ['DEFAULT ' + text]


# ---------------------------------------------------------------- columns
def x_order(rng, p):
    """The attributes of a column in another order."""
    d = pick(rng, [d for d in p.cols if len(d['at']) > 1])
    a = list(d['at'])
    rng.shuffle(d['at'])
    return d['at'] != a and 'attributes'


def x_zerofill(rng, p):
    d = pick(rng, [d for d in p.cols if d['c']['t'] in INTY])
    d['t'] += pick(rng, [' ZEROFILL', ' zerofill', ' ZEROFILL UNSIGNED' if 'unsigned' not in d['t'].lower() else ' ZEROFILL'])
    return 'zerofill'


def x_signed(rng, p):
    d = pick(rng, [d for d in p.cols if d['c']['t'] in INTY and not d['c'].get('uns')])
    d['t'] += ' SIGNED'
    return 'signed'


def x_comment(rng, p):
    d = pick(rng, p.cols)
    d['at'].insert(rng.randrange(len(d['at']) + 1), 'COMMENT ' + word(rng))
    return 'column comment'


def x_inline_key(rng, p):
    d = pick(rng, [d for d in p.cols if d['c']['t'] in INTY + CHARS])
    k = pick(rng, ['UNIQUE', 'UNIQUE KEY', 'PRIMARY KEY', 'KEY', 'PRIMARY KEY', 'UNIQUE'])
    if k in ('PRIMARY KEY', 'KEY'):
        pk = [i for i in p.idx if i['i']['t'] == 'PRIMARY' and len(i['i']['c']) == 1]
        if pk:
            d = next(d for d in p.cols if d['c']['n'] == pk[0]['i']['c'][0])
            p.idx.remove(pk[0])
    d['at'].insert(rng.randrange(len(d['at']) + 1), k)
    return 'inline ' + k


def x_onupdate(rng, p):
    d = pick(rng, [d for d in p.cols if d['c']['t'] in ('datetime', 'timestamp')])
    d['at'].append('ON UPDATE ' + pick(rng, ['CURRENT_TIMESTAMP', 'CURRENT_TIMESTAMP()', 'NOW()', 'current_timestamp']))
    return 'on update'


def x_synonym(rng, p):
    have = [d for d in p.cols if d['c']['t'] in SYNONYM]
    t = pick(rng, sorted({d['c']['t'] for d in have}))
    d = pick(rng, [d for d in have if d['c']['t'] == t])
    s = pick(rng, SYNONYM[d['c']['t']])
    t = d['t']
    if '(' in s and '(' in t:
        return None
    d['t'] = re.sub(r'^\w+', s if rng.random() < .5 else s.lower(), t, count=1)
    return 'synonym ' + s


def x_typelen(rng, p):
    """Lengths where few people write them, or none where most do."""
    d = pick(rng, p.cols)
    t = d['c']['t']
    ways = {'text': ['TEXT(100)', 'TEXT(70000)', 'text(10)'], 'blob': ['BLOB(10)', 'BLOB(300)'], 'year': ['YEAR(4)'], 'time': ['TIME(2)'],
            'datetime': ['DATETIME(3)'], 'timestamp': ['TIMESTAMP(6)'], 'double': ['DOUBLE(10,2)', 'DOUBLE PRECISION(8,3)'],
            'float': ['FLOAT(7,3)', 'FLOAT(10)', 'FLOAT(30)'], 'decimal': ['DECIMAL(12)', 'DECIMAL', 'decimal(9)', 'DECIMAL(9, 3)'], 'bit': ['BIT', 'BIT(1)', 'BIT(5)'],
            'char': ['CHAR', 'CHAR(0)', 'CHAR (7)'], 'binary': ['BINARY', 'BINARY (3)'], 'varchar': ['VARCHAR (40)', 'VARCHAR( 40 )', 'varchar(0)'],
            'tinyint': ['TINYINT (3)', 'BOOL', 'TINYINT(1)'], 'int': ['INT (10)', 'INT( 5 )', 'INT(1)']}
    if t not in ways or d['c'].get('auto'):
        return None
    uns = ' UNSIGNED' if d['c'].get('uns') and t in INTY + ('decimal',) else ''
    d['t'] = pick(rng, ways[t])
    if d['t'] != 'BOOL':
        d['t'] += uns
    return 'length ' + d['t']


def x_enum(rng, p):
    d = pick(rng, [d for d in p.cols if d['c']['t'] in ('enum', 'set')])
    vals = d['c']['vals']
    k = rng.randrange(6)
    if k == 0:
        d['t'] = '%s ( %s )' % (d['c']['t'], ' , '.join("'%s'" % v for v in vals))
    elif k == 1:
        d['t'] = '%s(%s)' % (d['c']['t'], ','.join('"%s"' % v for v in vals))
    elif k == 2:
        d['t'] = '%s(%s)' % (d['c']['t'].upper(), ',\n    '.join("'%s'" % v for v in vals))
    elif k == 3:
        more = pick(rng, ["it''s", "it\\'s", 'a)b', 'semi;colon', 'back\\\\slash', 'tab\\there', 'x--y', '(', '"q"', '#5', 'NULL'])
        d['t'] = '%s(%s)' % (d['c']['t'], ','.join("'%s'" % v for v in list(vals) + [more]))
    elif k == 4:
        d['t'] = '%s(%s)' % (d['c']['t'], ','.join("'%s'" % v for v in list(vals) + ['', 'z z']))
    else:
        d['t'] = '%s(%s)' % (d['c']['t'], ','.join("'%s'" % v for v in reversed(vals)))
    return 'list of values'


def x_charset(rng, p):
    d = pick(rng, [d for d in p.cols if is_text(d['c'])])
    cs, co = pick(rng, [('latin1', 'latin1_swedish_ci'), ('utf8mb4', 'utf8mb4_bin'), ('ascii', 'ascii_general_ci')])
    d['at'] = [x for x in d['at'] if not x.startswith('COLLATE')]
    d['cs'] = ''
    k = rng.randrange(8)
    if k == 0:
        d['cs'] = 'CHARSET ' + cs
    elif k == 1:
        d['cs'] = "CHARACTER SET '%s'" % cs
    elif k == 2:
        d['cs'] = 'CHARACTER SET %s' % cs
        d['at'] = ['COLLATE %s' % co] + d['at']
    elif k == 3:
        d['cs'] = 'character set %s' % cs
        d['at'] = d['at'] + ["collate '%s'" % co]
    elif k == 4:
        d['at'].insert(rng.randrange(len(d['at']) + 1), 'COLLATE %s' % co)
    elif k == 5:
        d['cs'] = 'CHARACTER SET %s' % cs
    elif k == 6:
        d['cs'] = 'BINARY'
    else:
        d['cs'] = 'CHARACTER  SET\n %s' % cs
    return 'character set'


def x_default(rng, p):
    d = pick(rng, [d for d in p.cols if not d['c'].get('auto')])
    t = d['c']['t']
    if t in INTY:
        v = pick(rng, ['+5', "'7'", 'TRUE', 'false', 'True', "b'1'", '0x10', "x'11'", '1e1', '(1+1)', '-0', '007', '5.0', '"6"', "'+3'", '(5)', '- 3'])
    elif t in ('decimal', 'float', 'double'):
        v = pick(rng, ['.5', '1.', '+1.5', '1e1', "'2.50'", '-.25', '1.5e0', '0', '00.5', '"3"', '(1/2)'])
    elif t in CHARS:
        v = pick(rng, ["'a' 'b'", '"dq"', '"it\'s"', "'x\\ny'", "''", '""', "'NULL'", 'NULL', 'null', "'\\\\'", "'it''s'", "'5'", "'-- x'", "'a,b'",
                       "'a)'", "' '", "'\\t'", "'a;b'", "x'41'", '(uuid())', "N'n'", "'CURRENT_TIMESTAMP'", "'\\'q\\''", "'a\"b'", '5', '-1', "'0'"])
        if d['c'].get('len') and len(v) > d['c']['len']:
            d['t'] = re.sub(r'\(\d+\)|$', '(40)', d['t'], count=1)
    elif t in ('datetime', 'timestamp'):
        v = pick(rng, ['NOW()', 'CURRENT_TIMESTAMP()', 'current_timestamp', 'LOCALTIME', 'LOCALTIMESTAMP', 'now()', "'2020-01-02 03:04:05'", "'2020-01-02'",
                       "TIMESTAMP'2020-01-02 03:04:05'", '20200102030405', '"2021-01-01 00:00:00"', '(NOW())', 'CURRENT_TIMESTAMP(0)', 'LOCALTIME()'])
    elif t in ('date', 'time', 'year'):
        v = pick(rng, {'date': ["'2020-01-02'", "DATE'2020-01-02'", '20200102', '"2021-02-03"', "'2020-1-2'", '(CURRENT_DATE)'],
                       'time': ["'10:11:12'", "'10:11'", '101112', "TIME'01:02:03'", "'-01:00:00'"], 'year': ['2020', "'2021'", '2022', '(2020)']}[t])
    elif t in ('enum', 'set'):
        x = pick(rng, d['c']['vals'])
        v = pick(rng, ["'%s'" % x, '"%s"' % x, "'%s'" % x.upper(), "'%s' " % x] + (["'%s'" % ','.join(d['c']['vals'][:2])] if t == 'set' else ['1']))
    elif t == 'bit':
        v = pick(rng, ["b'1'", "b'0'", '1', "B'1'", '0b1', "x'01'"])
    elif t == 'json':
        v = pick(rng, ['(JSON_ARRAY())', 'NULL', "('{}')"])
    elif t in TEXTS:
        v = pick(rng, ["('x')", 'NULL'])
    else:
        v = pick(rng, ["'ab'", '"ab"', "x'41'", 'NULL'])
    if v in ('NULL', 'null'):
        d['at'] = [x for x in d['at'] if x != 'NOT NULL']
    set_default(d, v)
    if rng.random() < .3:
        rng.shuffle(d['at'])
    if rng.random() < .2:
        d['at'] = [x.lower() if x.startswith('NOT') else x.replace('DEFAULT ', pick(rng, ['default ', 'Default\n', 'DEFAULT  ', 'DEFAULT\t'])) for x in d['at']]
    return 'default ' + v


def x_attr(rng, p):
    """Attributes which change what a column is."""
    d = pick(rng, p.cols)
    ints = [x for x in p.cols if x['c']['t'] in INTY and not x['c'].get('auto')]
    k = pick(rng, ['gen', 'check', 'invisible', 'refs', 'serial', 'storage', 'generated'])
    if k in ('gen', 'generated') and ints:
        d = pick(rng, ints)
        p.cols.append({'k': 'col', 'raw': '%s INT %sAS (%s + 1)%s' % (p.q('gx'), 'GENERATED ALWAYS ' if k == 'generated' else '', d['n'], pick(rng, ['', ' STORED', ' VIRTUAL']))})
    elif k == 'check' and ints:
        d = pick(rng, ints)
        d['at'].append('CHECK (%s > -1000000)' % d['n'])
    elif k == 'invisible':
        d['at'].append('INVISIBLE')
    elif k == 'refs' and ints:
        pick(rng, ints)['at'].append('REFERENCES %s (%s)' % (p.name, p.cols[0]['n']))
    elif k == 'serial':
        p.cols.append({'k': 'col', 'raw': '%s SERIAL' % p.q('sx')})
    elif k == 'storage':
        d['at'].append('COLUMN_FORMAT FIXED')
    else:
        return None
    return 'attribute ' + k


KINDS = ['INTEGER', 'INTEGER(5)', 'INT4', 'INT8', 'INT2', 'INT1 UNSIGNED', 'INT3', 'MIDDLEINT', 'NUMERIC', 'NUMERIC(8)', 'NUMERIC(8,3)', 'DEC(7,2)', 'DEC', 'FIXED(6)',
         'REAL', 'REAL', 'REAL(8,2)', 'DOUBLE PRECISION', 'DOUBLE PRECISION(8,3)', 'FLOAT8', 'FLOAT4', 'FLOAT(10)', 'FLOAT(30)', 'FLOAT(53)', 'DOUBLE', 'DOUBLE UNSIGNED',
         'FLOAT UNSIGNED', 'DECIMAL UNSIGNED', 'DECIMAL(6,2) UNSIGNED', 'DECIMAL(5)', 'DECIMAL', 'CHARACTER(9)', 'CHARACTER', 'NCHAR(5)', 'NATIONAL CHAR(5)', 'CHARACTER VARYING(9)',
         'CHAR VARYING(9)', 'VARCHARACTER(8)', 'NVARCHAR(9)', 'NATIONAL VARCHAR(9)', 'LONG', 'LONG VARCHAR', 'LONG VARBINARY', 'BOOL', 'BOOLEAN', 'BOOL NOT NULL DEFAULT FALSE',
         'BOOLEAN DEFAULT TRUE', 'TINYINT(1) DEFAULT 1', 'BIT', 'BIT(1)', 'BIT(8)', 'YEAR', 'YEAR(4)', 'YEAR(2)', 'TEXT(50)', 'BLOB(500)', 'CHAR', 'CHAR(0)', 'BINARY', 'BINARY(4)',
         'VARBINARY(9)', 'TIME', 'TIME(3)', 'DATETIME(6)', 'DATETIME', 'TIMESTAMP NULL', 'TIMESTAMP(3) NULL', 'INT ZEROFILL', 'INT(5) UNSIGNED ZEROFILL', 'DECIMAL(6,2) ZEROFILL',
         'BIGINT SIGNED', 'SERIAL DEFAULT VALUE', 'VARCHAR(9) BINARY', 'VARCHAR(9) ASCII', 'CHAR(4) UNICODE', 'CHAR BYTE', 'VARCHAR(5) CHARSET latin1', 'TEXT CHARACTER SET latin1',
         'MEDIUMTEXT', 'TINYTEXT', 'LONGBLOB', 'MEDIUMBLOB', 'SMALLINT(3)', 'MEDIUMINT UNSIGNED', "SET('a','b')", "ENUM('x')", 'VARCHAR', 'INT()', 'UUID', 'INET6', 'TEXT DEFAULT NULL',
         'VARCHAR(70000)', 'CHAR(300)', 'DECIMAL(66,2)', 'DECIMAL(5,6)', 'FLOAT(60)', 'GEOMETRY', 'JSON', 'JSON NOT NULL', 'TINYINT(1)', 'INT(255)', 'INT(256)', 'bigint(20) unsigned']


def x_type(rng, p):
    """One more column of a type by any name."""
    t = pick(rng, KINDS)
    p.cols.insert(rng.randrange(len(p.cols) + 1), {'k': 'col', 'raw': '%s %s' % (p.q('extra_col'), t if rng.random() < .7 else t.lower())})
    return 'type ' + t


def x_extra_col(rng, p):
    """One more column, of a type or with a name of its own."""
    n = pick(rng, ['keyword', 'index_no', 'unique_id', 'primary_contact', 'constraint_x', 'key', 'order', 'a b', 'x$y', '2nd', 'é', 'check_in', 'fulltext_x', 'comment',
                   'c,d', 'e)f', 'default_x', 'not_null', 'CamelCase', 'ref.x', 'it\'s', 'primary', 'references_x', 'foreign_id', 'spatial', 'partition_k', 'like'])
    t = pick(rng, ['INT', 'varchar(10)', 'TEXT', 'datetime', 'GEOMETRY', 'POINT', 'int(11) unsigned', 'VARCHAR(20) NOT NULL DEFAULT \'\'', 'ENUM(\'a\',\'b\')',
                   'decimal(5,2)', 'TINYBLOB', 'LONGTEXT', 'JSON', 'INT NOT NULL', 'date'])
    plain = re.fullmatch(r'[A-Za-z_]\w*', n) and n.upper() not in sqltok.RESERVED
    p.cols.insert(rng.randrange(len(p.cols) + 1), {'k': 'col', 'raw': '%s %s' % (n if plain and rng.random() < .5 else '`%s`' % n, t)})
    return 'column ' + n


# ---------------------------------------------------------------- indexes and foreign keys
def x_index(rng, p):
    have = [d for d in p.idx]
    d = pick(rng, have)
    t = d['i']['t']
    ways = ['using', 'using_before', 'comment', 'spaces', 'asc', 'bare', 'lower']
    if t != 'PRIMARY':
        ways += ['noname', 'word', 'noname', 'invisible', 'twice']
    if t == 'UNIQUE':
        ways += ['constraint', 'constraint_key', 'constraint']
    if t == 'PRIMARY':
        ways += ['constraint_pk', 'named_pk']
    k = pick(rng, ways)
    if k == 'using':
        d['post'] = pick(rng, ['USING BTREE', 'using btree', 'USING HASH'])
    elif k == 'using_before':
        d['n'] = (d['n'] + ' USING BTREE').strip()
    elif k == 'comment':
        d['post'] = 'COMMENT ' + word(rng)
    elif k == 'spaces':
        d['c'] = pick(rng, ['( %s )', '(%s )', '(\n    %s\n  )', '(\t%s)']) % ' , '.join(p.q(x) for x in d['i']['c'])
    elif k == 'asc':
        d['c'] = '(%s)' % ', '.join(p.q(x) + ' ASC' for x in d['i']['c'])
    elif k == 'bare':
        d['c'] = '(%s)' % ','.join(d['i']['c'])
        d['n'] = '' if t == 'PRIMARY' else d['i']['n']
    elif k == 'lower':
        d['w'] = pick(rng, [d['w'].lower(), d['w'].title(), d['w'].replace(' ', '  '), d['w'].replace(' ', '\n')])
    elif k == 'noname':
        d['n'] = ''
        d['w'] = pick(rng, {'UNIQUE': ['UNIQUE', 'UNIQUE KEY', 'UNIQUE INDEX'], 'INDEX': ['KEY', 'INDEX']}[t])
    elif k == 'word':
        d['w'] = pick(rng, {'UNIQUE': ['UNIQUE', 'UNIQUE INDEX', 'unique index'], 'INDEX': ['INDEX', 'index', 'Key']}[t])
    elif k == 'invisible':
        d['post'] = pick(rng, ['INVISIBLE', 'VISIBLE'])
    elif k == 'twice':
        p.idx.append(dict(copy.deepcopy(d), n=p.q(d['i']['n'] + '_2')))
    elif k in ('constraint', 'constraint_key'):
        d['pre'] = 'CONSTRAINT ' + d['n']
        d['w'] = 'UNIQUE' if k == 'constraint' else 'UNIQUE KEY'
        d['n'] = '' if k == 'constraint' else d['n'] if rng.random() < .5 else p.q(d['i']['n'] + '_k')
    elif k == 'constraint_pk':
        d['pre'] = pick(rng, ['CONSTRAINT pk', 'CONSTRAINT', 'CONSTRAINT `PRIMARY`'])
    else:
        d['n'] = pick(rng, ['pk', '`pk`'])
    return 'index ' + k


def x_more_index(rng, p):
    d = pick(rng, [d for d in p.cols if 'c' in d])
    k = pick(rng, ['FULLTEXT KEY', 'FULLTEXT', 'SPATIAL KEY', 'func', 'check', 'check_named', 'desc_pair'])
    if k == 'func':
        raw = 'KEY fx ((%s + 1))' % d['n']
    elif k == 'check':
        raw = 'CHECK (%s IS NOT NULL)' % d['n']
    elif k == 'check_named':
        raw = 'CONSTRAINT cx CHECK (%s <> 7)' % d['n']
    elif k == 'desc_pair':
        return None
    else:
        raw = '%s fx (%s)' % (k, d['n'])
    where = pick(rng, [p.idx, p.fks])
    where.append({'k': 'raw', 'raw': raw})
    return k


def x_fk(rng, p):
    d = pick(rng, p.fks)
    k = pick(rng, ['order', 'order', 'noname', 'constraint_only', 'idxname', 'action', 'match', 'db', 'spaces', 'tight', 'lower', 'own_index', 'action_order'])
    f = d['f']
    if k in ('order', 'action_order'):
        a = pick(rng, ['CASCADE', 'RESTRICT', 'NO ACTION'])
        d['on'] = ['ON UPDATE ' + a, 'ON DELETE ' + pick(rng, ['CASCADE', 'RESTRICT', 'NO ACTION'])]
    elif k == 'noname':
        d['w'] = ''
    elif k == 'constraint_only':
        d['w'] = 'CONSTRAINT'
    elif k == 'idxname':
        d['ix'] = p.q('fkix')
    elif k == 'action':
        d['on'] = ['ON %s %s' % (pick(rng, ['DELETE', 'UPDATE']), pick(rng, ['NO ACTION', 'RESTRICT', 'CASCADE', 'cascade', 'no  action', 'SET DEFAULT', 'SET  NULL']))]
    elif k == 'match':
        d['on'] = [pick(rng, ['MATCH FULL', 'MATCH SIMPLE', 'MATCH PARTIAL'])] + d['on']
    elif k == 'db':
        d['rt'] = pick(rng, ['app.', 'other.', '`app`.']) + d['rt']
    elif k == 'spaces':
        d['c'], d['rc'] = '( %s )' % p.q(f['c']), '(\n %s )' % p.q(f['rc'])
    elif k == 'tight':
        d['raw'] = '%s FOREIGN KEY(%s)REFERENCES%s(%s)%s' % (d['w'], '`%s`' % f['c'], '`%s`' % f['rt'], '`%s`' % f['rc'], ' '.join(d['on']))
    elif k == 'lower':
        d['raw'] = p.words(d).replace('FOREIGN KEY', 'foreign key').replace('REFERENCES', 'references').replace('CONSTRAINT', 'constraint').replace('ON ', 'on ')
    else:
        p.idx = [i for i in p.idx if not (i.get('i') and i['i']['c'] == [f['c']] and i['i']['t'] == 'INDEX')]
    return 'foreign key ' + k


# ---------------------------------------------------------------- the table and the statement
def x_options(rng, p):
    k = rng.randrange(12)
    if k == 0:
        p.opts.append("COMMENT=%s" % word(rng))
    elif k == 1:
        p.opts.append("COMMENT %s" % word(rng))
    elif k == 2:
        p.opts = [x.replace('=', ' = ') for x in p.opts] or ['ENGINE = InnoDB']
    elif k == 3:
        p.opts = [', '.join(p.opts + ['ROW_FORMAT=DYNAMIC'])]
    elif k == 4:
        p.opts = [x.replace('=', ' ') for x in p.opts] or ['ENGINE InnoDB']
    elif k == 5:
        p.opts.append('PARTITION BY HASH(%s) PARTITIONS 4' % p.cols[0]['n'])
    elif k == 6:
        p.opts = ['DEFAULT CHARACTER SET = utf8mb4', 'COLLATE = utf8mb4_bin']
    elif k == 7:
        p.opts = [x.lower() for x in p.opts] or ['engine=innodb']
    elif k == 8:
        p.opts.append(pick(rng, ['AUTO_INCREMENT=7', 'ROW_FORMAT=DYNAMIC', 'STATS_PERSISTENT=1', 'KEY_BLOCK_SIZE=8', 'AVG_ROW_LENGTH=100', 'CHECKSUM=1']))
    elif k == 9:
        p.opts = ['CHARSET=latin1']
    elif k == 10:
        p.opts = ["DEFAULT CHARSET='utf8mb4'", "COLLATE='utf8mb4_bin'"]
    else:
        p.opts = ['\n'.join(p.opts + ['COMMENT=\'x\''])]
    return 'table options'


def x_head(rng, p):
    k = rng.randrange(8)
    if k == 0:
        p.head = pick(rng, ['create table', 'Create  Table', 'CREATE\nTABLE', 'CREATE\tTABLE'])
    elif k == 1:
        p.head = pick(rng, ['CREATE TABLE IF NOT EXISTS', 'create table if not exists', 'CREATE TABLE  IF  NOT  EXISTS'])
    elif k == 2:
        p.head = 'CREATE TEMPORARY TABLE'
    elif k == 3:
        p.name = pick(rng, ['app.', '`app`.', 'other.']) + p.name
    elif k == 4:
        p.name = '`%s`' % p.m['n']
    else:
        p.st['late'] = pick(rng, ['tight', 'tight2', 'oneline', 'nl', 'comments', 'comments', 'comments'])
    return 'head'


def x_null(rng, p):
    """What most people leave out, or say although it goes without saying."""
    d = pick(rng, [d for d in p.cols if 'c' in d])
    k = pick(rng, ['pk', 'pk', 'auto', 'drop', 'null', 'default_null', 'nodefault', 'twice', 'pk_more', 'auto_key'])
    no = [x for x in d['at'] if x not in ('NOT NULL', 'NULL')]
    if k in ('pk', 'auto'):
        names = [x for i in p.idx if i['k'] == 'idx' and i['i']['t'] == 'PRIMARY' for x in i['i']['c']]
        for d in p.cols:
            if 'c' in d and (d['c']['n'] in names if k == 'pk' else d['c'].get('auto')):
                d['at'] = [x for x in d['at'] if x != 'NOT NULL']
    elif k == 'drop':
        d['at'] = no
    elif k == 'null':
        d['at'] = no + ['NULL'] if rng.random() < .5 else ['NULL'] + no
    elif k == 'default_null':
        d['at'] = no
        set_default(d, 'NULL')
    elif k == 'nodefault':
        d['at'] = [x for x in d['at'] if not x.startswith('DEFAULT')]
    elif k == 'twice':
        d['at'].append(pick(rng, d['at'] or ['NULL']))
    elif k == 'pk_more':
        i = pick(rng, [i for i in p.idx if i['k'] == 'idx' and i['i']['t'] == 'PRIMARY'])
        if d['c']['n'] in i['i']['c'] or d['c']['t'] not in INTY + CHARS + ('date', 'datetime', 'enum', 'decimal'):
            return None
        i['c'] = '(%s)' % ', '.join([p.q(x) for x in i['i']['c']] + [d['n']])
    else:
        if any('AUTO_INCREMENT' in x.get('at', ()) for x in p.cols):
            return None
        p.cols.append({'k': 'col', 'raw': '%s INT%s AUTO_INCREMENT' % (p.q('ax'), pick(rng, ['', ' NOT NULL', ' UNSIGNED']))})
        p.idx.append({'k': 'raw', 'raw': pick(rng, ['KEY ax_k (%s)', 'UNIQUE KEY ax_k (%s)']) % p.q('ax')})
    return 'null ' + k


COLS = [x_null, x_null, x_order, x_zerofill, x_signed, x_comment, x_inline_key, x_onupdate, x_synonym, x_typelen, x_enum, x_charset, x_default, x_default, x_default, x_attr,
        x_extra_col, x_type, x_type, x_type]
REST = [x_index, x_index, x_more_index, x_fk, x_fk, x_options, x_head]


def relayout(rng, text, how):
    """The same words with other spaces and remarks between them."""
    try:
        toks = sqltok.tokenize(text)
    except sqltok.SqlSyntax:
        return text
    at = [t.pos for t in toks] + [len(text)]
    words = [text[at[i]:at[i + 1]].strip() for i in range(len(toks))]
    out = ''
    for i, w in enumerate(words):
        if i:
            a, b = words[i - 1][-1], w[0]
            need = (a.isalnum() or a in '_$') and (b.isalnum() or b in '_$\'"') or a in '\'"' and b in '\'"' or a == '-' and b == '-' or a == '_' or \
                ord(a) > 127 or ord(b) > 127
            if how == 'tight':
                s = ' ' if need else ''
            elif how == 'tight2':
                s = ' ' if need or a not in '(,' and b not in '),;' else ''
            elif how == 'nl':
                s = pick(rng, ['\n', ' ', '\t', '  \n  '])
            elif how == 'comments' and i > 3 and rng.random() < .12:
                s = ' ' + pick(rng, ["/* it's; */", '/* ) , */', '-- don\'t;\n', '# a "note" (;\n', '/* "x */', '-- \n', '/**/', '/*, x INT*/', '#\n', '--\tkey\n']) + ' '
            else:
                s = ' ' if need or i < 3 or rng.random() < .9 else ''
                if words[i - 1] == '-' or a == '-' or w[0] == '.' or a == '.':
                    s = ''
            out += s
        out += w
    return out


# ---------------------------------------------------------------- rows
def insert_forms(rng, m, st):
    """The rows of a table, one statement in another form.  Returns (text, what) or None."""
    rows = m.get('rows')
    if not rows:
        return None
    n = render.q(m['n'], st)
    base = render.inserts(m, st)
    r = pick(rng, rows)
    cols = list(r)
    cl = '(%s)' % ', '.join(render.q(c, st) for c in cols)
    vals = [render.value(r[c], st) for c in cols]
    rest = render.inserts(dict(m, rows=[x for x in rows if x is not r]), st)
    k = pick(rng, ['set', 'ignore', 'nointo', 'nocols', 'value', 'odku', 'replace', 'low', 'db', 'case', 'select', 'alias', 'default', 'bool', 'dq', 'expr', 'adj', 'hex', 'now',
                   'null', 'plus', 'float', 'quotes', 'newline', 'comma_space', 'layout', 'layout', 'dup', 'upsert', 'number', 'number', 'backslash', 'nl_row', 'order', 'func'])
    ci = rng.randrange(len(cols))
    c = next(x for x in m['cols'] if x['n'] == cols[ci])

    def one(x, i=ci):
        v = list(vals)
        v[i] = x
        return '(%s)' % ', '.join(v)
    t = None
    if k == 'set':
        t = 'INSERT INTO %s SET %s;' % (n, ', '.join('%s=%s' % (render.q(a, st), b) for a, b in zip(cols, vals)))
    elif k == 'ignore':
        t = 'INSERT IGNORE INTO %s %s VALUES (%s);' % (n, cl, ', '.join(vals))
    elif k == 'nointo':
        t = 'INSERT %s %s VALUES (%s);' % (n, cl, ', '.join(vals))
    elif k == 'nocols':
        if set(cols) != {x['n'] for x in m['cols']}:
            return None
        t = 'INSERT INTO %s VALUES (%s);' % (n, ', '.join(render.value(r[x['n']], st) for x in m['cols']))
    elif k == 'value':
        t = 'INSERT INTO %s %s VALUE (%s);' % (n, cl, ', '.join(vals))
    elif k == 'odku':
        t = 'INSERT INTO %s %s VALUES (%s) ON DUPLICATE KEY UPDATE %s=%s;' % (n, cl, ', '.join(vals), render.q(cols[ci], st), vals[ci])
    elif k == 'replace':
        t = 'REPLACE INTO %s %s VALUES (%s);' % (n, cl, ', '.join(vals))
    elif k == 'low':
        t = 'INSERT %s INTO %s %s VALUES (%s);' % (pick(rng, ['LOW_PRIORITY', 'HIGH_PRIORITY', 'DELAYED']), n, cl, ', '.join(vals))
    elif k == 'db':
        t = 'INSERT INTO %s%s %s VALUES (%s);' % (pick(rng, ['app.', '`app`.']), n, cl, ', '.join(vals))
    elif k == 'case':
        t = 'insert into %s %s values (%s);' % (n, '(%s)' % ', '.join(x.upper() for x in cols), ', '.join(vals))
    elif k == 'select':
        t = 'INSERT INTO %s %s SELECT %s;' % (n, cl, ', '.join(vals))
    elif k == 'alias':
        t = 'INSERT INTO %s %s VALUES (%s) AS new;' % (n, cl, ', '.join(vals))
    elif k == 'default':
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one('DEFAULT'))
    elif k == 'bool':
        if cols[ci] == 'id':
            return None     # 0 is a way to ask for the next number
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['TRUE', 'false', 'True'])))
    elif k == 'dq':
        if not isinstance(r[cols[ci]], str):
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one('"%s"' % r[cols[ci]].replace('\\', '\\\\').replace('"', pick(rng, ['""', '\\"']))))
    elif k == 'expr':
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['1+1', '(5)', '2*3', '1 - 1', 'NOT 1', '-(3)'])))
    elif k == 'func':
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ["CONCAT('a','b')", 'UUID()', 'LAST_INSERT_ID()', '@x', 'CURDATE()', "JSON_OBJECT('a', 1)"])))
    elif k == 'adj':
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one("'a' 'b'"))
    elif k == 'hex':
        if c['t'] not in INTY:
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['0x10', "x'11'", "b'101'", '0b1'])))
    elif k == 'now':
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['NOW()', 'CURRENT_TIMESTAMP', 'CURRENT_TIMESTAMP()', 'LOCALTIME'])))
    elif k == 'null':
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['null', 'Null', '\\N'])))
    elif k == 'plus':
        if is_text(c):
            return None     # mygrations takes an unquoted number for its text
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['+7', '- 7', '-7', '--7', '+ 7'])))
    elif k == 'float':
        if c['t'] not in INTY + ('decimal', 'float', 'double'):
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ['1e1', '.5e1', '5.', '5.0', '1E+1', '500e-2'])))
    elif k == 'number':
        if c['t'] not in INTY + ('decimal', 'float', 'double'):
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ["'11'", '"12"', "' 13'", "'1e1'", '014', "'5.0'", "'+6'", "'-0'" if cols[ci] != 'id' else '9', "'007'"])))
    elif k == 'quotes':
        if c['t'] not in TEXTS and c['t'] != 'varchar':
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ["'it''s'", "'it\\'s'", "'a\"b'", '"a\'b"', "''''", "'\\\\'", "'a,b'", "'(1)'", "'x;y'", "'-- z'", "'# z'",
                                                                      "'/* z'", "' '", "''", '""', "' x '", "'NULL'", "'\\'); --'", "'é ü'", "'`q`'"])))
    elif k == 'backslash':
        if c['t'] not in TEXTS and c['t'] != 'varchar':
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ["'a\\\\b'", "'\\\\\\\\'", "'\\\\n'", "'c:\\\\dir\\\\'", "'\\\\\\''"])))
    elif k == 'newline':
        if c['t'] not in TEXTS and c['t'] != 'varchar':
            return None
        t = 'INSERT INTO %s %s VALUES %s;' % (n, cl, one(pick(rng, ["'a\nb'", "'a\n\n-- b'", "'\tx'", "'a;\nb'", "'x\n# y\nz'", "'\n'", "'INSERT INTO t (id)\nVALUES (1);'"])))
    elif k == 'comma_space':
        t = 'INSERT INTO %s %s VALUES\n  (%s)\n  ;' % (n, cl, ' , '.join(vals))
    elif k == 'nl_row':
        t = 'INSERT INTO %s\n  %s\nVALUES\n(\n  %s\n);' % (n, cl, ',\n  '.join(vals))
    elif k == 'layout':
        t = relayout(rng, 'INSERT INTO %s %s VALUES (%s);' % (n, cl, ', '.join(vals)), pick(rng, ['tight', 'nl', 'comments', 'tight2']))
    elif k == 'order':
        z = list(zip(cols, vals))
        rng.shuffle(z)
        t = 'INSERT INTO %s (%s) VALUES (%s);' % (n, ','.join(render.q(a, st) for a, _ in z), ','.join(b for _, b in z))
    elif k == 'dup':
        t = 'INSERT INTO %s %s VALUES (%s);' % (n, '(%s)' % ', '.join(render.q(x, st) for x in cols + [cols[ci]]), ', '.join(vals + [vals[ci]]))
    elif k == 'upsert':
        return base + '\n' + 'REPLACE INTO %s %s VALUES (%s);' % (n, cl, ', '.join(vals)), 'replaced row'
    if t is None:
        return None
    return (rest + '\n' + t if rng.random() < .5 else t + '\n' + rest), 'row ' + k


def statements(rng, p, st):
    """One more statement about a table, as migrations are full of them."""
    n, m = p.name, p.m
    c = pick(rng, m['cols'])
    k = pick(rng, ['drop', 'alter_add', 'alter_drop', 'index', 'update', 'delete', 'truncate', 'rename', 'set', 'lock', 'use', 'view', 'trigger', 'tx', 'semis', 'alter_index',
                   'insert_select', 'delimiter', 'drop_index', 'comment_end', 'like', 'as_select'])
    q = render.q
    t = {'drop': 'DROP TABLE %s%s;' % (pick(rng, ['', 'IF EXISTS ']), n), 'alter_add': 'ALTER TABLE %s ADD COLUMN extra_x INT;' % n,
         'alter_drop': 'ALTER TABLE %s DROP COLUMN %s;' % (n, q(c['n'], st)), 'index': 'CREATE %sINDEX ix_x ON %s (%s);' % (pick(rng, ['', 'UNIQUE ']), n, q(c['n'], st)),
         'update': 'UPDATE %s SET %s = %s;' % (n, q(c['n'], st), q(c['n'], st)), 'delete': 'DELETE FROM %s;' % n, 'truncate': 'TRUNCATE TABLE %s;' % n,
         'rename': 'RENAME TABLE %s TO zz_renamed;' % n, 'set': pick(rng, ['SET NAMES utf8mb4;', 'SET FOREIGN_KEY_CHECKS=0;', 'SET @x = 5;']),
         'lock': 'LOCK TABLES %s WRITE;\nUNLOCK TABLES;' % n, 'use': 'USE app;', 'view': 'CREATE VIEW v AS SELECT 1;',
         'trigger': 'CREATE TRIGGER tr BEFORE INSERT ON %s FOR EACH ROW SET @a = 1;' % n, 'tx': 'START TRANSACTION;\nCOMMIT;', 'semis': ';',
         'alter_index': 'ALTER TABLE %s ADD INDEX ix_x (%s);' % (n, q(c['n'], st)), 'insert_select': 'INSERT INTO %s (%s) SELECT 1;' % (n, q(c['n'], st)),
         'delimiter': 'CREATE PROCEDURE pr() BEGIN END;', 'drop_index': 'DROP INDEX ix_x ON %s;' % n, 'comment_end': pick(rng, ['-- the end', '# the end;', '/* the; end */']),
         'like': 'CREATE TABLE zz_copy LIKE %s;' % n, 'as_select': 'CREATE TABLE zz_copy (x INT) AS SELECT 1 AS x;'}[k]
    return t, 'statement ' + k


# ---------------------------------------------------------------- a whole declared tree
def write(rng, schema, style_of, k=None):
    """({file name: text}, [what is unusual]) or None."""
    k = k or pick(rng, [1, 1, 1, 1, 2, 2, 3])
    done = []
    want = [rng.randrange(len(schema)) for _ in range(k)]
    files = {}
    for n, m in enumerate(schema):
        m = copy.deepcopy(m)
        st = style_of()
        st.pop('inlinepk', None)
        st.pop('comments', None)
        p = Parts(m, st)
        after = before = ''
        rows = render.inserts(m, st)
        for _ in range(want.count(n)):
            for _ in range(30):
                try:
                    x = rng.random()
                    if x < .5:
                        what = pick(rng, COLS)(rng, p)
                    elif x < .75:
                        what = pick(rng, REST)(rng, p)
                    elif x < .95:
                        got = insert_forms(rng, m, st)
                        if not got:
                            continue
                        rows, what = got
                    else:
                        t, what = statements(rng, p, st)
                        if rng.random() < .2:
                            before += t + '\n'
                        else:
                            after += t + '\n'
                except (IndexError, KeyError, StopIteration, ValueError):
                    continue
                if what:
                    done.append(what)
                    break
        text = p.text()
        if st.get('late'):
            text = relayout(rng, text, st['late'])
        files['%s.sql' % m['n']] = before + text + '\n' + (rows + '\n' if rows else '') + after
    return (files, done) if done else None
