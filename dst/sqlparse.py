"""Parser for the statements the simulated server accepts -> small tuples/objects.

Anything that is not a sentence of this grammar is answered with error 1064, as a
server would.  The few statements a correct client might reasonably use but which
are not simulated raise Unsupported, which the harness reports as its own limit
(never as a violation).
"""
from decimal import Decimal
from functools import lru_cache

from .sqltok import tokenize, RESERVED, SqlSyntax
from .values import Col, SYN, ALL_TYPES, SqlError


class Unsupported(Exception):
    pass


class Index:
    __slots__ = ('name', 'type', 'cols', 'generated', 'symbol')

    # cols: tuple of (column name, prefix length or None)
    def __init__(self, name, type, cols, generated=False, symbol=None):
        self.name, self.type, self.cols, self.generated = name, type, tuple(cols), generated
        self.symbol = symbol

    def copy(self):
        return Index(self.name, self.type, self.cols, self.generated)

    def names(self):
        return tuple(c for c, _ in self.cols)


class FK:
    __slots__ = ('name', 'cols', 'ref_table', 'ref_cols', 'on_delete', 'on_update')

    def __init__(self, name, cols, ref_table, ref_cols, on_delete=None, on_update=None):
        self.name, self.cols, self.ref_table, self.ref_cols = name, tuple(cols), ref_table, tuple(ref_cols)
        self.on_delete, self.on_update = on_delete, on_update

    def copy(self):
        return FK(self.name, self.cols, self.ref_table, self.ref_cols, self.on_delete, self.on_update)


class P:
    def __init__(self, sql):
        self.sql = sql
        self.t = tokenize(sql)
        self.i = 0

    def err(self):
        near = self.sql[self.t[self.i].pos:][:80] if self.i < len(self.t) else ''
        return SqlSyntax(near)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def kw(self, *words):
        """Consume the keyword sequence if present."""
        for k, w in enumerate(words):
            t = self.peek(k)
            if t is None or t.kind != 'w' or t.val.upper() != w:
                return False
        self.i += len(words)
        return True

    def is_kw(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if t is None or t.kind != 'w' or t.val.upper() != w:
                return False
        return True

    def need(self, *words):
        if not self.kw(*words):
            raise self.err()

    def sym(self, s):
        t = self.peek()
        if t is not None and t.kind == 'y' and t.val == s:
            self.i += 1
            return True
        return False

    def need_sym(self, s):
        if not self.sym(s):
            raise self.err()

    def ident(self):
        t = self.peek()
        if t is None:
            raise self.err()
        if t.kind == 'q':
            self.i += 1
            return t.val
        if t.kind == 'w':
            if t.val.upper() in RESERVED or t.val.isdigit():
                raise self.err()
            self.i += 1
            return t.val
        raise self.err()

    def table(self):
        name = self.ident()
        if self.sym('.'):
            name = self.ident()
        return name

    def idents(self):
        self.need_sym('(')
        out = [self.ident()]
        while self.sym(','):
            out.append(self.ident())
        self.need_sym(')')
        return out

    def number(self):
        t = self.peek()
        if t is None or t.kind != 'n' or not t.val.isdigit():
            raise self.err()
        self.i += 1
        return int(t.val)

    def string(self):
        t = self.peek()
        if t is None or t.kind != 's':
            raise self.err()
        self.i += 1
        return t.val

    def word_or_string(self):
        t = self.peek()
        if t is None or t.kind not in 'wsq':
            raise self.err()
        self.i += 1
        return t.val

    def literal(self):
        """Returns (value,) or None if no literal is here."""
        t = self.peek()
        if t is None:
            return None
        if t.kind == 's':
            self.i += 1
            return (t.val,)
        if t.kind == 'b':
            self.i += 1
            return (t.val,)
        if t.kind == 'n':
            self.i += 1
            return (_num(t.val),)
        if t.kind == 'y' and t.val in '+-':
            n = self.peek(1)
            if n is not None and n.kind == 'n':
                self.i += 2
                v = _num(n.val)
                return (-v if t.val == '-' else v,)
            return None
        if t.kind == 'w':
            u = t.val.upper()
            if u == 'NULL':
                self.i += 1
                return (None,)
            if u in ('TRUE', 'FALSE'):
                self.i += 1
                return (1 if u == 'TRUE' else 0,)
            n = self.peek(1)
            if t.val.startswith('_') and n is not None and n.kind == 's':
                self.i += 2
                return (n.val,)
        return None

    def end(self):
        self.sym(';')
        if self.i < len(self.t):
            raise self.err()


def _num(s):
    if s.isdigit():
        return int(s)
    if 'e' in s.lower():
        return float(s)
    return Decimal(s)


NUMERIC = ('tinyint', 'smallint', 'mediumint', 'int', 'bigint', 'decimal', 'float', 'double', 'year')
CHARACTER = ('char', 'varchar', 'tinytext', 'text', 'mediumtext', 'longtext', 'enum', 'set')
NOW = ('CURRENT_TIMESTAMP', 'NOW', 'LOCALTIME', 'LOCALTIMESTAMP')


def p_now(p):
    t = p.peek()
    if t is not None and t.kind == 'w' and t.val.upper() in NOW:
        u = t.val.upper()
        n = p.peek(1)
        paren = n is not None and n.kind == 'y' and n.val == '('
        if u == 'NOW' and not paren:
            return None
        p.i += 1
        fsp = 0
        if p.sym('('):
            if not p.sym(')'):
                fsp = p.number()
                p.need_sym(')')
        return ('now', fsp)
    return None


def p_type(p, name):
    t = p.peek()
    if t is None or t.kind != 'w':
        raise p.err()
    base = t.val.lower()
    p.i += 1
    if base == 'double':
        p.kw('PRECISION')
    if base in ('serial', 'geometry', 'point', 'national', 'nchar', 'nvarchar'):
        raise Unsupported('column type %s' % base)
    boolean = base in ('bool', 'boolean')
    if base == 'character':
        base = 'varchar' if p.kw('VARYING') else 'char'
    base = 'tinyint' if boolean else SYN.get(base, base)
    if base not in ALL_TYPES:
        p.i -= 1
        raise p.err()
    c = Col(name, base)
    if boolean:
        c.length = 1
    elif base in ('enum', 'set'):
        p.need_sym('(')
        vals = [p.string()]
        while p.sym(','):
            vals.append(p.string())
        p.need_sym(')')
        c.values = vals
    elif p.sym('('):
        if base in ('json', 'date'):
            p.i -= 1
            raise p.err()
        c.length = p.number()
        if p.sym(','):
            if base not in ('decimal', 'float', 'double'):
                raise p.err()
            c.scale = p.number()
        p.need_sym(')')
        if base == 'float' and c.scale is None:
            if c.length > 24:
                c.base = 'double'
            c.length = None
        if base == 'double' and c.scale is None:
            raise p.err()
        if base in ('text', 'blob'):
            # the smallest type which takes that many characters
            n = c.length * (4 if base == 'text' else 1)
            c.base = next(t for t, k in (('tiny', 255), ('', 65535), ('medium', 2 ** 24 - 1), ('long', 2 ** 32)) if n <= k) + base
            c.length = None
        if base == 'year':
            c.length = None
    # what belongs to the type stands right behind it, and nowhere else
    if c.base in NUMERIC:
        while True:
            if p.kw('UNSIGNED'):
                c.unsigned = True
            elif p.kw('ZEROFILL'):
                c.zerofill = c.unsigned = True
            elif not p.kw('SIGNED'):
                break
    elif c.base in CHARACTER and (p.kw('CHARACTER', 'SET') or p.kw('CHARSET')):
        c.charset = p.word_or_string()
    return c


def p_coldef(p, name=None):
    if name is None:
        name = p.ident()
    c = p_type(p, name)
    null_seen = None
    while True:
        if p.kw('COLLATE'):
            c.collate = p.word_or_string()
        elif p.kw('NOT', 'NULL'):
            null_seen = False
        elif p.kw('NULL'):
            null_seen = True
        elif p.kw('DEFAULT'):
            now = p_now(p)
            if now:
                c.default = now
            elif p.sym('('):
                raise Unsupported('expression default')
            else:
                lit = p.literal()
                if lit is None:
                    raise p.err()
                c.default = ('null',) if lit[0] is None else ('val', lit[0])
        elif p.kw('ON', 'UPDATE'):
            now = p_now(p)
            if not now:
                raise p.err()
            c.on_update = now
        elif p.kw('AUTO_INCREMENT'):
            c.auto = True
        elif p.kw('PRIMARY', 'KEY') or p.kw('PRIMARY'):
            c.key = 'PRIMARY'
        elif p.kw('UNIQUE', 'KEY') or p.kw('UNIQUE'):
            c.key = 'UNIQUE'
        elif p.kw('KEY'):
            c.key = 'PRIMARY'
        elif p.kw('COMMENT'):
            c.comment = p.string()
        elif any(p.is_kw(k) for k in ('GENERATED', 'AS', 'CHECK', 'REFERENCES', 'VISIBLE', 'INVISIBLE', 'COLUMN_FORMAT', 'STORAGE', 'BINARY')):
            raise Unsupported('column attribute %s' % p.peek().val)
        else:
            break
    c.null_given = null_seen
    if null_seen is not None:
        c.null = null_seen
    if c.key == 'PRIMARY' or c.auto:
        if null_seen and c.key == 'PRIMARY':
            raise SqlError(1171, 'All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE '
                                 'instead', '42000')
        c.null = False
    return c


def p_keycols(p):
    p.need_sym('(')
    out = []
    while True:
        if p.peek() is not None and p.peek().kind == 'y' and p.peek().val == '(':
            raise Unsupported('an index on an expression')
        n = p.ident()
        pre = None
        if p.sym('('):
            pre = p.number()
            p.need_sym(')')
        p.kw('ASC') or p.kw('DESC')
        out.append((n, pre))
        if not p.sym(','):
            break
    p.need_sym(')')
    return out


def p_keyopts(p):
    while p.kw('USING'):
        p.ident() if not p.is_kw('BTREE') else p.kw('BTREE')
    if p.kw('COMMENT'):
        p.string()
    if p.is_kw('INVISIBLE') or p.is_kw('VISIBLE') or p.is_kw('WITH'):
        raise Unsupported('index attribute %s' % p.peek().val)


def p_fkref(p, name):
    p.need('FOREIGN', 'KEY')
    idx = None
    t = p.peek()
    if t is not None and not (t.kind == 'y' and t.val == '('):
        idx = p.ident()
    cols = p.idents()
    p.need('REFERENCES')
    rt = p.table()
    rc = p.idents()
    fk = FK(name, cols, rt, rc)
    if p.is_kw('MATCH'):
        raise Unsupported('MATCH')
    while p.kw('ON'):
        which = 'delete' if p.kw('DELETE') else ('update' if p.kw('UPDATE') else None)
        if which is None:
            raise p.err()
        if p.kw('CASCADE'):
            a = 'CASCADE'
        elif p.kw('SET', 'NULL'):
            a = 'SET NULL'
        elif p.kw('SET', 'DEFAULT'):
            a = 'SET DEFAULT'
        elif p.kw('NO', 'ACTION'):
            a = 'NO ACTION'
        elif p.kw('RESTRICT'):
            a = 'RESTRICT'
        else:
            raise p.err()
        if getattr(fk, 'on_' + which):
            raise p.err()
        setattr(fk, 'on_' + which, a)
    if a_set_default(fk):
        raise SqlError(1215, 'Cannot add foreign key constraint (SET DEFAULT is not supported by InnoDB)')
    return fk


def a_set_default(fk):
    return 'SET DEFAULT' in (fk.on_delete, fk.on_update)


def p_constraint_item(p):
    """Index / constraint item of CREATE TABLE or ALTER TABLE ADD; None if it is not one."""
    sym = None
    if p.kw('CONSTRAINT'):
        if not (p.is_kw('FOREIGN') or p.is_kw('PRIMARY') or p.is_kw('UNIQUE') or p.is_kw('CHECK')):
            sym = p.ident()
        if p.is_kw('FOREIGN', 'KEY'):
            return ('fk', p_fkref(p, sym))
        if p.is_kw('CHECK'):
            raise Unsupported('CHECK')
        if not (p.is_kw('PRIMARY') or p.is_kw('UNIQUE')):
            raise p.err()
    if p.is_kw('FOREIGN', 'KEY'):
        return ('fk', p_fkref(p, sym))
    if p.kw('PRIMARY', 'KEY'):
        p_using(p)
        cols = p_keycols(p)
        p_keyopts(p)
        return ('idx', Index('PRIMARY', 'PRIMARY', cols))
    if p.is_kw('FULLTEXT') or p.is_kw('SPATIAL') or p.is_kw('CHECK'):
        raise Unsupported(p.peek().val)
    typ = None
    if p.kw('UNIQUE'):
        typ = 'UNIQUE'
        p.kw('KEY') or p.kw('INDEX')
    elif p.kw('KEY') or p.kw('INDEX'):
        typ = 'INDEX'
    if typ is None:
        return None
    name = sym
    t = p.peek()
    if t is not None and not (t.kind == 'y' and t.val == '(') and not p.is_kw('USING'):
        name = p.ident()
    p_using(p)
    cols = p_keycols(p)
    p_keyopts(p)
    return ('idx', Index(name, typ, cols))


def p_using(p):
    if p.kw('USING'):
        p.word_or_string()


def p_options(p):
    opts = {}
    while p.peek() is not None and not (p.peek().kind == 'y' and p.peek().val == ';'):
        p.sym(',')
        if p.is_kw('PARTITION'):
            raise Unsupported('PARTITION')
        p.kw('DEFAULT')
        if p.kw('CHARACTER', 'SET') or p.kw('CHARSET'):
            k = 'CHARSET'
        else:
            t = p.peek()
            if t is None or t.kind != 'w':
                raise p.err()
            k = t.val.upper()
            if k not in ('ENGINE', 'COLLATE', 'AUTO_INCREMENT', 'COMMENT', 'ROW_FORMAT', 'STATS_PERSISTENT',
                         'AVG_ROW_LENGTH', 'MAX_ROWS', 'MIN_ROWS', 'CHECKSUM', 'PACK_KEYS', 'KEY_BLOCK_SIZE',
                         'DELAY_KEY_WRITE'):
                raise p.err()
            p.i += 1
        p.sym('=')
        t = p.peek()
        if t is None or t.kind not in 'wsnq':
            raise p.err()
        p.i += 1
        opts[k] = t.val
    return opts


def p_create(p):
    if p.is_kw('TEMPORARY') or not p.is_kw('TABLE'):
        if p.is_kw('INDEX') or p.is_kw('UNIQUE', 'INDEX'):
            uniq = p.kw('UNIQUE')
            p.need('INDEX')
            name = p.ident()
            p.need('ON')
            table = p.table()
            return ('alter', table, [('add_index', Index(name, 'UNIQUE' if uniq else 'INDEX', p_keycols(p)))], {})
        raise Unsupported('CREATE ' + str(p.peek() and p.peek().val))
    p.need('TABLE')
    ine = p.kw('IF', 'NOT', 'EXISTS')
    name = p.table()
    if p.is_kw('LIKE') or p.is_kw('AS') or p.is_kw('SELECT'):
        raise Unsupported('CREATE TABLE ... LIKE/SELECT')
    p.need_sym('(')
    if p.is_kw('LIKE'):
        raise Unsupported('CREATE TABLE ... LIKE')
    cols, idx, fks = [], [], []
    while True:
        item = p_constraint_item(p)
        if item is None:
            cols.append(p_coldef(p))
        elif item[0] == 'idx':
            idx.append(item[1])
        else:
            fks.append(item[1])
        if not p.sym(','):
            break
    p.need_sym(')')
    opts = p_options(p)
    return ('create', name, ine, cols, idx, fks, opts)


def p_pos(p):
    if p.kw('FIRST'):
        return ('first',)
    if p.kw('AFTER'):
        return ('after', p.ident())
    return None


def p_alter(p):
    p.need('TABLE')
    name = p.table()
    acts = []
    while True:
        if p.kw('ADD'):
            item = p_constraint_item(p)
            if item is not None:
                acts.append(('add_index' if item[0] == 'idx' else 'add_fk', item[1]))
            else:
                p.kw('COLUMN')
                if p.sym('('):
                    while True:
                        acts.append(('add_col', p_coldef(p), None))
                        if not p.sym(','):
                            break
                    p.need_sym(')')
                else:
                    c = p_coldef(p)
                    acts.append(('add_col', c, p_pos(p)))
        elif p.kw('CHANGE'):
            p.kw('COLUMN')
            old = p.ident()
            c = p_coldef(p)
            acts.append(('change', old, c, p_pos(p)))
        elif p.kw('MODIFY'):
            p.kw('COLUMN')
            c = p_coldef(p)
            acts.append(('change', c.name, c, p_pos(p)))
        elif p.kw('DROP'):
            if p.kw('PRIMARY', 'KEY'):
                acts.append(('drop_index', 'PRIMARY'))
            elif p.kw('FOREIGN', 'KEY') or p.kw('CONSTRAINT'):
                acts.append(('drop_fk', p.ident()))
            elif p.kw('KEY') or p.kw('INDEX'):
                n = p.ident()
                acts.append(('drop_index', n))
            else:
                p.kw('COLUMN')
                acts.append(('drop_col', p.ident()))
        elif p.kw('ALTER'):
            p.kw('COLUMN')
            n = p.ident()
            if p.kw('DROP', 'DEFAULT'):
                acts.append(('set_default', n, None))
            else:
                p.need('SET', 'DEFAULT')
                lit = p.literal()
                if lit is None:
                    raise p.err()
                acts.append(('set_default', n, ('null',) if lit[0] is None else ('val', lit[0])))
        elif p.is_kw('RENAME') or p.is_kw('CONVERT') or p.is_kw('ORDER'):
            if p.kw('RENAME', 'INDEX') or p.kw('RENAME', 'KEY'):
                a = p.ident()
                p.need('TO')
                acts.append(('rename_index', a, p.ident()))
            elif p.kw('RENAME', 'COLUMN'):
                a = p.ident()
                p.need('TO')
                acts.append(('rename_col', a, p.ident()))
            elif len(acts) == 0 and (p.kw('RENAME', 'TO') or p.kw('RENAME', 'AS') or (
                    p.is_kw('RENAME') and p.peek(1) is not None and p.kw('RENAME'))):
                return ('rename', [(name, p.table())])
            else:
                raise Unsupported('ALTER TABLE ... ' + p.peek().val)
        elif p.kw('ALGORITHM') or p.kw('LOCK'):
            p.sym('=')
            p.word_or_string()
            acts.append(('noop',))
        else:
            o = p_options(p)
            if not o:
                raise p.err()
            acts.append(('options', o))
        if not p.sym(','):
            break
    return ('alter', name, acts, {})


def p_where(p):
    if not p.kw('WHERE'):
        return None
    return p_or(p)


def p_or(p):
    a = p_and(p)
    while p.kw('OR'):
        a = ('or', a, p_and(p))
    return a


def p_and(p):
    a = p_not(p)
    while p.kw('AND'):
        a = ('and', a, p_not(p))
    return a


def p_not(p):
    if p.kw('NOT'):
        return ('not', p_not(p))
    return p_cmp(p)


def p_operand(p):
    lit = p.literal()
    if lit is not None:
        return ('lit', lit[0])
    if p.sym('('):
        e = p_or(p)
        p.need_sym(')')
        return e
    if p.is_kw('DATABASE') and p.peek(1) is not None and p.peek(1).val == '(':
        p.i += 2
        p.need_sym(')')
        return ('fn', 'DATABASE')
    n = p.ident()
    if p.sym('.'):
        n = p.ident()
    return ('col', n)


def p_cmp(p):
    a = p_operand(p)
    t = p.peek()
    if t is not None and t.kind == 'y' and t.val in ('=', '<', '>', '<=', '>=', '<>', '!='):
        p.i += 1
        return ('cmp', t.val, a, p_operand(p))
    if p.kw('IS', 'NOT', 'NULL'):
        return ('not', ('isnull', a))
    if p.kw('IS', 'NULL'):
        return ('isnull', a)
    neg = p.kw('NOT')
    if p.kw('IN'):
        p.need_sym('(')
        vals = [p_operand(p)]
        while p.sym(','):
            vals.append(p_operand(p))
        p.need_sym(')')
        e = ('in', a, vals)
        return ('not', e) if neg else e
    if p.kw('LIKE'):
        e = ('like', a, p_operand(p))
        return ('not', e) if neg else e
    if p.kw('BETWEEN'):
        lo = p_operand(p)
        p.need('AND')
        e = ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, p_operand(p)))
        return ('not', e) if neg else e
    if p.is_kw('REGEXP'):
        raise Unsupported(p.peek().val)
    if neg:
        raise p.err()
    return a


def p_limit(p):
    order = None
    if p.kw('ORDER', 'BY'):
        order = []
        while True:
            n = p.ident()
            d = False
            if p.kw('DESC'):
                d = True
            else:
                p.kw('ASC')
            order.append((n, d))
            if not p.sym(','):
                break
    lim = None
    if p.kw('LIMIT'):
        lim = p.number()
        if p.sym(','):
            lim = (lim, p.number())
        elif p.kw('OFFSET'):
            lim = (p.number(), lim)
        else:
            lim = (0, lim)
    return order, lim


def p_values(p):
    p.need_sym('(')
    vals = []
    if not p.sym(')'):
        while True:
            if p.kw('DEFAULT'):
                vals.append(('default',))
            else:
                now = p_now(p)
                if now:
                    vals.append(now)
                else:
                    lit = p.literal()
                    if lit is None:
                        if p.peek() is not None and p.peek().kind in 'wq':
                            n = p.ident()
                            nt = p.peek()
                            if nt is not None and nt.kind == 'y' and nt.val == '(':
                                raise Unsupported('function in VALUES')
                            vals.append(('col', n))
                        else:
                            raise p.err()
                    else:
                        vals.append(('lit', lit[0]))
            if not p.sym(','):
                break
        p.need_sym(')')
    return vals


def p_insert(p, replace):
    ignore = p.kw('IGNORE')
    p.kw('INTO')
    name = p.table()
    cols = None
    t = p.peek()
    if t is not None and t.kind == 'y' and t.val == '(':
        cols = p.idents()
    if p.is_kw('SELECT'):
        raise Unsupported('INSERT ... SELECT')
    if cols is None and p.kw('SET'):
        cols, row = [], []
        while True:
            cols.append(p.ident())
            p.need_sym('=')
            v = p_assign_value(p)
            if v[0] not in ('default', 'now', 'lit', 'col'):
                raise Unsupported('INSERT ... SET expression')
            row.append(v)
            if not p.sym(','):
                break
        return ('insert', name, cols, [row], replace, ignore, p_on_dup(p))
    if not (p.kw('VALUES') or p.kw('VALUE')):
        raise p.err()
    rows = [p_values(p)]
    while p.sym(','):
        rows.append(p_values(p))
    return ('insert', name, cols, rows, replace, ignore, p_on_dup(p))


def p_on_dup(p):
    if p.kw('AS'):
        raise Unsupported('row alias')
    if not p.kw('ON', 'DUPLICATE'):
        return None
    p.need('KEY', 'UPDATE')
    sets = []
    while True:
        n = p.ident()
        p.need_sym('=')
        if p.kw('VALUES'):
            p.need_sym('(')
            sets.append((n, ('values', p.ident())))
            p.need_sym(')')
        else:
            sets.append((n, p_assign_value(p)))
        if not p.sym(','):
            break
    return sets


def p_assign_value(p):
    if p.kw('DEFAULT'):
        return ('default',)
    now = p_now(p)
    if now:
        return now
    e = p_operand(p)
    t = p.peek()
    if t is not None and t.kind == 'y' and t.val in '+-':
        p.i += 1
        return ('arith', t.val, e, p_operand(p))
    return e


def p_set(p):
    out = []
    while True:
        scope = 'session'
        if p.kw('NAMES') or p.kw('CHARACTER', 'SET'):
            out.append(('names', p.word_or_string(), None))
            if p.kw('COLLATE'):
                p.word_or_string()
        elif p.kw('TRANSACTION') or p.is_kw('SESSION', 'TRANSACTION') or p.is_kw('GLOBAL', 'TRANSACTION'):
            p.kw('SESSION') or p.kw('GLOBAL')
            p.kw('TRANSACTION')
            if not (p.kw('READ', 'ONLY') or p.kw('READ', 'WRITE')):
                p.need('ISOLATION', 'LEVEL')
                if not (p.kw('REPEATABLE', 'READ') or p.kw('READ', 'COMMITTED') or p.kw('READ', 'UNCOMMITTED') or
                        p.kw('SERIALIZABLE')):
                    raise p.err()
            out.append(('user', 'isolation', None))
        else:
            if p.kw('GLOBAL') or p.kw('PERSIST'):
                scope = 'global'
            elif p.kw('SESSION') or p.kw('LOCAL'):
                pass
            elif p.sym('@@'):
                if p.kw('GLOBAL'):
                    scope = 'global'
                    p.need_sym('.')
                elif p.kw('SESSION') or p.kw('LOCAL'):
                    p.need_sym('.')
            elif p.sym('@'):
                scope = 'user'
            name = p.ident()
            if not p.sym('='):
                p.need_sym(':=')
            lit = p.literal()
            if lit is None:
                if p.sym('@@'):
                    if p.kw('SESSION') or p.kw('GLOBAL'):
                        p.need_sym('.')
                    lit = (('var', p.ident().lower()),)
                elif p.sym('@'):
                    lit = (('user', p.ident().lower()),)
                else:
                    lit = (p.word_any(),)
            out.append((scope, name.lower(), lit[0]))
        if not p.sym(','):
            break
    return ('set', out)


def _word_any(self):
    t = self.peek()
    if t is None or t.kind not in 'wq':
        raise self.err()
    self.i += 1
    return t.val


P.word_any = _word_any


def p_select(p):
    if p.sym('@@'):
        p.kw('SESSION') and p.need_sym('.')
        n = p.ident()
        return ('selvar', n.lower())
    lit = p.literal()
    if lit is not None and p.peek() is None:
        return ('sellit', lit[0])
    if lit is not None:
        raise Unsupported('SELECT literal')
    cols = None
    if p.sym('*'):
        pass
    elif p.is_kw('COUNT'):
        p.i += 1
        p.need_sym('(')
        p.need_sym('*')
        p.need_sym(')')
        cols = 'count'
    elif p.peek() is not None and p.peek().kind == 'w' and p.peek().val.upper() in (
            'DATABASE', 'SCHEMA', 'VERSION', 'USER', 'CURRENT_USER', 'CONNECTION_ID', 'ROW_COUNT', 'LAST_INSERT_ID') and \
            p.peek(1) is not None and p.peek(1).val == '(':
        fn = p.word_any().upper()
        p.need_sym('(')
        p.need_sym(')')
        return ('selfn', fn)
    else:
        cols = []
        while True:
            n = p.ident()
            t = p.peek()
            if t is not None and t.kind == 'y' and t.val == '(':
                raise Unsupported('SELECT function')
            if p.sym('.'):
                if p.sym('*'):
                    cols = None
                    break
                n = p.ident()
            cols.append(n)
            if not p.sym(','):
                break
    p.need('FROM')
    name = p.ident()
    if p.sym('.'):
        schema = name.lower()
        name = p.ident()
        if schema == 'information_schema' and name.lower() == 'tables':
            name = 'information_schema.tables'
        elif schema in ('information_schema', 'performance_schema', 'mysql'):
            raise Unsupported(schema)
    where = p_where(p)
    order, lim = p_limit(p)
    lock = None
    if p.kw('LOCK', 'IN', 'SHARE', 'MODE'):
        lock = 'S'
    elif p.is_kw('FOR', 'UPDATE') or p.is_kw('FOR', 'SHARE'):
        lock = 'S' if p.is_kw('FOR', 'SHARE') else 'X'
        p.i += 2
        if p.is_kw('NOWAIT') or p.is_kw('SKIP') or p.is_kw('OF'):
            raise Unsupported(p.peek().val)
    if p.is_kw('JOIN') or p.is_kw('INNER') or p.is_kw('LEFT') or p.is_kw('GROUP'):
        raise Unsupported(p.peek().val)
    return ('select', name, cols, where, order, lim, lock)


@lru_cache(maxsize=4096)
def parse(sql):
    p = P(sql)
    if not p.t:
        raise SqlError(1065, 'Query was empty', '42000')
    t = p.peek()
    if t.kind != 'w':
        raise p.err()
    k = t.val.upper()
    p.i += 1
    if k == 'CREATE':
        ast = p_create(p)
    elif k == 'ALTER':
        if p.is_kw('DATABASE') or p.is_kw('SCHEMA') or p.is_kw('USER'):
            raise Unsupported('ALTER ' + p.peek().val)
        ast = p_alter(p)
    elif k == 'DROP':
        if p.kw('TABLE'):
            ie = p.kw('IF', 'EXISTS')
            names = [p.table()]
            while p.sym(','):
                names.append(p.table())
            p.kw('RESTRICT') or p.kw('CASCADE')
            ast = ('drop', names, ie)
        elif p.kw('INDEX'):
            n = p.ident()
            p.need('ON')
            ast = ('alter', p.table(), [('drop_index', n)], {})
        elif p.is_kw('DATABASE') or p.is_kw('SCHEMA'):
            p.i += 1
            ie = p.kw('IF', 'EXISTS')
            ast = ('dropdb', p.ident(), ie)
        else:
            raise Unsupported('DROP ' + str(p.peek() and p.peek().val))
    elif k == 'TRUNCATE':
        p.kw('TABLE')
        ast = ('truncate', p.table())
    elif k == 'RENAME':
        p.need('TABLE')
        pairs = []
        while True:
            a = p.table()
            p.need('TO')
            pairs.append((a, p.table()))
            if not p.sym(','):
                break
        ast = ('rename', pairs)
    elif k in ('INSERT', 'REPLACE'):
        ast = p_insert(p, k == 'REPLACE')
    elif k == 'UPDATE':
        name = p.table()
        p.need('SET')
        sets = []
        while True:
            n = p.ident()
            p.need_sym('=')
            sets.append((n, p_assign_value(p)))
            if not p.sym(','):
                break
        where = p_where(p)
        order, lim = p_limit(p)
        ast = ('update', name, sets, where, order, lim)
    elif k == 'DELETE':
        p.need('FROM')
        name = p.table()
        where = p_where(p)
        order, lim = p_limit(p)
        ast = ('delete', name, where, order, lim)
    elif k == 'SELECT':
        ast = p_select(p)
    elif k == 'SHOW':
        full = p.kw('FULL')
        if p.kw('TABLES'):
            if p.kw('FROM') or p.kw('IN'):
                p.ident()
            like = p.string() if p.kw('LIKE') else None
            ast = ('show_tables', full, p_where(p), like)
        elif p.kw('CREATE', 'TABLE'):
            ast = ('show_create', p.table())
        elif p.kw('WARNINGS') or p.kw('ERRORS'):
            ast = ('show_warnings',)
        elif p.kw('COLUMNS') or p.kw('FIELDS'):
            if not (p.kw('FROM') or p.kw('IN')):
                raise p.err()
            ast = ('describe', p.table())
        elif p.kw('VARIABLES') or p.kw('SESSION', 'VARIABLES'):
            ast = ('show_vars', p.string() if p.kw('LIKE') else '%')
        elif p.kw('DATABASES') or p.kw('SCHEMAS'):
            ast = ('show_dbs', p.string() if p.kw('LIKE') else '%')
        elif p.is_kw('TABLE', 'STATUS'):
            raise Unsupported('SHOW TABLE STATUS')
        else:
            raise Unsupported('SHOW ' + str(p.peek() and p.peek().val))
    elif k == 'SET':
        ast = p_set(p)
    elif k == 'START':
        p.need('TRANSACTION')
        p.kw('READ', 'WRITE') or p.kw('READ', 'ONLY') or p.kw('WITH', 'CONSISTENT', 'SNAPSHOT')
        ast = ('begin',)
    elif k == 'BEGIN':
        p.kw('WORK')
        ast = ('begin',)
    elif k == 'COMMIT':
        p.kw('WORK')
        ast = ('commit',)
    elif k == 'ROLLBACK':
        p.kw('WORK')
        if p.kw('TO'):
            p.kw('SAVEPOINT')
            ast = ('rollback_to', p.ident())
        else:
            ast = ('rollback',)
    elif k == 'SAVEPOINT':
        ast = ('savepoint', p.ident())
    elif k == 'RELEASE':
        p.need('SAVEPOINT')
        ast = ('release', p.ident())
    elif k == 'LOCK':
        if not (p.kw('TABLES') or p.kw('TABLE')):
            raise p.err()
        names = []
        while True:
            names.append((p.table(), 'S' if p.kw('READ') else 'X'))
            p.kw('LOCAL')
            p.kw('WRITE')
            if not p.sym(','):
                break
        ast = ('lock', names)
    elif k == 'UNLOCK':
        if not (p.kw('TABLES') or p.kw('TABLE')):
            raise p.err()
        ast = ('unlock',)
    elif k in ('DESCRIBE', 'DESC'):
        ast = ('describe', p.table())
    elif k in ('ANALYZE', 'OPTIMIZE', 'CHECK', 'FLUSH'):
        if not (p.kw('TABLE') or p.kw('TABLES')):
            raise Unsupported(k)
        names = []
        while p.peek() is not None and p.peek().kind in 'wq':
            names.append(p.table())
            if not p.sym(','):
                break
        ast = ('maintain', names)
    elif k == 'USE':
        ast = ('use', p.ident())
    elif k in ('CALL', 'EXPLAIN', 'WITH', 'KILL', 'DO', 'PREPARE', 'GRANT', 'HANDLER', 'LOAD'):
        raise Unsupported(k)
    else:
        p.i -= 1
        raise p.err()
    p.end()
    return ast
