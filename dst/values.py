"""Column types, literal conversion and comparison, as an InnoDB/strict-mode server does them."""
import datetime
import json
import re
from decimal import Decimal, InvalidOperation, ROUND_HALF_UP


class SqlError(Exception):
    def __init__(self, code, msg, state='HY000'):
        super().__init__('%s: %s' % (code, msg))
        self.code, self.msg, self.state = code, msg, state


INTS = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'bigint': 64}
INT_WIDTH = {'tinyint': (4, 3), 'smallint': (6, 5), 'mediumint': (9, 8), 'int': (11, 10), 'bigint': (20, 20)}
SYN = {'integer': 'int', 'numeric': 'decimal', 'dec': 'decimal', 'fixed': 'decimal', 'real': 'double',
       'int4': 'int', 'int8': 'bigint', 'int2': 'smallint', 'int1': 'tinyint', 'int3': 'mediumint',
       'middleint': 'mediumint', 'float4': 'float', 'float8': 'double'}
TEXTS = {'tinytext': 255, 'text': 65535, 'mediumtext': 2 ** 24 - 1, 'longtext': 2 ** 32 - 1}
BLOBS = {'tinyblob': 255, 'blob': 65535, 'mediumblob': 2 ** 24 - 1, 'longblob': 2 ** 32 - 1}
TEMPORAL = ('date', 'datetime', 'timestamp', 'time', 'year')
CHARS = ('char', 'varchar')
BINS = ('binary', 'varbinary')
ALL_TYPES = set(INTS) | {'decimal', 'float', 'double', 'bit', 'enum', 'set', 'json'} | set(TEXTS) | set(BLOBS) \
    | set(TEMPORAL) | set(CHARS) | set(BINS)
NUMERIC = set(INTS) | {'decimal', 'float', 'double', 'bit', 'year'}


class Col:
    __slots__ = ('name', 'base', 'length', 'scale', 'width', 'unsigned', 'zerofill', 'values', 'null', 'default',
                 'on_update', 'auto', 'charset', 'collate', 'comment', 'key', 'null_given')

    def __init__(self, name, base):
        self.name, self.base = name, base
        self.length = self.scale = self.width = None
        self.unsigned = self.zerofill = self.auto = False
        self.values = None
        self.null = True
        self.default = None  # None, ('null',), ('val', x), ('now', fsp)
        self.on_update = None
        self.charset = self.collate = self.comment = None
        self.null_given = None  # True / False: NULL / NOT NULL was written
        self.key = None  # inline key: 'PRIMARY' / 'UNIQUE'

    def copy(self):
        c = Col(self.name, self.base)
        for s in Col.__slots__:
            setattr(c, s, getattr(self, s))
        return c

    def type_key(self):
        """Identity of the stored type; integer display width is not part of it."""
        return (self.base, self.length, self.scale, self.unsigned, tuple(self.values or ()))

    def fk_key(self):
        if self.base in CHARS:
            return ('chars', (self.charset or '').lower(), (self.collate or '').lower())
        if self.base in BINS:
            return ('bins',)
        if self.base in INTS:
            return (self.base, self.unsigned)
        return (self.base, self.length, self.scale, self.unsigned, tuple(self.values or ()))

    def is_text(self):
        return self.base in TEXTS or self.base in BLOBS or self.base == 'json'

    def def_key(self):
        return (self.name, self.type_key(), self.null, self.canon_default(), self.on_update, self.auto,
                (self.charset or '').lower(), (self.collate or '').lower())

    def canon_default(self):
        if self.is_text():
            return None
        if self.default is None:
            return ('null',) if self.null and not self.auto else None
        return self.default


def check_type(c):
    """Fill in implied lengths and reject what the server rejects."""
    if c.base in INTS:
        if c.length is not None:
            if c.length > 255:
                raise SqlError(1439, "Display width out of range for column '%s' (max = 255)" % c.name, '42000')
            c.width, c.length = c.length, None
    elif c.base == 'decimal':
        c.length = 10 if c.length is None else c.length
        c.scale = c.scale or 0
        if c.length == 0:
            c.length = 10
        if c.length > 65:
            raise SqlError(1426, "Too-big precision %d specified for '%s'. Maximum is 65." % (c.length, c.name), '42000')
        if c.scale > 30 or c.scale > c.length:
            raise SqlError(1427, "For float(M,D), double(M,D) or decimal(M,D), M must be >= D (column '%s')." % c.name,
                           '42000')
    elif c.base in CHARS or c.base in BINS:
        if c.base in ('char', 'binary'):
            c.length = 1 if c.length is None else c.length
            if c.length > 255:
                raise SqlError(1074, "Column length too big for column '%s' (max = 255)" % c.name, '42000')
        elif c.length is None:
            raise SqlError(1064, 'You have an error in your SQL syntax (length of %s)' % c.name, '42000')
        elif c.length > (16383 if c.base == 'varchar' else 65535):
            raise SqlError(1074, "Column length too big for column '%s' (max = 16383)" % c.name, '42000')
    elif c.base == 'bit':
        c.length = 1 if c.length is None else c.length
        if c.length > 64:
            raise SqlError(1439, "Display width out of range for column '%s' (max = 64)" % c.name, '42000')
    elif c.base in ('datetime', 'timestamp', 'time'):
        c.length = c.length or None
        if c.length is not None and c.length > 6:
            raise SqlError(1426, "Too-big precision %d specified for '%s'. Maximum is 6." % (c.length, c.name), '42000')
    elif c.base == 'year':
        c.length = None
    elif c.base in ('enum', 'set'):
        vals = [v.rstrip(' ') for v in c.values]
        if len(set(v.casefold() for v in vals)) != len(vals):
            raise SqlError(1291, "Column '%s' has duplicated value in %s" % (c.name, c.base.upper()))
        c.values = vals
    elif c.base in TEXTS or c.base in BLOBS:
        c.length = None
    if c.unsigned and c.base not in INTS and c.base not in ('decimal', 'float', 'double'):
        raise SqlError(1064, "You have an error in your SQL syntax; near 'UNSIGNED' (column %s)" % c.name, '42000')
    if (c.charset or c.collate) and c.base not in CHARS and c.base not in TEXTS and c.base not in ('enum', 'set'):
        raise SqlError(1064, "You have an error in your SQL syntax; near 'CHARACTER SET/COLLATE' (column %s)" % c.name,
                       '42000')
    if c.auto and c.base not in INTS and c.base not in ('float', 'double'):
        raise SqlError(1063, "Incorrect column specifier for column '%s'" % c.name, '42000')
    if c.default is not None:
        bad = SqlError(1067, "Invalid default value for '%s'" % c.name, '42000')
        if c.auto:
            raise bad
        if c.default[0] == 'null':
            if not c.null:
                raise bad
            if not c.is_text():
                c.default = ('null',)
        elif c.default[0] == 'now':
            if c.base not in ('datetime', 'timestamp') or (c.default[1] or None) != (c.length or None):
                raise bad
        else:
            if c.is_text():
                raise SqlError(1101, "BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value" % c.name,
                               '42000')
            try:
                v = convert(c, c.default[1])
            except SqlError:
                raise bad
            c.default = ('val', v)
    if c.on_update is not None and (c.base not in ('datetime', 'timestamp') or (c.on_update[1] or None) != (c.length or None)):
        raise SqlError(1294, "Invalid ON UPDATE clause for '%s' column" % c.name)
    return c


_NUM = re.compile(r'^\s*([+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?)\s*$')


def _num(c, v):
    if isinstance(v, bool):
        return Decimal(int(v))
    if isinstance(v, (int, Decimal)):
        return Decimal(v)
    if isinstance(v, float):
        return Decimal(repr(v))
    m = _NUM.match(v)
    if not m:
        pre = re.match(r'^\s*[+-]?(\d+(\.\d*)?|\.\d+)', v)
        if pre:
            raise SqlError(1265, "Data truncated for column '%s' at row 1" % c.name, '01000')
        raise SqlError(1366, "Incorrect %s value: '%s' for column '%s' at row 1" % (
            'integer' if c.base in INTS else c.base, v, c.name))
    return Decimal(m.group(1))


def text_of(v):
    """A stored value as the server prints it."""
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15:
            return str(int(v))
        return repr(v)
    if isinstance(v, Decimal):
        return format(v, 'f')
    return str(v)


def convert(c, v):
    """Convert a literal (None, int, Decimal, float, str) for storage in column c; strict mode."""
    if v is None:
        if not c.null:
            raise SqlError(1048, "Column '%s' cannot be null" % c.name, '23000')
        return None
    b = c.base
    if b in INTS:
        d = _num(c, v).quantize(Decimal(1), rounding=ROUND_HALF_UP)
        i = int(d)
        bits = INTS[b]
        lo, hi = (0, 2 ** bits - 1) if c.unsigned else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        if not lo <= i <= hi:
            raise SqlError(1264, "Out of range value for column '%s' at row 1" % c.name, '22003')
        return i
    if b == 'decimal':
        try:
            d = _num(c, v).quantize(Decimal(1).scaleb(-c.scale), rounding=ROUND_HALF_UP)
        except InvalidOperation:
            raise SqlError(1264, "Out of range value for column '%s' at row 1" % c.name, '22003')
        if abs(d) >= Decimal(10) ** (c.length - c.scale) or (c.unsigned and d < 0):
            raise SqlError(1264, "Out of range value for column '%s' at row 1" % c.name, '22003')
        return d if d != 0 else abs(d)
    if b in ('float', 'double'):
        f = float(_num(c, v))
        if c.unsigned and f < 0:
            raise SqlError(1264, "Out of range value for column '%s' at row 1" % c.name, '22003')
        if c.scale is not None:
            f = round(f, c.scale)
            if abs(f) >= 10 ** (c.length - c.scale):
                raise SqlError(1264, "Out of range value for column '%s' at row 1" % c.name, '22003')
        elif b == 'float':
            f = float('%.6g' % f)
        return f + 0.0
    if b == 'bit':
        if isinstance(v, str):
            i = int.from_bytes(v.encode('latin-1', 'replace'), 'big') if v else 0
        else:
            i = int(_num(c, v))
        if i < 0 or i >= 2 ** c.length:
            raise SqlError(1406, "Data too long for column '%s' at row 1" % c.name, '22001')
        return i
    if b == 'year':
        i = int(_num(c, v))
        if isinstance(v, str) and len(v) in (1, 2):
            i += 2000 if i < 70 else 1900
        elif 1 <= i <= 69:
            i += 2000
        elif 70 <= i <= 99:
            i += 1900
        if not (i == 0 or 1901 <= i <= 2155):
            raise SqlError(1264, "Out of range value for column '%s' at row 1" % c.name, '22003')
        return i
    if b in ('date', 'datetime', 'timestamp'):
        return _datetime(c, v)
    if b == 'time':
        m = re.match(r'^(-?)(\d{1,3}):(\d{1,2})(?::(\d{1,2}))?(\.\d+)?$', text_of(v))
        if not m or int(m.group(3)) > 59 or int(m.group(4) or 0) > 59 or int(m.group(2)) > 838:
            raise SqlError(1292, "Incorrect time value: '%s' for column '%s' at row 1" % (v, c.name), '22007')
        s = '%s%02d:%02d:%02d' % (m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4) or 0))
        if c.length:
            s += '.' + ((m.group(5) or '.')[1:] + '000000')[:c.length]
        return s
    s = text_of(v)
    if b in CHARS or b in BINS:
        size = len(s) if b in CHARS else len(s.encode('utf8'))
        if b in CHARS and size > c.length and s[c.length:].strip(' ') == '':
            s = s[:c.length]
            size = c.length
        if size > c.length:
            raise SqlError(1406, "Data too long for column '%s' at row 1" % c.name, '22001')
        if b == 'char':
            s = s.rstrip(' ')
        if b == 'binary':
            s = s + '\0' * (c.length - size)
        return s
    if b in TEXTS or b in BLOBS:
        if len(s.encode('utf8')) > (TEXTS.get(b) or BLOBS.get(b)):
            raise SqlError(1406, "Data too long for column '%s' at row 1" % c.name, '22001')
        return s
    if b == 'enum':
        if not isinstance(v, str):
            i = int(_num(c, v))
            if 1 <= i <= len(c.values):
                return c.values[i - 1]
            raise SqlError(1265, "Data truncated for column '%s' at row 1" % c.name, '01000')
        for e in c.values:
            if e.casefold() == s.casefold():
                return e
        if s.isdigit() and 1 <= int(s) <= len(c.values):
            return c.values[int(s) - 1]
        raise SqlError(1265, "Data truncated for column '%s' at row 1" % c.name, '01000')
    if b == 'set':
        parts = [p for p in s.split(',')] if s else []
        got = []
        for p in parts:
            m = [e for e in c.values if e.casefold() == p.casefold()]
            if not m:
                raise SqlError(1265, "Data truncated for column '%s' at row 1" % c.name, '01000')
            got.append(m[0])
        return ','.join(e for e in c.values if e in got)
    if b == 'json':
        try:
            return json.dumps(json.loads(s), sort_keys=True, ensure_ascii=False)
        except ValueError:
            raise SqlError(3140, "Invalid JSON text for column '%s'." % c.name, '22032')
    raise SqlError(1064, 'unknown type %s' % b, '42000')


_DT = re.compile(r'^(\d{4})[-/](\d{1,2})[-/](\d{1,2})(?:[ T](\d{1,2}):(\d{1,2})(?::(\d{1,2})(\.\d+)?)?)?$')


def _datetime(c, v):
    s = text_of(v)
    bad = SqlError(1292, "Incorrect %s value: '%s' for column '%s' at row 1" % (
        'date' if c.base == 'date' else 'datetime', s, c.name), '22007')
    m = _DT.match(s.strip())
    if not m:
        raise bad
    y, mo, d, h, mi, se = [int(m.group(i) or 0) for i in range(1, 7)]
    try:
        dt = datetime.datetime(y, mo, d, h, mi, se)
    except ValueError:
        raise bad
    if c.base == 'timestamp' and not datetime.datetime(1970, 1, 1, 0, 0, 1) <= dt <= datetime.datetime(2038, 1, 19, 3, 14, 7):
        raise bad
    if c.base == 'date':
        return '%04d-%02d-%02d' % (y, mo, d)
    out = '%04d-%02d-%02d %02d:%02d:%02d' % (y, mo, d, h, mi, se)
    if c.length:
        out += '.' + ((m.group(7) or '.')[1:] + '000000')[:c.length]
    return out


def implicit_default(c):
    """The value an added NOT NULL column without default takes in existing rows."""
    if c.base in NUMERIC:
        return convert(c, 0)
    if c.base == 'enum':
        return c.values[0]
    if c.base in ('date', 'datetime', 'timestamp'):
        raise SqlError(1292, "Incorrect %s value: '0000-00-00' for column '%s' at row 1" % (c.base, c.name), '22007')
    if c.base == 'time':
        return convert(c, '00:00:00')
    if c.base == 'json':
        return 'null'
    return convert(c, '')


def index_value(c, v, prefix=None):
    """Key under which the value is unique / sorted (case-insensitive collation for character data)."""
    if v is None:
        return None
    if c.base in CHARS or c.base in TEXTS or c.base in ('enum', 'set'):
        s = v[:prefix] if prefix else v
        if (c.collate or '').lower().endswith('_bin'):
            return s
        return s.casefold()
    if c.base in BLOBS or c.base in BINS:
        return v[:prefix] if prefix else v
    return v


def compare(col, a, b):
    """a <=> literal b as in WHERE col = b; returns -1/0/1 or None for NULL."""
    if a is None or b is None:
        return None
    numeric = (col is not None and col.base in NUMERIC) or not isinstance(b, str) or not isinstance(a, (str,))
    if col is not None and col.base in TEMPORAL and col.base != 'year':
        try:
            b = convert(col, b)
        except SqlError:
            return 1
        return (a > b) - (a < b)
    if numeric:
        x, y = _loose_num(a), _loose_num(b)
        return (x > y) - (x < y)
    if col is not None and (col.base in BLOBS or col.base in BINS or (col.collate or '').lower().endswith('_bin')):
        return (a > b) - (a < b)
    x, y = a.casefold(), b.casefold()
    return (x > y) - (x < y)


def _loose_num(v):
    if isinstance(v, str):
        m = re.match(r'^\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?', v)
        return Decimal(m.group(0).strip()) if m else Decimal(0)
    return Decimal(repr(v)) if isinstance(v, float) else Decimal(v)
