"""MySQL client/server protocol between the real pymysql library and the simulated server.

`FakeSocket` stands where the TCP socket would be.  Every connect, request and
response is an I/O point of the actor that owns the connection; the world's fault
plan decides there what happens to it.
"""
import hashlib
import io
import socket
import struct

from .engine import Server, VERSIONS
from .sqlparse import Unsupported
from .values import SqlError, Col, INTS, TEXTS, BLOBS, text_of

CAPS = (0x00000001 | 0x00000002 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00001000 | 0x00002000 | 0x00008000 |
        0x00010000 | 0x00020000 | 0x00080000 | 0x00200000)
SALT = b'12345678' + b'abcdefghijkl'


def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 65536:
        return b'\xfc' + struct.pack('<H', n)
    if n < 1 << 24:
        return b'\xfd' + struct.pack('<I', n)[:3]
    return b'\xfe' + struct.pack('<Q', n)


def lstr(b):
    return lenenc(len(b)) + b


def col_type(k):
    if isinstance(k, Col):
        b = k.base
        t = {'tinyint': 1, 'smallint': 2, 'int': 3, 'float': 4, 'double': 5, 'timestamp': 7, 'bigint': 8, 'mediumint': 9,
             'date': 10, 'time': 11, 'datetime': 12, 'year': 13, 'varchar': 253, 'varbinary': 253, 'bit': 16, 'json': 245,
             'decimal': 246, 'enum': 254, 'set': 254, 'char': 254, 'binary': 254}.get(b, 252)
        flags = 0
        cs = 255
        if b in BLOBS or b in ('binary', 'varbinary'):
            flags, cs = 0x80, 63
        elif b in INTS or b in ('decimal', 'float', 'double', 'bit') or t in (7, 10, 11, 12, 13):
            flags, cs = 0x80, 63
        elif b == 'enum':
            flags = 0x100
        elif b == 'set':
            flags = 0x800
        if k.unsigned:
            flags |= 0x20
        return t, flags, cs, (k.length or 255), (k.scale or 0)
    if k == 'int':
        return 8, 0x80, 63, 21, 0
    return 253, 0, 255, 1024, 0


def cell(k, v):
    if v is None:
        return b'\xfb'
    if isinstance(k, Col):
        if k.base == 'bit':
            return lstr(v.to_bytes((k.length + 7) // 8, 'big'))
    return lstr(text_of(v).encode('utf8', 'surrogateescape'))


class ServerConn:
    """Server side of one connection: bytes in, bytes out."""

    def __init__(self, server, actor, host, port):
        self.server, self.actor, self.host, self.port = server, actor, host, port
        self.session = None
        self.seq = 0
        self.state = 'auth'
        self.epoch = server.starts

    def packet(self, payload):
        out = b''
        while True:
            part, payload = payload[:0xffffff], payload[0xffffff:]
            out += struct.pack('<I', len(part))[:3] + bytes([self.seq]) + part
            self.seq = (self.seq + 1) % 256
            if len(part) < 0xffffff:
                return out

    def status(self):
        s = self.session
        st = 0
        if s is not None:
            if s.vars['autocommit']:
                st |= 2
            if s.in_tx or s.work:
                st |= 1
        else:
            st = 2
        return st

    def greeting(self):
        v = VERSIONS[self.server.style].encode() + b'\0'
        p = b'\x0a' + v + struct.pack('<I', self.server.next_sid) + SALT[:8] + b'\0' + struct.pack('<H', CAPS & 0xffff) + \
            bytes([45]) + struct.pack('<H', 2) + struct.pack('<H', CAPS >> 16) + bytes([21]) + b'\0' * 10 + SALT[8:] + \
            b'\0' + b'mysql_native_password\0'
        self.seq = 0
        return self.packet(p)

    def err(self, code, msg, state='HY000'):
        return self.packet(b'\xff' + struct.pack('<H', code) + b'#' + state.encode() + msg.encode('utf8', 'replace'))

    def ok(self, affected=0, last_id=0):
        return self.packet(b'\x00' + lenenc(affected) + lenenc(last_id) + struct.pack('<HH', self.status(), 0))

    def eof(self):
        return self.packet(b'\xfe' + struct.pack('<HH', 0, self.status()))

    def login(self, p):
        caps = struct.unpack('<I', p[:4])[0]
        i = 32
        j = p.index(b'\0', i)
        user = p[i:j].decode('utf8')
        i = j + 1
        n = p[i]
        auth = p[i + 1:i + 1 + n]
        i += 1 + n
        db = None
        if caps & 8 and i < len(p):
            j = p.index(b'\0', i)
            db = p[i:j].decode('utf8') or None
        srv = self.server
        want = srv.users.get(user)
        if want is None or auth != scramble(want.encode('utf8')):
            srv.connects.append((self.actor, self.host, self.port, user, db, False))
            return self.err(1045, "Access denied for user '%s'@'localhost' (using password: %s)" % (
                user, 'YES' if auth else 'NO'), '28000')
        if db is not None and db not in srv.dbs:
            srv.connects.append((self.actor, self.host, self.port, user, db, False))
            return self.err(1049, "Unknown database '%s'" % db, '42000')
        srv.connects.append((self.actor, self.host, self.port, user, db, True))
        self.session = srv.open_session(user, db, self.actor)
        self.state = 'ready'
        return self.ok()

    def result(self, r):
        if r.cols is None:
            return self.ok(r.affected, r.last_id)
        out = [self.packet(lenenc(len(r.cols)))]
        for name, k in r.cols:
            t, flags, cs, length, dec = col_type(k)
            n = name.encode('utf8')
            out.append(self.packet(lstr(b'def') + lstr(b'') + lstr(b't') + lstr(b't') + lstr(n) + lstr(n) + b'\x0c' +
                                   struct.pack('<HIBHB', cs, length, t, flags, dec) + b'\0\0'))
        out.append(self.eof())
        for row in r.rows:
            out.append(self.packet(b''.join(cell(k, v) for (_, k), v in zip(r.cols, row))))
        out.append(self.eof())
        return b''.join(out)

    def handle(self, seq, p, forced=None):
        """One client packet -> response bytes (None: connection closed by the command)."""
        self.seq = (seq + 1) % 256
        if self.state == 'auth':
            return self.login(p)
        cmd, body = p[0], p[1:]
        if cmd == 0x01:
            return None
        if forced is not None:
            return self.err(*forced)
        try:
            if cmd == 0x03:
                try:
                    sql = body.decode('utf8')
                except UnicodeDecodeError:
                    return self.err(1300, 'Invalid utf8mb4 character string', 'HY000')
                return self.result(self.server.query(self.session, sql))
            if cmd == 0x0e:
                return self.ok()
            if cmd == 0x02:
                return self.result(self.server.query(self.session, 'USE `%s`' % body.decode('utf8')))
            return self.err(1047, 'Unknown command', '08S01')
        except SqlError as e:
            return self.err(e.code, e.msg, e.state)


def scramble(password):
    if not password:
        return b''
    s1 = hashlib.sha1(password).digest()
    s2 = hashlib.sha1(s1).digest()
    s3 = hashlib.sha1(SALT + s2).digest()
    return bytes(a ^ b for a, b in zip(s1, s3))


class FakeSocket:
    """Client end handed to pymysql in place of a TCP socket."""

    def __init__(self, world, actor, host, port):
        self.world, self.actor = world, actor
        self.conn = ServerConn(world.server, actor.name, host, port)
        self.rx = bytearray()
        self.tx = bytearray()
        self.eof = False
        self.closed = False
        self.chunk = 0
        self.reset = False
        self.rx += self.conn.greeting()
        world.sockets.append(self)

    # -- methods pymysql uses
    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def makefile(self, mode='rb', *a, **k):
        return io.BufferedReader(_Raw(self))

    def sendall(self, data):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.tx += data
        while len(self.tx) >= 4:
            n = self.tx[0] | self.tx[1] << 8 | self.tx[2] << 16
            if len(self.tx) < 4 + n:
                return
            seq, payload = self.tx[3], bytes(self.tx[4:4 + n])
            del self.tx[:4 + n]
            self.world.request(self, seq, payload)

    send = sendall

    def recv_some(self, n):
        if not self.rx:
            if self.reset:
                raise ConnectionResetError(104, 'Connection reset by peer')
            if self.eof or self.closed:
                return b''
            raise self.world.harness_error('client reads with no response pending (would block for ever)')
        if self.chunk:
            n = min(n, self.chunk)
        out = bytes(self.rx[:n])
        del self.rx[:n]
        return out

    def close(self):
        if not self.closed:
            self.closed = True
            self.world.client_closed(self)

    def shutdown(self, how):
        self.close()

    def fileno(self):
        return -1

    # -- used by the world
    def drop_server_side(self):
        s = self.conn.session
        if s is not None and not s.closed:
            self.world.server.close_session(s)


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.sock.recv_some(len(b))
        b[:len(data)] = data
        return len(data)
