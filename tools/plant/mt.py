"""Small independent reader/writer of Minetest mapblocks (versions 25-29) and maps."""
import os, shutil, sqlite3, struct, subprocess, tempfile, zlib

import ctypes
_z = None
def _zstd():
    global _z
    if _z is None:
        _z = ctypes.CDLL('libzstd.so.1')
        for f in ('ZSTD_compressBound', 'ZSTD_compress', 'ZSTD_decompress'): getattr(_z, f).restype = ctypes.c_size_t
    return _z
def zstd_c(b):
    z = _zstd(); n = z.ZSTD_compressBound(ctypes.c_size_t(len(b))); o = ctypes.create_string_buffer(n)
    r = z.ZSTD_compress(o, ctypes.c_size_t(n), b, ctypes.c_size_t(len(b)), 3); assert not z.ZSTD_isError(ctypes.c_size_t(r)); return o.raw[:r]
def zstd_d(b):
    z = _zstd(); n = 16 << 20; o = ctypes.create_string_buffer(n)
    r = z.ZSTD_decompress(o, ctypes.c_size_t(n), b, ctypes.c_size_t(len(b))); assert not z.ZSTD_isError(ctypes.c_size_t(r)), 'bad zstd frame'; return o.raw[:r]

def s16(b): return struct.pack('>H', len(b)) + b
def s32(b): return struct.pack('>I', len(b)) + b

class Block:
    def __init__(self, fill='air', ver=28, flags=0, light=0xFFFF, ts=1):
        self.ver, self.flags, self.light, self.ts = ver, flags, light, ts
        self.nodes = [fill] * 4096
        self.p1 = bytearray(4096)
        self.p2 = bytearray(4096)
        self.meta = {}      # idx -> ([(key, value, private)], inventory bytes)
        self.objs = []      # (type, (x, y, z), data)
        self.timers = []    # (idx, timeout, elapsed)
        self.names = None   # fix the order of names (id = index)
    def enc(self):
        names = list(self.names or [])
        ids = {n: i for i, n in enumerate(names)}
        nd = bytearray()
        for n in self.nodes:
            if n not in ids: ids[n] = len(names); names.append(n)
            nd += struct.pack('>H', ids[n])
        nd += self.p1 + self.p2
        mv = 2 if self.ver >= 28 else 1
        if self.meta:
            md = struct.pack('>BH', mv, len(self.meta))
            for i in sorted(self.meta):
                vs, inv = self.meta[i]
                md += struct.pack('>HI', i, len(vs))
                for k, v, p in vs:
                    md += s16(k) + s32(v) + (bytes([p]) if mv == 2 else b'')
                md += inv
        else: md = b'\0'
        objs = struct.pack('>BH', 0, len(self.objs))
        for t, p, d in self.objs: objs += struct.pack('>Biii', t, *p) + s16(d)
        nm = struct.pack('>BH', 0, len(names))
        for i, n in enumerate(names): nm += struct.pack('>H', i) + s16(n.encode())
        tm = struct.pack('>BH', 10, len(self.timers))
        for t in self.timers: tm += struct.pack('>HII', *t)
        ts = struct.pack('>I', self.ts)
        if self.ver >= 29:
            return bytes([self.ver]) + zstd_c(bytes([self.flags]) + struct.pack('>H', self.light) + ts + nm + b'\2\2' + bytes(nd) + md + objs + tm)
        o = bytes([self.ver, self.flags])
        if self.ver >= 27: o += struct.pack('>H', self.light)
        o += b'\2\2' + zlib.compress(bytes(nd)) + zlib.compress(md)
        o += objs + ts + nm + tm
        return o

def dec(raw):
    b = Block(); b.ver = raw[0]; p = 1
    assert 25 <= b.ver <= 29
    new = b.ver >= 29
    if new: raw, p = zstd_d(raw[1:]), 0
    def take(f):
        nonlocal p
        v = struct.unpack_from(f, raw, p); p += struct.calcsize(f); return v if len(v) > 1 else v[0]
    def inflate():
        nonlocal p
        d = zlib.decompressobj(); r = d.decompress(raw[p:]); p = len(raw) - len(d.unused_data); assert d.eof; return r
    names = {}
    def table():
        nonlocal p
        b.ts = take('>I')
        v, n = take('>BH'); assert v == 0
        for _ in range(n):
            i, l = take('>HH'); names[i] = raw[p:p+l].decode(); p += l
    b.flags = take('>B')
    if b.ver >= 27: b.light = take('>H')
    if new: table()
    assert take('>BB') == (2, 2)
    if new: nd = raw[p:p+16384]; p += 16384
    else: nd = inflate()
    assert len(nd) == 16384
    ids = struct.unpack('>4096H', nd[:8192]); b.p1 = bytearray(nd[8192:12288]); b.p2 = bytearray(nd[12288:])
    m, q = (raw, p) if new else (inflate(), 0)
    mv = m[q]; q += 1
    assert mv in (0, 1, 2)
    if mv:
        n, = struct.unpack_from('>H', m, q); q += 2
        for _ in range(n):
            i, k = struct.unpack_from('>HI', m, q); q += 6; vs = []
            for _ in range(k):
                l, = struct.unpack_from('>H', m, q); key = m[q+2:q+2+l]; q += 2 + l
                l, = struct.unpack_from('>I', m, q); val = m[q+4:q+4+l]; q += 4 + l; pr = 0
                if mv == 2: pr = m[q]; q += 1
                vs.append((key, val, pr))
            e = m.index(b'EndInventory\n', q) + 13
            b.meta[i] = (sorted(vs), m[q:e]); q = e
    if new: p = q
    else: assert q == len(m)
    v, n = take('>BH'); assert v == 0
    for _ in range(n):
        t, x, y, z, l = take('>BiiiH'); b.objs.append((t, (x, y, z), raw[p:p+l])); p += l
    if not new: table()
    assert all(i in names for i in ids), 'node without a name'
    b.nodes = [names[i] for i in ids]
    v, n = take('>BH'); assert v == 10
    for _ in range(n): b.timers.append(take('>HII'))
    assert p == len(raw), 'trailing bytes'
    return b

def same(a, b, ver=True):
    """Do two blocks mean the same?"""
    f = lambda x: (x.flags, x.light if x.ver >= 27 else None, x.ts, x.nodes, bytes(x.p1), bytes(x.p2),
                   {i: (sorted(v), n) for i, (v, n) in x.meta.items()}, sorted(x.objs), sorted(x.timers))
    return f(a) == f(b)

def key(x, y, z): return x + y * 4096 + z * 16777216
def idx(x, y, z): return x % 16 + (y % 16) * 16 + (z % 16) * 256
def lua_entity(name, data): return b'\1' + s16(name) + s32(data) + b'\0\1' + b'\0' * 22

class Map:
    """A scratch world. blocks: {(x, y, z): Block or raw bytes}."""
    def __init__(self, blocks):
        self.dir = tempfile.mkdtemp(prefix='mapdemo.')
        self.file = os.path.join(self.dir, 'map.sqlite')
        c = sqlite3.connect(self.file)
        c.execute('CREATE TABLE blocks (pos INT NOT NULL PRIMARY KEY, data BLOB)')
        for p, b in blocks.items():
            c.execute('INSERT INTO blocks VALUES (?, ?)', (key(*p), b if isinstance(b, bytes) else b.enc()))
        c.commit(); c.close()
    def raw(self):
        c = sqlite3.connect(self.file); r = {k: bytes(v) for k, v in c.execute('SELECT pos, data FROM blocks')}; c.close(); return r
    def get(self, *p): return dec(self.raw()[key(*p)])
    def __del__(self): shutil.rmtree(self.dir, ignore_errors=True)

BIN = os.path.join(os.getcwd(), 'target/debug/mapeditr')
def run(m, *args, src=None, yes=True, stdin=b'', env=None, timeout=120):
    a = [BIN] + (['-y'] if yes else []) + [m.dir, args[0]] + ([src.dir] if src else []) + [str(x) for x in args[1:]]
    r = subprocess.run(a, input=stdin, capture_output=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    r.out = r.stdout.decode(errors='replace').replace('\r', '\n')
    return r
