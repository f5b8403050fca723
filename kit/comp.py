"""Stock compressors/decompressors, independent of drpm (Python stdlib + ctypes on libzstd/liblz)."""
import zlib, bz2, lzma, ctypes, ctypes.util

NONE, GZIP, BZIP2, LZMA, XZ, LZIP, ZSTD = range(7)
NAMES = {NONE: 'none', GZIP: 'gzip', BZIP2: 'bzip2', LZMA: 'lzma', XZ: 'xz', LZIP: 'lzip', ZSTD: 'zstd'}
DEFAULT_LEVEL = {GZIP: 9, BZIP2: 9, LZMA: 2, XZ: 3, LZIP: 9, ZSTD: 19}

_z = ctypes.CDLL('libzstd.so.1')
_z.ZSTD_createCCtx.restype = ctypes.c_void_p
_z.ZSTD_createDCtx.restype = ctypes.c_void_p
for _f in ('ZSTD_CCtx_reset', 'ZSTD_compressStream2', 'ZSTD_decompressStream', 'ZSTD_CCtx_setParameter', 'ZSTD_freeCCtx', 'ZSTD_freeDCtx'):
    getattr(_z, _f).restype = ctypes.c_size_t

class _Buf(ctypes.Structure):
    _fields_ = [('p', ctypes.c_void_p), ('size', ctypes.c_size_t), ('pos', ctypes.c_size_t)]

def _zerr(r):
    return r > (1 << 64) - 200

_cctx = None

def zstd_compress(data, level):
    global _cctx
    if _cctx is None: _cctx = _z.ZSTD_createCCtx()
    c = _cctx                           # (creating one every time is slow)
    _z.ZSTD_CCtx_reset(ctypes.c_void_p(c), ctypes.c_int(3))
    _z.ZSTD_CCtx_setParameter(ctypes.c_void_p(c), 100, ctypes.c_int(level))
    out = bytearray()
    ob = ctypes.create_string_buffer(1 << 17)
    src = ctypes.create_string_buffer(data, max(1, len(data)))
    inb = _Buf(ctypes.addressof(src), len(data), 0)
    # stream first (unknown content size), then end
    while inb.pos < inb.size:
        o = _Buf(ctypes.addressof(ob), len(ob), 0)
        r = _z.ZSTD_compressStream2(ctypes.c_void_p(c), ctypes.byref(o), ctypes.byref(inb), 0)
        assert not _zerr(r)
        out += ob.raw[:o.pos]
    while True:
        o = _Buf(ctypes.addressof(ob), len(ob), 0)
        r = _z.ZSTD_compressStream2(ctypes.c_void_p(c), ctypes.byref(o), ctypes.byref(inb), 2)
        assert not _zerr(r)
        out += ob.raw[:o.pos]
        if r == 0:
            break
    return bytes(out)

def zstd_decompress(data):
    d = _z.ZSTD_createDCtx()
    src = ctypes.create_string_buffer(data, max(1, len(data)))
    inb = _Buf(ctypes.addressof(src), len(data), 0)
    ob = ctypes.create_string_buffer(1 << 17)
    out = bytearray()
    r = 1
    while True:
        o = _Buf(ctypes.addressof(ob), len(ob), 0)
        r = _z.ZSTD_decompressStream(ctypes.c_void_p(d), ctypes.byref(o), ctypes.byref(inb))
        if _zerr(r):
            _z.ZSTD_freeDCtx(ctypes.c_void_p(d))
            raise ValueError('zstd')
        out += ob.raw[:o.pos]
        if r == 0 and inb.pos == inb.size:
            break
        if inb.pos == inb.size and o.pos < o.size:
            break
    _z.ZSTD_freeDCtx(ctypes.c_void_p(d))
    if r != 0:
        raise ValueError('zstd truncated')
    return bytes(out)

_l = ctypes.CDLL('liblz.so.1')
_l.LZ_compress_open.restype = ctypes.c_void_p
_l.LZ_decompress_open.restype = ctypes.c_void_p

def lzip_compress(data, dict_size=65535, match_len=16):
    e = ctypes.c_void_p(_l.LZ_compress_open(dict_size, match_len, ctypes.c_ulonglong((1 << 64) - 1 >> 1)))
    out = bytearray(); pos = 0
    ob = ctypes.create_string_buffer(65536)
    fin = False
    while True:
        if pos < len(data):
            chunk = data[pos:pos + 65536]
            w = _l.LZ_compress_write(e, chunk, len(chunk)); pos += w
        elif not fin:
            _l.LZ_compress_finish(e); fin = True
        n = _l.LZ_compress_read(e, ob, len(ob))
        assert n >= 0
        out += ob.raw[:n]
        if fin and _l.LZ_compress_finished(e) == 1:
            break
    _l.LZ_compress_close(e)
    return bytes(out)

def lzip_decompress(data):
    d = ctypes.c_void_p(_l.LZ_decompress_open())
    out = bytearray(); pos = 0; fin = False
    ob = ctypes.create_string_buffer(65536)
    while True:
        if pos < len(data):
            chunk = data[pos:pos + 65536]
            w = _l.LZ_decompress_write(d, chunk, len(chunk)); pos += w
        elif not fin:
            _l.LZ_decompress_finish(d); fin = True
        n = _l.LZ_decompress_read(d, ob, len(ob))
        if n < 0:
            _l.LZ_decompress_close(d); raise ValueError('lzip')
        out += ob.raw[:n]
        if _l.LZ_decompress_finished(d) == 1:
            break
    _l.LZ_decompress_close(d)
    return bytes(out)

def compress(comp, level, data):
    if level == 0:
        level = DEFAULT_LEVEL.get(comp, 0)
    if comp == NONE:
        return data
    if comp == GZIP:
        c = zlib.compressobj(level, zlib.DEFLATED, 31, 8)
        return c.compress(data) + c.flush()
    if comp == BZIP2:
        c = bz2.BZ2Compressor(level)
        return c.compress(data) + c.flush()
    if comp == LZMA:
        c = lzma.LZMACompressor(lzma.FORMAT_ALONE, preset=level)
        return c.compress(data) + c.flush()
    if comp == XZ:
        c = lzma.LZMACompressor(lzma.FORMAT_XZ, check=lzma.CHECK_SHA256, preset=level)
        return c.compress(data) + c.flush()
    if comp == LZIP:
        return lzip_compress(data)
    if comp == ZSTD:
        return zstd_compress(data, level)
    raise ValueError(comp)

def detect(data):
    if data[:2] == b'\x1f\x8b': return GZIP
    if data[:3] == b'BZh': return BZIP2
    if data[:6] == b'\xfd7zXZ\x00': return XZ
    if data[:4] == b'LZIP': return LZIP
    if data[:4] == b'\x28\xb5\x2f\xfd': return ZSTD
    if data[:3] == b'\x5d\x00\x00': return LZMA
    return NONE

def decompress(data, comp=None):
    """strict: the whole input must be exactly one complete stream"""
    if comp is None:
        comp = detect(data)
    if comp == NONE:
        return data
    if comp == GZIP:
        d = zlib.decompressobj(31)
    elif comp == BZIP2:
        d = bz2.BZ2Decompressor()
    elif comp == LZMA:
        d = lzma.LZMADecompressor(lzma.FORMAT_ALONE)
    elif comp == XZ:
        d = lzma.LZMADecompressor(lzma.FORMAT_XZ)
    elif comp == LZIP:
        return lzip_decompress(data)
    elif comp == ZSTD:
        return zstd_decompress(data)
    out = d.decompress(data)
    if not d.eof or d.unused_data:
        raise ValueError('incomplete or trailing data')
    return out
