"""ctypes access to the natively compiled real code (replays and validation)."""
import ctypes as c, struct
import build

class Native:
    def __init__(s, path=None):
        s.l = c.CDLL(path or build.native())
        Z = c.c_size_t; P = c.c_void_p; U = c.c_uint32
        s.l.n_decode.argtypes = [U, P, Z, P]; s.l.n_encode.argtypes = [U, P, U, U, U, P, P, Z]
        s.l.n_compress.argtypes = [U, P, Z, Z, Z, U, U, P, P, Z]; s.l.n_decompress.argtypes = [U, P, Z, Z, Z, P, Z]
        s.l.n_csize.argtypes = [U, Z, Z, P]; s.l.n_bsize.argtypes = [U, P]; s.l.n_nblocks.argtypes = [Z, P]
        for n in ("n_decode", "n_encode", "n_compress", "n_decompress", "n_csize", "n_bsize", "n_nblocks"): getattr(s.l, n).restype = U
        s.calls = 0

    GUARD = 64
    def _buf(s, n, fill):
        b = c.create_string_buffer(n + 2 * s.GUARD)
        c.memset(b, 0xA5, n + 2 * s.GUARD)
        for i, v in enumerate(fill): b[s.GUARD + i] = v
        return b
    def _out(s, b, n):
        r = b.raw
        if r[:s.GUARD] != b"\xa5" * s.GUARD or r[s.GUARD + n:] != b"\xa5" * s.GUARD: raise AssertionError("write outside the output buffer")
        return r[s.GUARD:s.GUARD + n]

    def decode(s, f, block):
        """block bytes -> 64 bytes or None on panic"""
        s.calls += 1
        o = c.create_string_buffer(64)
        if s.l.n_decode(f, bytes(block), len(block), o): return None
        return o.raw

    def encode(s, f, px, mask, alg, wba, ws, n=None, fill=None):
        """px: 64 bytes; returns output bytes or None on panic"""
        s.calls += 1
        if n is None: n = 8 if f in (1, 4) else 16
        px = bytes(px); assert len(px) == 64
        o = c.create_string_buffer(fill if fill is not None else b"\xcd" * n, n)
        if s.l.n_encode(f, px, mask & 0xffffffff, alg, wba, struct.pack("<3f", *ws), o, n): return None
        return o.raw

    def compress(s, f, px, w, h, alg, wba, ws, out):
        s.calls += 1
        o = c.create_string_buffer(bytes(out), len(out))
        if s.l.n_compress(f, bytes(px), len(px), w, h, alg, wba, struct.pack("<3f", *ws), o, len(out)): return None
        return o.raw

    def decompress(s, f, data, w, h, out):
        s.calls += 1
        o = c.create_string_buffer(bytes(out), len(out))
        if s.l.n_decompress(f, bytes(data), len(data), w, h, o, len(out)): return None
        return o.raw

    def csize(s, f, w, h):
        s.calls += 1; o = c.c_size_t()
        return None if s.l.n_csize(f, w, h, c.byref(o)) else o.value
    def bsize(s, f):
        s.calls += 1; o = c.c_size_t()
        return None if s.l.n_bsize(f, c.byref(o)) else o.value
    def nblocks(s, n):
        s.calls += 1; o = c.c_size_t()
        return None if s.l.n_nblocks(n, c.byref(o)) else o.value
