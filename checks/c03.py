"""C03: BC4/BC5 decoding"""
from decode_common import decode_job
BOUNDS = "none: all 2^64 (BC4) / 2^128 (BC5) blocks, all 16 pixels, all four channels"
def jobs(tier):
    return [(f"BC{f} channels", decode_job, dict(f=f, chans=(0, 1, 2, 3)), 240) for f in (4, 5)]
