"""C01: colour part of BC1/BC2/BC3 decoding"""
from decode_common import decode_job
BOUNDS = "none: all 2^64 (BC1) / 2^128 (BC2, BC3) blocks, all 16 pixels"
def jobs(tier):
    return [("BC1 colour and alpha", decode_job, dict(f=1, chans=(0, 1, 2, 3)), 240)] + \
           [(f"BC{f} colour", decode_job, dict(f=f, chans=(0, 1, 2)), 240) for f in (2, 3)]
