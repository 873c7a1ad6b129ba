"""C02: alpha part of BC2/BC3 decoding"""
from decode_common import decode_job
BOUNDS = "none: all 2^128 blocks, all 16 pixels"
def jobs(tier):
    return [(f"BC{f} alpha", decode_job, dict(f=f, chans=(3,)), 240) for f in (2, 3)]
