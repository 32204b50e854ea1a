from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['endian: all 4-byte values; bits: every 11-bit pattern in both orders', 'hex and urlencode: 3 arbitrary bytes; utf8: 4 arbitrary bytes and every rune up to 21 bits']
    lib.run(chk, [H("endian", 4, cover=["end"]), H("bits", [2] * 12, cover=["end"]), H("hex", [256] * 3 + [4, 10], cover=["all", "nospace", "url"]),
                  H("utf8", [256] * 4 + [2], cover=["count", "round", "toobig"])])
