from vf import lib
from vf.lib import Harness as H

def sel(lims, k):
    lims = list(lims) + [1] * (22 - len(lims)) + [4]
    return lims, ["(= in22 #x%02x)" % k]

def run(chk):
    chk.bounds = ['map, map2: every history of 3 operations over 4 (3, with colliding hashes) keys and arbitrary byte values, followed by growth', 'vec: up to 39 entries; buffer: 3 write/read rounds of up to 3 bytes; string table and list: 4 operations']
    hs = [H("map", [3] + [4, 256, 2] * 3, cover=["end"]), H("map2", [3] + [3, 2, 256] * 3, cover=["end"])]
    for k, (n, l) in enumerate([("vec", [40, 100]), ("buffer", [256] * 16 + [4, 4] * 3), ("table", [3] + [3] * 4), ("list", [3, 3])]):
        l, a = sel(l, k)
        hs.append(H("vec", l, cover=[n], note=n, assumes=a))
    lib.run(chk, hs)
