from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['bencode: 3 written values, strings of up to 3 arbitrary bytes, numbers from 16 classes', 'json: 2 arbitrary bytes in strings, keys and values; csv: up to 2 x 2 cells of up to 3 arbitrary bytes']
    h = lambda k, n, l, **a: H("formats", [10] + l, assumes=["(= in0 #x%02x)" % k], cover=[n], note=n, **a)
    lib.run(chk, [h(0, "bencode", [4, 256, 256, 256, 7, 16, 16, 2, 2]), h(2, "json", [256, 256, 3]), h(5, "csv", [3, 3] + [256] * 6 + [2])])
