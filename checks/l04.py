from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['split, trim: strings of up to 5 arbitrary bytes; comparisons: pairs of up to 3 bytes', 'string builder: up to 9 appends; memory stream: histories of 4 operations; lines: files of up to 4 arbitrary bytes']
    h = lambda k, n, l: H("str", [6] + l, assumes=["(= in0 #x%02x)" % k], cover=[n], note=n)
    lib.run(chk, [h(0, "split", [6] + [256] * 6 + [2, 4]), h(1, "trim", [6] + [256] * 5), h(2, "cmp", [4, 4] + [256] * 6),
                  h(3, "builder", [10] + [256] * 3 + [3, 2]), h(4, "mem", [4] + [6, 256, 1] * 4), h(5, "lines", [5] + [256] * 4)])
