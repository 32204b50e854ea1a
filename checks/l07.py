from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['durations: all digits of 1-3 parts in the listed lengths; malformed texts of 3 arbitrary bytes; formatting: 4 x 3 x 3 x 4 classes of values']
    lib.run(chk, [H("dur", [1, 4, 6, 1, 1, 1, 6, 10, 4, 10, 3, 3], cover=["parse"], note="parse"),
                  H("dur", [2, 256, 256, 256], assumes=["(= in0 #x01)"], cover=["bad"], note="bad"),
                  H("dur", [3, 4, 3, 3, 4, 2, 16, 4], assumes=["(= in0 #x02)"], cover=["fmt"], note="format")])
