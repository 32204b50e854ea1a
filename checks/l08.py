from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['bencode up to 5, json up to 4, csv up to 4, url up to 7 arbitrary bytes', 'number lengths 90..104, csv values 4090..4104, url parts at their size limits']
    h = lambda k, n, l, **a: H("formats", [10] + l, assumes=["(= in0 #x%02x)" % k], cover=[n], note=n, **a)
    lib.run(chk, [h(1, "bencode any", [6] + [256] * 8 + [2], panics=True), h(3, "json any", [5] + [256] * 4), h(4, "num", [15, 4]),
                  h(6, "csv any", [5] + [256] * 4, panics=True), h(7, "csv long", [15, 2], panics=True), h(8, "url", [8, 6, 4, 6]), h(9, "url any", [8] + [256] * 7)])
