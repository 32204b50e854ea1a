from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['3 arguments of up to 3, 3 and 2 arbitrary bytes, 4 settings of the expected number of arguments']
    lib.run(chk, [H("opts", [4, 4] + [256] * 8, panics=True, cover=["end"])])
