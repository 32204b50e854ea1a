from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['message lengths 0..130, one of 8 byte values at one of 4 positions; the digest itself is computed concretely per path']
    lib.run(chk, [H("digest", [131, 4, 8, 1], cover=["md5"], note="md5"),
                  H("digest", [131, 4, 8, 2], assumes=["(= in3 #x01)"], cover=["sha1"], note="sha1")])
