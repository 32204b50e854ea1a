from vf import lib
from vf.lib import Harness as H

def run(chk):
    chk.bounds = ['lzw: alphabets of 2 (up to 8 symbols), 4 (up to 5) and 4089 (up to 9, crosses a dictionary reset)', 'huffman: texts of up to 6 letters of 4; canonical code lengths up to 4']
    lib.run(chk, [H("lzw", [9] + [2] * 8, define={"ALPHABET": 2}, cover=["end"], note="lzw2"),
                  H("lzw", [6] + [4] * 5, define={"ALPHABET": 4}, cover=["end"], note="lzw4"),
                  H("lzw", [10] + [2] * 9, define={"ALPHABET": 4089}, cover=["end"], note="lzwfull"),
                  H("huffman", [1, 7] + [4] * 6, cover=["text"], note="text"),
                  H("huffman", [2, 16] + [3, 5, 7, 8], assumes=["(= in0 #x01)"], cover=["canon"], note="canon")])
