#!/usr/bin/env python3
"""writes spec/MCDriver.json: a receiving interrupt handler, as halfwords, for the model and for the replay"""
import json, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import asm


def handler(ret):
    # x10: claim register, x11: UART, x12: where the next byte goes
    w = [asm.load(2, 5, 10, 0),           # 00 claim
         asm.b_type(0, 5, 0, 0x24),       # 04 nothing: out
         asm.load(4, 6, 11, 5),           # 08 LSR
         0x00137313,                      # 0c andi x6, x6, 1
         asm.b_type(0, 6, 0, 0x14),       # 10 empty: done
         asm.load(4, 7, 11, 0),           # 14 RBR
         asm.store(0, 12, 7, 0),          # 18
         asm.addi(12, 12, 1),             # 1c
         asm.jal(0, -0x18),               # 20 again
         asm.NOP,                         # 24
         asm.store(2, 10, 5, 0),          # 28 complete
         ret]                             # 2c
    # done is 0x24, out is 0x28 + 4
    w[1] = asm.b_type(0, 5, 0, 0x2c - 4)
    w[4] = asm.b_type(0, 6, 0, 0x24 - 0x10)
    return w


out = {k: list(struct.unpack("<%dH" % (2 * len(h)), asm.w32(*h))) for k, h in (("m", handler(asm.MRET)), ("s", handler(asm.SRET)))}
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "MCDriver.json")
with open(path, "w") as f:
    json.dump(out, f)
    f.write("\n")
