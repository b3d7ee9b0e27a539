"""P04: buffers and renderers stay inside the memory they own."""
import bufcheck
import p01
from vlib import *


def run(chk):
    chk.log("arithmetic of the buffer over machine integers")
    pmap(lambda a: apalache(chk, "BufferArith", *a),
         [("Init", "Inv", 0), ("IndInit", "Inv", 1), ("IndInit", "RoomOrPanic", 1)], 3)
    bufcheck.judge(chk, "memory")
    ts = p01.texts(chk, p01.shapes_only(chk))
    if not chk.thorough:
        ts = [t for i, t in enumerate(ts) if len(t) > 400 or (i + chk.seed) % 4 == 0]
    p01.conform(chk, "p04e", ts, [0] + p01.modes_of_host()[1:], ("debug",), None)
    chk.assumptions = ["writes further than 64 bytes outside a block are seen only where they hit "
                       "another guarded block"]
