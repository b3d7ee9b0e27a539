"""P03: the output buffer behaves as an append-only string."""
import bufcheck
import chars


def run(chk):
    chars.sweep(chk, chars.BUFFER, [0], "a character was not appended as it is", ("debug", "release"))
    bufcheck.judge(chk, "text")
    chk.assumptions = ["texts in histories are drawn from a fixed alphabet of pieces of 0 to 65 bytes"]
