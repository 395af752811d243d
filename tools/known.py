"""Matching of verdicts against the committed list of known findings.

A finding names a matcher here; the matcher recognises the failing input itself."""
import struct


def blob(case, b, n):
    return b"".join(struct.pack("<H", h) for h in case["blobs"][b - 1])[:n] if b else b""


def elf_segments(d):
    """(type, vaddr, memsz) of the program headers of a 64-bit ELF file"""
    try:
        e = ">" if d[5] == 2 else "<"
        if d[4] != 2:
            return []
        phoff, = struct.unpack_from(e + "Q", d, 32)
        n, = struct.unpack_from(e + "H", d, 56)
        return [(struct.unpack_from(e + "I", d, phoff + 56 * i)[0], struct.unpack_from(e + "Q", d, phoff + 56 * i + 16)[0],
                 struct.unpack_from(e + "Q", d, phoff + 56 * i + 40)[0]) for i in range(n)]
    except (struct.error, IndexError):
        return []


def wrapping_segment(b, case):
    """an ELF file with a PT_LOAD segment whose rounded-up size exceeds 64 bits is not rejected
    as out of bounds (it is loaded, or fails later, as the small segment the size wraps to)"""
    if b["op"] != "load":
        return False
    e = case["script"][b["at"] - 1]
    if e["o"]["e"] not in ("", "MemWriteOnExecutablePage") or not any(x[0] == "err" and x[1][0] == "MemOutOfBound" for x in b["bad"]):
        return False
    return any(t == 1 and sz + va % 4096 > 2**64 - 4096 for t, va, sz in elf_segments(blob(case, e["b"], e["len"])))


MATCH = {"wrapping_segment": wrapping_segment}


def matches(k, b, case):
    return MATCH[k["match"]](b, case)
