"""Builds cases for the harness from the behaviours that TLC models print."""
import json, struct


def w(v):
    v &= (1 << 64) - 1
    return [v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48]


# ---- encodings ------------------------------------------------------------
def er(op, f3, f7, rd, rs1, rs2):
    return op | rd << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | f7 << 25


def ei(op, f3, rd, rs1, imm):
    return op | rd << 7 | f3 << 12 | rs1 << 15 | (imm & 0xfff) << 20


def es(f3, rs1, rs2, imm):
    return 0x23 | (imm & 31) << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | (imm >> 5 & 127) << 25


def eb(f3, rs1, rs2, imm):
    return (0x63 | (imm >> 11 & 1) << 7 | (imm >> 1 & 15) << 8 | f3 << 12 | rs1 << 15 | rs2 << 20 |
            (imm >> 5 & 63) << 25 | (imm >> 12 & 1) << 31)


def ej(rd, imm):
    return 0x6f | rd << 7 | (imm >> 12 & 255) << 12 | (imm >> 11 & 1) << 20 | (imm >> 1 & 1023) << 21 | (imm >> 20 & 1) << 31


def eu(op, rd, imm20):
    return op | rd << 7 | (imm20 & 0xfffff) << 12


def eamo(f5, f3, rd, rs1, rs2):
    return er(0x2f, f3, f5 << 2, rd, rs1, rs2)


def addi(rd, rs1, imm):
    return ei(0x13, 0, rd, rs1, imm)


ECALL = 0x73
EBREAK = 0x100073
EXIT = [addi(17, 0, 93), ECALL]


def words(ws):
    return b"".join(struct.pack("<I", x) for x in ws)


E64 = ["i-flat", "i-sparse", "i-asm", "i-step", "t-flat", "t-sparse", "t-asm", "a-simple", "a-fixed", "a-dyn", "a-step"]
E32 = ["i-flat", "i-sparse", "i-step", "t-flat", "t-sparse"]


class Case:
    def __init__(self, id, x=64, v=2, sz=512 * 1024, max=1 << 40, **kw):
        self.d = dict(id=id, x=x, v=v, eb=True, ea=True, mop=False, cost="one", sys=[], dbg=False, sz=sz, max=w(max),
                      blobs=[], progs=[], args=[], script=[], engines=list(E64 if x == 64 else E32))
        self.d.update(kw)
        self.known = {}

    def blob(self, b):
        b = bytes(b)
        if b not in self.known:
            p = b + b"\0" * (len(b) % 2)
            self.d["blobs"].append(list(struct.unpack("<%dH" % (len(p) // 2), p)))
            self.known[b] = len(self.d["blobs"])
        return self.known[b]

    def op(self, name, **kw):
        self.d["script"].append(dict(kw, op=name))
        return self

    def init(self, a, n, fl, data=b"", off=0):
        return self.op("init", a=w(a), n=w(n), fl=fl, b=self.blob(data) if data else 0, len=len(data), off=w(off))

    def stb(self, a, data):
        return self.op("stb", a=w(a), b=self.blob(data), len=len(data))

    def fill(self, a, n, v):
        return self.op("fill", a=w(a), n=n, val=v)

    def st(self, a, wd, v):
        return self.op("st", a=w(a), w=wd, val=w(v))

    def ld(self, a, wd):
        return self.op("ld", a=w(a), w=wd)

    def xl(self, a, wd):
        return self.op("xl", a=w(a), w=wd)

    def sf(self, p, fl):
        return self.op("sf", p=w(p), fl=fl)

    def cf(self, p, fl):
        return self.op("cf", p=w(p), fl=fl)

    def regs(self, r):
        return self.op("regs", val=[w(r.get(i, 0)) for i in range(32)])

    def pc(self, a):
        return self.op("pc", val=w(a))

    def run(self, m=False):
        return self.op("run", m=m)

    def obs(self):
        return self.op("obs")


def packed(hists, name, per, make, play):
    """cases of `per` behaviours each; make(id) builds a case, play(case, behaviour) adds one to it"""
    out = []
    for i in range(0, len(hists), per):
        c = make("%s-%d" % (name, i // per))
        for j, h in enumerate(hists[i:i + per]):
            if j:
                c.op("renew", ctx=False)
            play(c, h)
        out.append(c.d)
    return out
