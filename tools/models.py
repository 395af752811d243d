"""The exhaustive models and how their behaviours are played on the code."""
import zlib
from cases import *

CODE = 0x1000
GST, GLD = CODE, CODE + 12
GUEST = words([es(3, 10, 6, 0)] + EXIT + [ei(3, 3, 5, 10, 0)] + EXIT)
WORD8 = 0x8877665544332211
A, B, C = 63, 64, 127
P = 4096
SZ = 512 * 1024
MEMOPS = {
    "iA0": ("init", A * P, P, 0), "iA3": ("init", A * P, P, 3), "iAB": ("init", A * P, 2 * P, 0), "iB2": ("init", B * P, P, 2),
    "iB1": ("init", B * P, P, 1), "iC0": ("init", C * P, 2 * P, 0), "stA": ("st", B * P - 16, 8, 0), "stS": ("st", B * P - 4, 8, 0),
    "stC": ("st", SZ - 8, 8, 0), "stO": ("st", SZ - 4, 8, 0), "fiS": ("fill", B * P - 2, 4, 0), "fiO": ("fill", SZ - 4, 8, 0),
    "gsA": ("gst", B * P - 16), "gsB": ("gst", B * P + 8), "gsS": ("gst", B * P - 4), "gsO": ("gst", SZ - 4), "gsC": ("gst", SZ - 8),
    "glA": ("gld", B * P - 16), "glB": ("gld", B * P + 8), "glS": ("gld", B * P - 4), "glO": ("gld", SZ - 4),
    "xlS": ("xl", B * P - 2), "xA": ("sf", A, 2), "xB": ("sf", B, 2), "fA": ("sf", A, 1), "cxA": ("cf", A, 2), "cxB": ("cf", B, 3),
    "cdA": ("cf", A, 4), "cdB": ("cf", B, 4), "cdC": ("cf", C, 4), "res": ("reset",), "cod": ("code",), "cos": ("codes",)}


def mem_play(c, h):
    c.init(CODE, P, 3, GUEST)
    for n in h:
        o = MEMOPS[n]
        if o[0] == "init":
            c.init(o[1], o[2], o[3], b"\1\2" * 4096)
        elif o[0] == "st":
            c.st(o[1], 8, WORD8)
        elif o[0] == "fill":
            c.fill(o[1], o[2], 0x5a)
        elif o[0] in ("gst", "gld"):
            c.regs({10: o[1], 6: WORD8}).pc(GST if o[0] == "gst" else GLD).run()
        elif o[0] == "xl":
            c.xl(o[1], 4)
        elif o[0] == "sf":
            c.sf(o[1], o[2])
        elif o[0] == "cf":
            c.cf(o[1], o[2])
        elif o[0] == "reset":
            c.op("reset", max=w(1 << 40))
        elif o[0] == "code":
            c.init(CODE, P, 3, GUEST)
        else:
            c.stb(CODE, GUEST).sf(CODE // P, 2)
    c.obs()


def mem_hist(name):
    def f(hists):
        return packed(hists, name, 16, lambda i: Case(i), mem_play)
    return f


# ---- FuseSeq: instruction sequences, run fused --------------------------------
ALU = {"add": (0x33, 0, 0), "sub": (0x33, 0, 32), "sltu": (0x33, 3, 0), "slt": (0x33, 2, 0), "or": (0x33, 6, 0),
       "mul": (0x33, 0, 1), "mulh": (0x33, 1, 1), "mulhsu": (0x33, 2, 1), "mulhu": (0x33, 3, 1), "mulw": (0x3b, 0, 1),
       "div": (0x33, 4, 1), "divu": (0x33, 5, 1), "rem": (0x33, 6, 1), "remu": (0x33, 7, 1)}
M64 = (1 << 64) - 1
BEFORE = [{5: 5, 6: 6, 7: 7, 28: 28}, {5: M64, 6: 2, 7: 1, 28: M64}, {5: 1, 6: 1 << 63, 7: M64, 28: 3}]


def programs(name, per, encode, setup, **kw):
    """behaviours that are straight programs: many of them in one case, each run from its own address"""
    def f(hists):
        out = []
        for i in range(0, len(hists), per):
            c = Case("%s-%d" % (name, i // per), **kw)
            at, code = [], []
            for h in hists[i:i + per]:
                at.append(0x1000 + 4 * len(code))
                code += encode(h) + EXIT
            n = (4 * len(code) + P - 1) // P * P
            c.init(0x1000, n, 3, words(code))
            for j, h in enumerate(hists[i:i + per]):
                setup(c, i + j, h)
                c.pc(at[j]).run(m=j % 16 == 15)
            c.obs()
            out.append(c.d)
        return out
    return f


def fuse_encode(h):
    return [er(*ALU[o], rd, a, b) for o, rd, a, b in h]


def fuse_setup(c, k, h):
    c.regs(BEFORE[k % 3])


# ---- LrSc ----------------------------------------------------------------------
def lrsc_encode(h):
    r = []
    for o, rd, a, b, wd in h:
        f3 = 3 if wd == 8 else 2
        if o in ("sd", "sw"):
            r.append(es(3 if o == "sd" else 2, a, b, 0))
        else:
            r.append(eamo({"lr": 2, "sc": 3, "amoadd": 0, "amoswap": 1, "amominu": 24}[o], f3, rd, a, b))
    return r


D0, VAL = 0x8000, 0x0001feff1234ffff


def lrsc_setup(x):
    def f(c, k, h):
        c.op("lr", val=w(M64 if x == 64 else 0xffffffff))
        for i in range(16 * 8 // x):
            c.st(D0 + x // 8 * i, x // 8, 0xffff665544332211 >> (x * i) % 64)
        c.regs({10: D0, 11: D0 + 8, 12: VAL & ((1 << x) - 1), 13: D0 + 4})
    return f


# ---- SnapHist: histories of tracked pages and incremental snapshots ----------------
SA, SB, SC = 16, 17, 63
SNAPOPS = {
    "a10": (SA * P, 4096, 1, 0), "b11": (SB * P, 4096, 1, 4096), "b21": (SB * P, 4096, 2, 4096), "ab1": (SA * P, 8192, 1, 0),
    "h20": (SA * P + 2048, 8192, 2, 0), "c20": (SC * P, 4096, 2, 0), "cov": (SC * P, 8192, 1, 0), "a1t": (SA * P, 8192, 1, 4096)}
SNAPINIT = {"iAB": (SA * P, 8192, 0, 100), "iB3": (SB * P, 4096, 3, 0), "iC1": (SC * P, 4096, 1, 2)}
SNAPENG = ["i-flat>i-flat", "i-sparse>i-sparse", "i-asm>i-asm", "t-asm>a-simple", "i-flat>i-asm>i-sparse", "t-flat>a-step",
           "a-fixed>t-sparse", "a-dyn>a-fixed"]


def snap_source(id):
    return b"".join(bytes([1, 16 * id + o // 4096]) for o in range(0, 8292, 2))


def snap_play(c, h):
    n = getattr(c, "snaps", 0)
    first = n + 1
    for id in (1, 2):
        c.op("src", id=id, b=c.blob(snap_source(id)), len=8292)
    for o in h:
        if o in SNAPOPS:
            a, k, id, off = SNAPOPS[o]
            c.op("sstore", a=w(a), id=id, off=w(off), n=w(k), sa=w(32768))
        elif o in ("wA", "wB", "wS"):
            c.st({"wA": SA * P, "wB": SB * P, "wS": SB * P - 2}[o], 8, 0x8877665544332211)
        elif o in ("uA", "uS"):
            c.op("untrack", a=w(SA * P if o == "uA" else SB * P - 1), n=w(P if o == "uA" else 2))
        elif o in ("fB", "xB"):
            c.sf(SB, 1 if o == "fB" else 2)
        elif o == "cB":
            c.cf(SB, 3)
        elif o == "gon":
            c.op("src", id=2, b=0, len=0)
        elif o in ("sn1", "sn2"):
            n += 1
            c.regs({5: n, 31: M64 - n}).pc(0x1000 + 2 * n).op("lr", val=w(8 * n)).op("addc", val=w(n))
            c.op("snap" if o == "sn1" else "snap2")
        elif o in SNAPINIT:
            a, k, fl, off = SNAPINIT[o]
            c.init(a, k, fl, snap_source(1)[:k - 2 * off], off)
        elif o in ("rnw", "rkp", "r1n", "rhr"):
            if o != "rhr":
                c.op("renew", ctx=o == "rkp")
            c.op("resume", k=first if o == "r1n" else n, bad="")
    n += 1
    c.op("snap" if "sn1" in h else "snap2").obs()
    c.snaps = n


def snap_hist(name):
    def f(hists):
        return packed([[o for o in h if o != "end"] for h in hists], name, 12, lambda i: Case(i, sz=262144, engines=SNAPENG), snap_play)
    return f


# ---- RunHist: limits, signals, going on ------------------------------------------
def run_chunk(ch):
    step = [addi(5, 5, 3)]
    if ch[0] == "p":
        return step * int(ch[1:])
    return {"mul": [er(0x33, 0, 1, 5, 5, 6)], "jmp": [ej(0, 8), EBREAK],
            "sig": [eu(0x37, 17, 0), addi(17, 0, 2004), ECALL],
            "chg": [addi(10, 0, 7), eu(0x37, 17, 0), addi(17, 0, 2002), ECALL],
            "lop": [addi(7, 0, 2), addi(5, 5, 1), addi(7, 7, -1), eb(1, 7, 0, -8)]}[ch]


def run_hist(hists):
    seen, groups = set(), {}
    for cost, chs, h in hists:
        k = json.dumps([cost, chs, h])
        if k not in seen:
            seen.add(k)
            groups.setdefault(cost, []).append((chs, h))
    out = []
    for cost, hs in sorted(groups.items()):
        for i in range(0, len(hs), 60):
            c = Case("RunHist-%s-%d" % (cost, i // 60), cost=cost, sys=["A"])
            at, code = {}, []
            for chs, _ in hs[i:i + 60]:
                k = json.dumps(chs)
                if k not in at:
                    at[k] = 0x1000 + 4 * len(code)
                    code += [x for ch in chs for x in run_chunk(ch)] + [addi(17, 0, 93), ECALL]
            c.init(0x1000, (4 * len(code) + P - 1) // P * P, 3, words(code))
            for chs, h in hs[i:i + 60]:
                c.regs({6: 3}).op("cyc", val=w(0)).pc(at[json.dumps(chs)])
                first = True
                for m, s in h:
                    c.op("max", val=w(m))
                    if s:
                        c.op("sig")
                    c.op("run", m=False, **({} if first else {"go": True}))
                    first = False
                c.op("max", val=w(1000000))
                for _ in range(2 + sum(ch == "sig" for ch in chs) + sum(s for _, s in h)):
                    c.op("run", m=False, go=True)
            c.obs()
            out.append(c.d)
    return out


# ---- StackArgs: argument lists -------------------------------------------------
def tiny_elf(x, base, code):
    """one executable segment"""
    b = words(code)
    big = x == 64
    eh, ph = (64, 56) if big else (52, 32)
    q = "Q" if big else "I"
    f = b"\x7fELF" + bytes([2 if big else 1, 1, 1] + [0] * 9)
    f += struct.pack("<HHI3%sIHHHHHH" % q, 2, 243, 1, base, eh, 0, 0, eh, ph, 1, 0, 0, 0)
    if big:
        f += struct.pack("<IIQQQQQQ", 1, 5, eh + ph, base, base, len(b), len(b), 4096)
    else:
        f += struct.pack("<IIIIIIII", 1, eh + ph, base, base, len(b), len(b), 5, 4096)
    return f + b


def stack_args(behaviours):
    groups = {}
    for x, v, lens in behaviours:
        groups.setdefault((x, v), []).append(lens)
    out = []
    for (x, v), ls in sorted(groups.items()):
        for i in range(0, len(ls), 40):
            c = Case("StackArgs-%d-%d-%d" % (x, v, i // 40), x=x, v=v, sz=262144, sys=["A"])
            e = tiny_elf(x, 0x1000, EXIT)
            b = c.blob(e)
            for k, lens in enumerate(ls[i:i + 40]):
                if k:
                    c.op("renew", ctx=False)
                a = [[65 + (j * 7 + n) % 26 for n in range(1, m + 1)] for j, m in enumerate(lens)]
                # one in twenty fills the stack up to the 256 bytes of the model
                if k % 20 == 0:
                    a.insert(0, [66] * (65536 - 256 - 1 - x // 8))
                c.op("load", b=b, len=len(e), how="prog" if k % 2 else "meta", args=a)
            out.append(c.d)
    return out


# config -> (module, replay, sample in quick / thorough)
MODELS = {
    "MemPerm": ("MemHist", mem_hist("MemPerm"), 20, 2),
    "MemCache": ("MemHist", mem_hist("MemCache"), 4, 1),
    "MemEnd": ("MemHist", mem_hist("MemEnd"), 1, 1),
    "FuseSeq": ("FuseSeq", programs("FuseSeq", 100, fuse_encode, fuse_setup, mop=True), 12, 1),
    "LrSc": ("LrSc", programs("LrSc", 60, lrsc_encode, lrsc_setup(64)), 20, 1),
    "SnapHist": ("SnapHist", snap_hist("SnapHist"), 20, 1),
    "FullHist": ("SnapHist", snap_hist("FullHist"), 10, 1),
    "SnapDeep": ("SnapHist", snap_hist("SnapDeep"), 24, 2),
    "StackArgs": ("StackArgs", stack_args, 8, 1),
    "RunHist": ("RunHist", run_hist, 8, 1),
    "RunDeep": ("RunHist", run_hist, 40, 2),
    "LrSc32": ("LrSc", programs("LrSc32", 60, lrsc_encode, lrsc_setup(32), x=32), 20, 1),
}


def run(r, *names):
    for n in names:
        module, replay, quick, thorough = MODELS[n]
        k = quick if r.tier == "quick" else thorough
        key = "%s %d " % (r.prop, r.seed)

        def sampled(hists):
            return replay([h for h in hists if zlib.crc32((key + json.dumps(h)).encode()) % k == 0])
        r.model(module, n, sampled, env={"SAMPLE": "1"})
