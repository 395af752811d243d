"""What each property's check runs."""
import models

# cases of the property's random profile, quick tier
N = {
    "C01": 4000, "C02": 4000, "C03": 3200, "C04": 4800, "C05": 2400, "C06": 3200, "C07": 4000, "C08": 3200,
    "C09": 3200, "C10": 2400, "C11": 2400, "C12": 2400, "C13": 4000, "C14": 4800, "C15": 2400,
    "C16": 2400, "C17": 400, "C18": 1600, "C19": 560, "C20": 3200, "C21": 4000, "C22": 2400, "C23": 4000,
}
STAGES = set(N)
MODELS = {"C02": ["LrSc", "LrSc32"], "C07": ["FuseSeq"], "C08": ["MemPerm"], "C09": ["MemPerm"], "C10": ["MemEnd", "MemCache"],
          "C11": ["MemPerm"], "C13": ["RunHist"], "C15": ["RunHist", "RunDeep"], "C12": ["MemPerm", "MemCache"], "C17": ["StackArgs"], "C18": ["FullHist"],
          "C19": ["SnapHist", "SnapDeep"], "C20": ["MemCache"]}
NOT_YET = {}


def run(r):
    q = r.tier == "quick"
    p = r.prop
    if p == "C05":
        r.rand("C05X", 640)
    models.run(r, *MODELS.get(p, []))
    r.rand(p, N[p] * (1 if q else 20))
