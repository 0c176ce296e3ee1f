"""What each property's check builds, runs and hands to TLC."""
# compiler and flags per configuration; OFFICIAL are the ones the repository's own build uses
CONFIGS = {
    "sse2":    ("g++", ["-O1"]),
    "sse41":   ("g++", ["-O2", "-DNDEBUG", "-msse4.1"]),
    "avx":     ("g++", ["-O1", "-mavx"]),
    "generic": ("g++", ["-O1", "-U__SSE__", "-U__SSE2__", "-U__SSE3__"]),
    "sse1":    ("g++", ["-O1", "-U__SSE2__", "-U__SSE3__"]),
    "sse3":    ("g++", ["-O1", "-mssse3"]),
    "fma":     ("g++", ["-O2", "-mavx2", "-mfma"]),
    "o3":      ("g++", ["-O3", "-DNDEBUG", "-mavx"]),
    "clang":   ("clang++", ["-O2", "-mavx"]),
    "clang0":  ("clang++", ["-O0"]),
}
OFFICIAL = ("sse2", "sse41", "avx")
ASSUMPTIONS = ["TLC and the Java override of the natural-number operators (java/BigNat.java, compared with the pure TLA+ definitions by bin/selftest)",
               "the recording drivers (harness/) report arguments and results faithfully",
               "x86-64 instruction sets only: the NEON, AltiVec and SSE-only-float paths cannot be compiled here"]

def T(q, t): return {"quick": q, "thorough": t}
def call(groups, *args, q=60000, t=3000000, sq=60, st=600, **kw):
    return dict(driver="micro", mode="call", spec="Trace", groups=groups, args=args, trials=T(q, t), samples=T(sq, st), **kw)
def agree(mode, groups, *args, q=60000, t=3000000, sq=60, st=600, **kw):
    return dict(driver="micro", mode=mode, spec="Agree", groups=groups, args=args, trials=T(q, t), samples=T(sq, st), **kw)
def sess(groups, *args, q=12, t=200, ev=12, **kw):
    return dict(driver="sess", spec="Trace", groups=groups, args=args, trials=T(q, t), events=ev, **kw)
def sweep(groups, *args, q=65537, t=31, **kw):       # stride
    return [dict(driver="micro", mode="sweep", spec="Trace", groups=groups, args=tuple(args) + ("stride=%d" % s, "first=%d" % (s // 3)), trials=1, samples=T(20, 200), tier=tier, **kw) for tier, s in (("quick", q), ("thorough", t))]

def giant(groups, *args, q=2, t=40, sq=40, st=200, **kw):       # passes over all operations with a million elements
    return dict(driver="micro", mode="giant", spec="Trace", groups=groups, args=args, trials=T(q, t), samples=T(sq, st), **kw)
def vecs(only, *args, q=20000, t=1000000, sq=60, st=600, **kw):
    return [dict(driver="vecops", spec="VecTrace", groups=[], args=("only=" + only, "samples=%d" % n) + args, trials=k, tier=tier, **kw) for tier, n, k in (("quick", sq, q), ("thorough", st, t))]

def replay(groups, want, q=400, t=20000, **kw):       # behaviours generated from Gen.tla
    return dict(driver="replay", groups=groups, want=want, trials=T(q, t), **kw)
OPS = {"ARITH": "plus,minus,times,over,square,cube,muladd,ampmod,mix,sum", "CMP": "less,less_equal,greater,greater_equal,equal,notequal", "MINMAX": "min,max,clip,clip2",
       "ROUND": "round,frac,ceil,floor,trunc", "CLASS": "abs,sgn,undenormalize", "ROOT": "signed_sqrt", "SOFT": "softclip", "FILL": "zero,set,slope,exp", "COPY": "copy", "ADD": "add"}
OPS["ARITH_KINDS"] = OPS["MIX_KINDS"] = OPS["CMP_KINDS"] = OPS["MINMAX_KINDS"] = ""
def gen(groups, more="", **kw): return replay(groups, ",".join([OPS[g] for g in groups if OPS[g]] + ([more] if more else [])), **kw)
def model(spec, cfg, **kw): return dict(spec=spec, cfg=cfg, **kw)
UNROLL = [model("Unroll", "UnrollCode"), model("Unroll", "UnrollAny"), model("Unroll", "UnrollBack", control=True), model("Unroll", "UnrollCode3"),
          model("Unroll", "UnrollCode4", tier="thorough"), model("Unroll", "UnrollAny3", tier="thorough")]
METERS = [model("Meters", "Meters"), model("Meters", "MetersFault", control=True), model("Meters", "MetersLong", tier="thorough")]

ARITH, KINDS, MIX = ["ARITH"], ["ARITH_KINDS"], ["MIX_KINDS"]
CMP, CMPK, MM, MMK = ["CMP"], ["CMP_KINDS"], ["MINMAX"], ["MINMAX_KINDS"]
ELEM = ["ARITH", "CMP", "MINMAX", "ROUND", "CLASS", "SOFT", "ROOT"]
ALLK = ["ARITH_KINDS", "MIX_KINDS", "CMP_KINDS", "MINMAX_KINDS"]
FUN = ["MATH", "POW", "UNIT"]
MEM = ["FILL", "COPY", "ADD"]
EVERY = ELEM + ALLK + FUN + MEM

PLAN = {
    "C01": dict(runs=[call(ARITH, q=150000), sess(ARITH), giant(ARITH)]),
    "C02": dict(runs=[agree("forms", ELEM + FUN + MEM, q=120000), agree("forms", EVERY, "kinds=sr", q=60000)]),
    "C03": dict(models=UNROLL, runs=[gen(MEM, "pan,red,meter"), call(EVERY, "pan=3", "red=3", "meter=3", "big=5", q=150000), sess(ELEM + ALLK + MEM, "pan=8", "red=8", "meter=8"), giant(EVERY, "pan=6", "red=10", "meter=8", q=1)]),
    "C04": dict(models=UNROLL, runs=[gen(["ARITH", "ARITH_KINDS", "CMP", "CMP_KINDS", "MINMAX", "MINMAX_KINDS", "MIX_KINDS", "ADD"], "pan"), call(ELEM + FUN + ALLK + ["ADD"], "inplace=85", "pan=5", q=120000), sess(ELEM + ALLK + ["ADD"], "inplace=70", "pan=10")]),
    "C05": dict(models=UNROLL, runs=[gen(["ARITH", "ARITH_KINDS", "CMP", "CMP_KINDS", "MINMAX", "MINMAX_KINDS", "MIX_KINDS"]), call(ALLK + ["POW"], "inexact=25", q=150000), sess(ALLK, "inexact=25"), giant(ALLK, q=1)]),
    "C06": dict(runs=[gen(["FILL"]), call(["FILL"], "inexact=40", q=150000), sess(["FILL"], "inexact=40"), giant(["FILL"], q=4)]),
    "C07": dict(runs=[gen(["COPY", "FILL"]), call(["COPY"], q=200000), sess(["COPY"], "cls=6"), giant(["COPY"], q=4)]),
    "C08": dict(runs=[gen(["ADD", "FILL"]), call(["ADD"], "inexact=30", q=150000), sess(["ADD"], "inexact=30", "reload=5", ev=30), giant(["ADD"], q=4)]),
    "C09": dict(runs=[call(CMP + CMPK, q=150000), sess(CMP), giant(CMP)] + vecs("cmp,mask,bits")),
    "C10": dict(runs=[call(MM + MMK, q=150000), sess(MM), giant(MM)]),
    "C11": dict(runs=[call(["ROUND"], q=120000), sess(["ROUND"])] + sweep(["ROUND"], q=521)),
    "C12": dict(runs=[call(["CLASS"], q=120000), sess(["CLASS"])] + sweep(["CLASS"], q=521)),
    "C13": dict(runs=[gen([], "red"), call([], "red=100", q=120000), sess([], "red=100", q=16), giant([], "red=30")] + vecs("hor,io")),
    "C14": dict(models=METERS, runs=[gen([], "meter"), call([], "meter=100", q=120000), sess([], "meter=100", q=24, ev=16), giant([], "meter=25")]),
    "C15": dict(runs=[gen([], "pan"), call([], "pan=100", "inexact=30", q=120000), sess([], "pan=100", "inexact=30"), giant([], "pan=15")]),
    "C16": dict(runs=vecs("io,const") + vecs("io,const,hor,arith,int", "len=80", q=4000, t=200000)),
    "C17": dict(runs=vecs("arith,cmp,mask,bits,minmax,class,round,root,int,const,hor,math") + vecs("io,arith,cmp,mask,bits,round,class,minmax,root,int,hor,const", "len=80", q=4000, t=200000)),
    "C18": dict(runs=[call(["MATH"], q=60000)] + sweep(["MATH"], "ty=f", q=521)),
    "C19": dict(runs=[dict(driver="edge", spec="Edge", groups=["MATH", "POW", "ROOT"], args=("samples=%d" % n,), trials=k, tier=tier) for tier, n, k in (("quick", 100, 60000), ("thorough", 1000, 3000000))]),
    "C20": dict(runs=[call(["UNIT"], q=60000)] + sweep(["UNIT"], "ty=f", q=521)),
    "C21": dict(runs=[call(["SOFT"], q=120000), sess(["SOFT"])] + sweep(["SOFT"], q=257)),
    "C22": dict(runs=[call(["ROOT", "POW"], q=120000)] + sweep(["ROOT"], q=521)),
    "C23": dict(cfgs={"quick": ["sse2", "sse41", "avx", "generic", "fma"], "thorough": ["sse2", "sse41", "avx", "generic", "fma", "sse3", "o3", "clang"]},
                runs=[dict(driver="micro", mode="cross", spec="Agree", groups=EVERY, trials=T(200000, 4000000), samples=T(150, 1000), maxids=T(150, 1500))]),
    "C24": dict(models=METERS, runs=[gen(["ADD", "FILL", "COPY"], "pan,red,meter"), agree("split", ELEM + FUN + MEM + ALLK, "red=5", "meter=8", q=120000), sess(["ADD", "FILL"], "meter=60", "red=20", q=8, ev=16), giant(ELEM + MEM + ALLK, "pan=6", "red=10", "meter=8", q=1)]),
    "C25": dict(runs=[dict(driver="utils", spec="VecTrace", groups=[], args=("samples=%d" % n,), trials=k, tier=tier) for tier, n, k in (("quick", 150, 30000), ("thorough", 1500, 2000000))]),
    "C26": dict(runs=[call(EVERY, "ty=d", "inexact=15", "pan=3", "red=3", "meter=3", q=120000)] + sweep(FUN, "ty=d", q=262147, t=65537)),
    "C27": dict(cfgs={"quick": ["sse2", "sse41", "avx"], "thorough": ["sse2", "sse41", "avx", "generic", "fma", "o3", "clang"]}, runs=[dict(driver="pure", spec="Pure", groups=["ARITH", "CMP", "MINMAX", "ROUND", "CLASS", "SOFT", "ROOT", "MATH", "POW", "UNIT", "FILL", "COPY", "ADD", "ARITH_KINDS"], args=("samples=%d" % n,), trials=k, tier=tier) for tier, n, k in (("quick", 40, 4000), ("thorough", 400, 200000))]),
}
