"""What each property's check runs: driver family, trace specification, bounded models."""

LEVEL_ASSUMPTIONS = [
    "TLC evaluates the TLA+ modules in /verif/spec correctly",
    "the driver records calls and public-API projections faithfully (driver/base.go)",
    "inputs outside the generated bounds are not observed",
]

MCTEXT = {"module": "MCText", "emits": True, "quick": {"MaxDepth": 1, "MaxLen": 10},
          "thorough": {"MaxDepth": 2, "MaxLen": 12}}
TEXT = {"fam": "text", "module": "TraceText", "n": 4000, "models": [MCTEXT]}
NUMBER = {"fam": "number", "module": "TraceText", "n": 9000}

MCDOC = {"module": "MCDoc", "emits": True, "last": -4, "workers": 4,
         "quick": {"MaxNodes": 3}, "thorough": {"MaxNodes": 4},
         "cap": {"quick": 4000, "thorough": 40000}}


def heap(*prefer, n=22000):
    return {"fam": "heap", "module": "TraceHeap", "n": n, "models": [MCDOC], "prefer": prefer}


MCMAR = {"module": "MCMar", "emits": True, "workers": 4,
         "quick": {"MaxOpts": 2}, "thorough": {"MaxOpts": 3}}
MAR = {"fam": "mar", "module": "TraceMar", "n": 7000, "models": [MCMAR]}



def val(focus, *kinds, n=8000, cap=24000):
    k = "{" + ", ".join('"%s"' % x for x in kinds) + "}"
    mc = {"module": "MCVal", "emits": True, "workers": 8, "quick": {"Deep": "FALSE", "Kinds": k},
          "thorough": {"Deep": "TRUE", "Kinds": k}, "cap": {"quick": cap}}
    return {"fam": "val", "module": "TraceVal", "n": n, "focus": focus, "models": [mc]}


MCIMP = {"module": "MCImp", "emits": True, "workers": 8, "quick": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"},
         "cap": {"quick": 16000, "thorough": 60000}}


MCNEW = {"module": "MCNew", "emits": True, "workers": 8, "quick": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"},
         "cap": {"quick": 12000, "thorough": 60000}}

OWN = {"fam": "own", "module": "TraceOwn", "n": 4000,
       "models": [{"module": "MCOwn", "emits": True, "quick": {"MaxOps": 4}, "thorough": {"MaxOps": 5},
                   "cap": {"quick": 6000, "thorough": 40000}}]}


DEEP = {"fam": "deep", "module": "TraceText", "n": 20, "max_rounds": 4}
MCPUMP = {"module": "MCPump", "workers": 4, "quick": {"More": 2}, "thorough": {"More": 12}}
PUMP = {"fam": "pump", "module": "TracePump", "n": 360, "max_rounds": 12}

JOBS = {
    "C01": [TEXT, dict(PUMP, models=[MCPUMP])],
    "C02": [TEXT, dict(NUMBER, n=4000), dict(PUMP, n=200)],
    "C03": [NUMBER],
    "C04": [MAR, dict(NUMBER, n=3000), dict(OWN, n=2000), DEEP, PUMP],
    "C05": [MAR, PUMP],
    "C06": [MAR],
    "C07": [MAR],
    "C08": [MAR],
    "C09": [MAR],
    "C10": [heap("set", "del"), DEEP],
    "C11": [val("C11", "get"), dict(NUMBER, n=2000), dict(PUMP, n=200)],
    "C12": [heap("set"), DEEP],
    "C13": [heap("set", "app", "ins", "del", "cdel", "uj")],
    "C14": [heap("app", "ins")],
    "C15": [heap("del")],
    "C16": [heap("cget", "cdel"), val("C16", "get", n=4000)],
    "C17": [heap("set", "del", "uj"), {"fam": "seq", "n": 1, "module": "TraceHeap", "max_rounds": 1}],
    "C18": [heap("set", "del", "app", "ins"), DEEP],
    "C19": [heap()],
    "C20": [val("C20", "num", "cmp"), DEEP, dict(PUMP, n=200)],
    "C21": [val("C21", "num", "cmp")],
    "C22": [{"fam": "imp", "module": "TraceImp", "n": 9000, "models": [MCIMP]}, DEEP],
    "C23": [{"fam": "imp", "module": "TraceImp", "n": 9000, "focus": "C23"}, heap("uj", "set", n=10000), dict(MAR, n=2500), DEEP],
    "C24": [heap("uj", "set"), OWN, DEEP, dict(PUMP, n=150)],
    "C25": [heap("set", "uj")],
    "C26": [{"fam": "conc", "n": 16000, "race": True, "any": True, "control": True,
             "modules": {"text": "TraceText", "heap": "TraceHeap", "val": "TraceVal", "mar": "TraceMar", "imp": "TraceImp"},
             "models": [{"module": "MCPredict", "quick": {}, "thorough": {"Limit": 9, "MaxRaw": 3}}]},
            {"fam": "bulk", "module": "TraceText", "n": 3000, "any": True, "control": True, "max_rounds": 1}],
    "C27": [{"fam": "def", "module": "TraceDef", "n": 16000, "race": True, "control": True,
             "models": [{"module": "MCDefs", "quick": {"Calls": 1, "Concerns": 3}, "thorough": {"Calls": 2, "Concerns": 2}}]}],
    "C28": [val("C28", "cnt"), DEEP],
    "C29": [heap("set", "app", "ins"), val("C29", "get"), dict(MAR, n=2000)],
    "C30": [{"fam": "new", "module": "TraceNew", "n": 12000, "models": [MCNEW]}, PUMP],
}

NOTES = {}
