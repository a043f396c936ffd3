"""The checks: property id -> units. cases = (quick, thorough)."""
CHECKS = {}
def check(pid, units, assumptions=()):
    CHECKS[pid] = dict(units=units, assumptions=list(assumptions))

def U(name, src=None, flavour="asan", cases=(20000, 400000), **k):
    return dict(name=name, src=(src or name) + ".cpp", flavour=flavour, cases=cases, **k)

check("P01", [U("P01", flavour="plain", cases=(600000, 30000000))])
check("P02", [U("P02", flavour="plain", cases=(1500000, 40000000)), U("P02k", flavour="plain", cases=(64, 64))])
check("P03", [U("P03", flavour="plain", cases=(300000, 10000000))])
check("P04", [U("P04", flavour="plain", cases=(300000, 10000000))])
check("P05", [U("P05", flavour="plain", cases=(300000, 8000000))])
check("P06", [U("P06", flavour="plain", cases=(300000, 8000000))])
check("P07", [U("P07", flavour="asan", cases=(120000, 4000000))])
check("P08", [U("P08", flavour="plain", cases=(100000, 4000000)),
              U("P08t", src="P08", flavour="tsan", cases=(4000, 100000), defs=["-DP08_THREADS"], racy=True)])
check("P09", [U("P09", flavour="plain", cases=(400000, 10000000))])
check("P10", [U("P10", flavour="plain", cases=(200000, 5000000))])
check("P11", [U("P11", flavour="plain", cases=(1000000, 30000000))])
check("P12", [U("P12", flavour="plain", cases=(500000, 12000000))])
check("P13", [U("P13", flavour="plain", cases=(500000, 20000000))])
check("P14", [U("P14", flavour="asan", cases=(400000, 12000000))])
check("P15", [U("P15", flavour="asan", cases=(150000, 5000000))])
check("P16", [U("P16", flavour="asan", cases=(300000, 8000000))])
check("P17", [U("P17", flavour="plain", cases=(200000, 5000000))])
check("P18", [U("P18", flavour="asan", cases=(1000000, 30000000))])
def PY(name, src=None, cases=(20000, 400000), **k): return dict(name=name, src=(src or name) + ".py", lang="python", cases=cases, **k)
check("P19", [PY("P19", cases=(100000, 3000000))])
def PA(*a, **k): return PY(*a, pyflavour="asan", **k) # interpreter under AddressSanitizer
check("P20", [PY("P20", cases=(60000, 2000000)), PA("P20a", src="P20", cases=(24000, 800000))])
check("P21", [PY("P21", cases=(24000, 1500000), env=dict(P21_HEAP="1", PYTHONMALLOC="malloc")), PY("P21t", src="P21", cases=(12000, 500000), env=dict(P21_THREADS="1"), racy=True), PA("P21a", src="P21", cases=(6000, 300000))])

MEX = dict(tag="mexlib", defs=["-DMATLAB_MEX_FILE"], inc=["mock"])
check("P22", [U("P22", flavour="asan", cases=(120000, 5000000), lib=MEX, inc=["mock"], defs=["-DMATLAB_MEX_FILE"], repo_src=["matlab/qpSWIFT_mex.c"], keep={"qpSWIFT_mex.c": ["mexFunction"]})])
check("P23", [U("P23", flavour="asan", cases=(50000, 2000000), lib=MEX, inc=["mock"], defs=["-DMATLAB_MEX_FILE"], repo_src=["simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"],
    keep={"qpSWIFT_sfunc.c": ["mock_qpSWIFT_sfunc"], "qpSWIFT_sfunc_e.c": ["mock_qpSWIFT_sfunc_e"]})])
check("P24", [U("P24", flavour="plain", cases=(1200000, 60000000))])
check("P25", [U("P25", flavour="asan", cases=(100000, 3000000))])
# ---- very large problems (props/BIG.cpp)
BIG = {"P01": (48, 4000), "P02": (48, 4000), "P03": (48, 2000), "P04": (48, 2000), "P05": (48, 3000), "P06": (32, 2000), "P07": (48, 2000), "P08": (48, 3000), "P09": (48, 3000), "P14": (64, 4000), "P15": (64, 6000), "P24": (48, 3000)}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P08", "P09", "P24"): BIG[_p] = (400, BIG[_p][1] * 5)
for _p, _c in BIG.items():
    CHECKS[_p]["units"].append(U(_p + "big", src="BIG", flavour=CHECKS[_p]["units"][0]["flavour"], cases=_c, case_cpu=60, defs=["-DBIG=%d" % int(_p[1:])]))
BIG2 = {"P13": (48, 3000), "P16": (64, 3000), "P17": (64, 4000), "P18": (800, 60000)} # the same units on very large patterns
for _p, _c in BIG2.items(): CHECKS[_p]["units"].append(U(_p + "big", src=_p, flavour=CHECKS[_p]["units"][0]["flavour"], cases=_c, case_cpu=60, defs=["-DBIG"]))
