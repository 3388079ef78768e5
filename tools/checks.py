# Which harness binaries decide which property. params apply to both tiers; quick/thorough override.
def one(src, variant="plain", level="model_checking", **kw): return dict(level=level, parts=[dict(src=src, variant=variant, **kw)])
CHECKS = {
 "C01": one("c01", min_execs=1000),
 "C02": one("c02", level="fault_enumeration", min_execs=1000),
 "C03": one("c03", level="fault_enumeration", min_execs=1000),
 "C04": one("c04", "asan", min_execs=1000),
 "C05": one("c05", "asan", min_execs=1000),
 "C06": one("c06", min_execs=1000),
 "C07": one("c07", min_execs=1000),
 "C08": one("c08", min_execs=1000),
 "C09": one("c09", min_execs=1000),
 "C10": one("c10", min_execs=1000),
 "C11": one("c11", min_execs=1000),
 "C12": one("c12", min_execs=1000),
 "C13": one("c13", min_execs=1000),
 "C14": one("c14", level="fault_enumeration", min_execs=1000),
 "C15": one("c15", min_execs=1000),
 "C16": one("c16", min_execs=1000),
 "C17": one("c17", min_execs=1000),
 "C18": one("c18", "trace", min_execs=1000),
 "C19": one("c19", min_execs=1000),
 "C20": one("c20", min_execs=1000),
 "C21": one("c21", "trace", min_execs=500),
 "C22": dict(level="model_checking", parts=[dict(src="c22", variant="plain", min_execs=1000), dict(src="c22", variant="asan", quick=dict(depth=4, events=3, depth1=3, events1=2, depth2=4, events2=3, depth3=2, events3=2), thorough=dict(depth=5, events=4, depth1=3, events1=3, depth2=5, events2=4, depth3=3, events3=3), min_execs=500)]),
 "C23": one("c23", min_execs=1000),
 "C24": one("c24", min_execs=1000),
 "C25": one("c25", min_execs=1000),
}
