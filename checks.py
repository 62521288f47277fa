"""Which tests decide which property. quick/thorough are factors on the case counts in the tests."""
def T(run, **kw):
    return dict(run=run, **kw)

CHECKS = {
    "C10": dict(pkg="prim", tests=[T("TestC10_Laws"), T("TestC10_Forgery")]),
    "C12": dict(pkg="prim", tests=[T("TestC12_Laws"), T("TestC12_Bases", shards=2)]),
    "C13": dict(pkg="prim", tests=[T("TestC13_Sweep"), T("TestC13_Honest"), T("TestC13_Forgers"), T("TestC13_Wraparound")]),
    "C14": dict(pkg="prim", tests=[T("TestC14_Honest"), T("TestC14_Forgers")]),
    "C15": dict(pkg="prim", tests=[T("TestC15_Params"), T("TestC15_Honesty"), T("TestC15_Challenges", pkg="sys"), T("TestC15_Client", pkg="sys"), T("TestC15_Together", pkg="sys", cost=3, shards=4)]),
    "C16": dict(pkg="prim", tests=[T("TestC16_Laws"), T("TestC16_Forgers")]),
    "C17": dict(pkg="prim", tests=[T("TestC17_Honest"), T("TestC17_Spread"), T("TestC17_Cheats"), T("TestC17_Biffle"), T("TestC17_BiffleSpread", shards=4)]),
    "C20": dict(pkg="prim", tests=[T("TestC20_Values"), T("TestC20_Long"), T("TestC20_Events", shards=4), T("TestC20_Config", shards=2)]),
    "C22": dict(pkg="prim", tests=[T("TestC22_Encryption")]),
    "C01": dict(pkg="sys", tests=[T("TestC01_History"), T("TestC01_Far"), T("TestC01_Crowd", cost=3), T("TestC01_Deep", cost=3, shards=4)]),
    "C02": dict(pkg="sys", tests=[T("TestC02_History"), T("TestC02_Crowd", cost=3), T("TestC02_Together", cost=3, shards=4)]),
    "C05": dict(pkg="sys", tests=[T("TestC05_History"), T("TestC05_Sizes"), T("TestC05_Crowd", cost=3), T("TestC05_Wide"), T("TestC05_Deep", cost=3, shards=4)]),
    "C06": dict(pkg="sys", tests=[T("TestC06_History"), T("TestC06_Reposts"), T("TestC06_Strangers"), T("TestC06_Crowd", cost=3), T("TestC06_Wide")]),
    "C07": dict(pkg="sys", tests=[T("TestC07_History"), T("TestC07_Tampered"), T("TestC07_Client"), T("TestC07_Crowd", cost=3), T("TestC07_Wide")]),
    "C08": dict(pkg="sys", tests=[T("TestC08_History"), T("TestC08_Invalid"), T("TestC08_Wide"), T("TestC08_Deep", cost=3, shards=2)]),
    "C09": dict(pkg="sys", tests=[T("TestC09_Altered"), T("TestC09_Boundary")]),
    "C04": dict(pkg="sys", tests=[T("TestC04_Requests"), T("TestC04_Servers")]),
    "C03": dict(pkg="sys", tests=[T("TestC03_History"), T("TestC03_Hops"), T("TestC03_SmallTables")]),
    "C11": dict(pkg="sys", tests=[T("TestC11_History"), T("TestC11_Again"), T("TestC11_Restart", shards=4)]),
    "C18": dict(pkg="sys", tests=[T("TestC18_Altered")]),
    "C19": dict(pkg="sys", tests=[T("TestC19_Chain")]),
    "C27": dict(pkg="sys", tests=[T("TestC27_Wire", pkg="e2e", shrink="2s"), T("TestC27_Hostile")]),
    "C26": dict(pkg="prim", tests=[T("TestC26_Arguments"), T("TestC26_Lengths"), T("TestC26_Requests", pkg="sys")]),
    "C21": dict(pkg="sys", tests=[T("TestC21_Late"), T("TestC21_Joins"), T("TestC21_Together", cost=3, shards=4)]),
    "C23": dict(pkg="e2e", parallel=12, tests=[T("TestC23_Scripts", shrink="2s", shards=12), T("TestC23_Wide", pkg="sys")]),
    "C24": dict(pkg="e2e", parallel=8, tests=[T("TestC24_Flood", shrink="2s")]),
    "C25": dict(pkg="e2e", parallel=8, tests=[T("TestC25_Typed", shrink="2s")]),
}

TECHNIQUE = {
    "prim": "property-based testing (rapid): generated inputs and generated adversaries against independent integer arithmetic",
    "sys": "stateful property-based testing (rapid): generated histories, schedules and forged messages on real coordinator/server/client handlers, against a reference model",
    "e2e": "property-based testing of the deployed programs: generated operator/client scripts on real processes, against a reference model",
}
NOTE = {
    "prim": "Held on every generated case; adversaries are a fixed family of known forging strategies. Trusts the group arithmetic of the crypto library and Go's math/big.",
    "sys": "Held on every generated history; handlers run in one process, one message at a time, over real TCP sockets. Commitment primes are small and come from a list; placeholder counts are small.",
    "e2e": "Held on every generated script; separate processes, real key presses and typed commands, real timing (a failure need not repeat). Few scripts per run because the programs sleep about a second per round. C24: the coordinator, C25: the clients are built with the race detector; only interleavings that ran are judged.",
}
NOT_APPLICABLE = {}
