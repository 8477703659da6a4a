from .. import check


def _cases(mod, fn, prop, **kw):
    def go(tier, rng):
        import importlib

        m = importlib.import_module("." + mod, __name__)
        k = dict(kw)
        if tier != "quick":
            k.update(kw.get("thorough", {}))
        k.pop("thorough", None)
        check.main(prop, getattr(m, fn)(tier, rng), **k)

    return go


REGISTRY = {
    "P01": _cases("ops", "p01", "P01", batch=40, notes="every operator at each listed width, all operand values; nested expressions of depth 2-3"),
    "P02": _cases("ops", "p02", "P02", batch=40),
    "P03": _cases("lits", "p03", "P03"),
    "P04": _cases("lits", "p04", "P04", batch=40),
    "P05": _cases("data", "p05", "P05", batch=40),
    "P06": _cases("data", "p06", "P06", batch=40),
    "P07": _cases("flow", "p07", "P07", batch=25),
    "P08": _cases("flow", "p08", "P08"),
    "P09": _cases("units", "p09", "P09", batch=30),
    "P10": _cases("units", "p10", "P10", batch=30),
    "P11": _cases("units", "p11", "P11", batch=40),
    "P12": _cases("units", "p12", "P12", batch=30),
    "P20": _cases("rand", "composite", "P20", batch=20),
}
REGISTRY.update({
    "P13": _cases("seq", "p13", "P13", batch=15),
    "P16": _cases("seq", "p16", "P16", batch=15),
    "P34": _cases("seq", "p34", "P34", batch=15),
    "P14": _cases("pipe", "p14", "P14", batch=10),
    "P15": _cases("pipe", "p15", "P15", batch=15),
    "P17": _cases("mem", "p17", "P17", batch=15),
})
REGISTRY.update({
    "P23": _cases("stdlib", "p23", "P23", batch=40),
    "P24": _cases("stdlib", "p24", "P24", batch=30),
})
REGISTRY.update({
    "P25": _cases("blocks", "p25", "P25", batch=3),
    "P26": _cases("blocks", "p26", "P26", batch=5),
})
REGISTRY.update({
    "P21": _cases("names", "p21", "P21", batch=20),
})
REGISTRY.update({
    "P18": _cases("ports", "p18", "P18", batch=20),
})
REGISTRY.update({
    "P19": _cases("linear", "p19", "P19", batch=30),
})
REGISTRY.update({
    "P28": _cases("scopes", "p28", "P28", batch=20),
    "P32": _cases("types", "p32", "P32", batch=20),
})
REGISTRY.update({
    "P22": _cases("testbench", "p22", "P22", batch=20),
    "P27": _cases("testbench", "p27", "P27", batch=1),
    "P29": _cases("asserts", "p29", "P29", batch=10),
    "P30": _cases("inouts", "p30", "P30", batch=10),
    "P31": _cases("externs", "p31", "P31", batch=10),
})
REGISTRY.update({
    "P37": _cases("unsafety", "p37", "P37", batch=20),
})
REGISTRY.update({
    "P38": _cases("includes", "p38", "P38", batch=20),
    "P39": _cases("aliases", "p39", "P39", batch=20),
    "P40": _cases("markers", "p40", "P40", batch=20),
})
