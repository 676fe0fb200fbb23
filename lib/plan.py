"""Which histories, models and clauses decide which property."""
import json, os

# events per unit of scale, roughly: api 32, grow 14, retarget 27, corrupt 300, hostile 10,
# fault 260, short 20, crash 18, files 30, free 28, names 17, hb 1, help 23, mbr 16, arith 1.6,
# types 28
QUICK = {
    "C01": {"wide": 5, "counts": 30, "api": 200, "grow": 30, "names": 20, "retarget": 40, "files": 20, "short": 20},
    "C02": {"counts": 20, "wide": 6, "api": 200, "grow": 30, "retarget": 80, "files": 20, "corrupt": 6},
    "C03": {"wide": 5, "counts": 30, "hb": 4000, "api": 120, "grow": 60, "retarget": 60, "hostile": 200},
    "C04": {"counts": 40, "api": 160, "grow": 40, "retarget": 120, "corrupt": 6, "fault": 2},
    "C05": {"api": 160, "retarget": 120, "files": 60, "corrupt": 4, "grow": 20, "short": 40},
    "C06": {"counts": 30, "rob": 160, "api": 120, "retarget": 80, "corrupt": 4, "grow": 30},
    "C07": {"crash": 80, "fcrash": 40, "fault": 12, "grow": 10},
    "C08": {"wide": 4, "counts": 20, "corrupt": 30, "crash": 20, "api": 120, "rob": 40, "files": 20, "retarget": 20},
    "C09": {"counts": 15, "corrupt": 24, "hostile": 300, "help": 60, "files": 20},
    "C10": {"counts": 20, "api": 160, "free": 200, "grow": 20, "hostile": 200},
    "C11": {"counts": 20, "api": 160, "free": 200, "grow": 20, "hostile": 200},
    "C12": {"counts": 30, "api": 100, "free": 240, "hostile": 300, "grow": 10},
    "C13": {"wide": 4, "counts": 80, "api": 240, "grow": 50, "free": 80, "names": 10, "retarget": 20},
    "C14": {"wide": 6, "counts": 40, "grow": 120, "api": 160, "hostile": 120, "retarget": 20},
    "C15": {"counts": 40, "api": 160, "free": 100, "grow": 60, "hostile": 200, "fault": 2},
    "C16": {"counts": 40, "api": 240, "grow": 30, "free": 80, "hostile": 150},
    "C17": {"counts": 20, "api": 240, "hb": 400, "retarget": 80, "corrupt": 4, "files": 20},
    "C18": {"hostile": 1000, "corrupt": 8, "help": 60, "free": 40, "arith": 300},
    "C19": {"fault": 30, "short": 200, "files": 10},
    "C20": {"mbr": 900},
    "C21": {"counts": 15, "api": 120, "files": 120, "fcrash": 15, "fault": 10, "retarget": 60, "grow": 10, "rob": 30},
    "C22": {"types": 150, "api": 100, "files": 10},
    "C23": {"arith": 12000},
    "C24": {"retarget": 20, "counts": 15, "free": 240, "api": 200, "hostile": 100},
    "C25": {"counts": 20, "retarget": 300, "files": 40, "api": 60},
    "C26": {"help": 300, "files": 80, "names": 10},
    "C27": {"wide": 4, "counts": 40, "grow": 250, "api": 60},
    "C28": {"counts": 30, "again": 250, "api": 120, "retarget": 40, "rob": 30, "files": 20},
}
# factor of the scales and number of seeds when thorough
THOROUGH = (4, 3)


def families(prop, tier):
    q = QUICK[prop]
    if tier == "quick":
        return [(f, n * 5 // 2, 1) for f, n in q.items()]
    return [(f, n * THOROUGH[0], THOROUGH[1]) for f, n in q.items()]


DEV = {"d": 14}
MODELS = {     # devices (number of blocks of 4096 bytes) of the models
    "McEdit": DEV, "McCopies": DEV, "McCrash": DEV, "McGrow": {"d": 16}, "McGuard": None,
    "McDevs": {"d": 14, "e": 17, "f": 11}, "McClones": {"d": 14, "e": 16},
    "McMbr": {"d": 3}, "McMbr2": {"d": 3},
}
MODULE = {"McMbr": "MbrMC.tla", "McMbr2": "MbrMC.tla"}
ONE_SIZE = ["McGuard", "McMbr2"]      # the same for quick and thorough checks
LARGER = {"McEdit": {"d": 15}}
USES = {
    "C01": ["McCopies"], "C02": ["McDevs"], "C03": ["McGrow"], "C04": ["McDevs"],
    "C05": ["McDevs"], "C06": ["McCopies"], "C07": ["McCrash"], "C08": ["McCopies", "McCrash"],
    "C09": ["McCopies"], "C10": ["McEdit"], "C11": ["McEdit"], "C12": ["McEdit"],
    "C13": ["McEdit"], "C14": ["McGrow"], "C15": ["McEdit", "McGrow"], "C16": ["McEdit"],
    "C17": ["McClones", "McCopies"], "C21": ["McDevs"], "C24": ["McEdit"],
    "C20": ["McMbr"], "C25": ["McClones", "McDevs"], "C28": ["McCopies", "McDevs"], "C27": ["McGrow", "McGuard"],
}
MORE = {"C20": ["McMbr2"]}            # for thorough checks only


def models(prop, tier):
    r = []
    for n in USES.get(prop, []) + (MORE.get(prop, []) if tier == "thorough" else []):
        big = tier == "thorough" and n not in ONE_SIZE
        devs = LARGER.get(n, MODELS[n]) if big else MODELS[n]
        m = {"name": n, "module": MODULE.get(n, "GptInst.tla"), "cfg": n + ("T" if big else "") + ".cfg",
             "workers": 8 if big else 4, "timeout": 1500 if big else 400}
        if devs:
            m["walks"] = {
                "prefix": "\n".join("dev %s %d" % (k, v * 4096) for k, v in devs.items()),
                "budget": 40000 if big else 2500, "length": 60}
        r.append(m)
    return r


# the properties an operation breaks that does not return, or returns what is not even of the
# right form
OWNER = {
    "create": ["C03", "C17"], "fcreate": ["C03", "C05"],
    "open": ["C08", "C09", "C18"], "fopen": ["C08", "C09", "C18"], "rdisk": ["C08", "C18"],
    "add": ["C10", "C13"], "addat": ["C11", "C13"],
    "rm": ["C16"], "rmg": ["C16"], "take": ["C16"], "upd": ["C14", "C16"],
    "setg": ["C17"], "q": ["C12", "C13", "C24"],
    "write": ["C01", "C02", "C19"], "writec": ["C01", "C02", "C19"],
    "clone": ["C25"], "retgt": ["C25"], "swap": ["C25"], "takedev": ["C25"],
    "mbr": ["C20"], "rdboot": ["C20"], "wrboot": ["C20"], "rdsig": ["C20"], "wrsig": ["C20"],
    "prec": ["C20"], "arith": ["C23"], "block": ["C23"], "attrs": ["C23"], "type": ["C22"], "hb": ["C03"],
    "hw": ["C26"], "pw": ["C26"], "pz": ["C26"], "hr": ["C26"], "pr": ["C26"],
    "whdr": ["C26"], "rhdr": ["C26"], "rparts": ["C26"], "pwp": ["C26"],
}

NEED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "need.json"))) \
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "need.json")) else {}

ASSUMPTIONS = [
    "the device behaves like the harness' devices: byte-addressed, a flush makes earlier writes "
    "durable, blocks are written atomically",
    "the harness' independent decoder and CRC of the on-disk format are right",
    "histories are bounded as DESIGN.md says; numbers range over all 64 bits",
]
