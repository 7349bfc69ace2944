"""What each property's check runs: (driver, weight) pairs. "gen:NAME" is harness/profiles.py's profile NAME through harness/gen.py."""
CHECKS = {
    "P01": [("gen:match", 8), ("gen:default", 1), ("gen:subs", 1)],
    "P02": [("gen:qos1", 8), ("gen:restart", 1), ("gen:mix", 1)],
    "P03": [("gen:qos2", 8), ("gen:acl", 1), ("gen:restart", 1)],
    "P04": [("gen:flow", 8), ("gen:qos2", 1), ("gen:restart", 1), ("bulk:x", 0.4)],
    "P05": [("gen:order", 8), ("gen:cut", 1), ("gen:qos1", 1)],
    "P06": [("gen:session", 7), ("gen:takeover", 2), ("gen:default", 1)],
    "P07": [("gen:session", 8), ("gen:will", 1), ("gen:restart", 1)],
    "P08": [("gen:takeover", 8), ("gen:session", 1), ("gen:will", 1)],
    "P09": [("gen:will", 8), ("gen:keepalive", 1), ("gen:takeover", 1)],
    "P10": [("gen:retained", 8), ("gen:retopt", 1), ("gen:restart", 1)],
    "P11": [("gen:retopt", 8), ("gen:retained", 1), ("gen:subs", 1)],
    "P12": [("gen:retmode", 8), ("gen:announce", 2)],
    "P13": [("gen:share", 8), ("gen:restart", 1), ("gen:takeover", 1)],
    "P14": [("gen:expiry", 7), ("gen:retained", 1), ("gen:will", 1), ("gen:restart", 1)],
    "P15": [("gen:auth", 9), ("gen:bad", 1)],
    "P16": [("gen:acl", 9), ("gen:mix", 1)],
    "P17": [("gen:subs", 8), ("gen:retopt", 1), ("gen:match", 1)],
    "P18": [("gen:alias", 9), ("gen:props", 1)],
    "P19": [("gen:restart", 10), ("gen:stats", 0.7)],
    "P20": [("gen:crash", 10)],
    "P21": [("gen:cut", 10)],
    "P22": [("gen:bad", 10)],
    "P23": [("gen:keepalive", 9), ("gen:will", 1)],
    "P24": [("gen:size", 9), ("gen:props", 1)],
    "P26": [("gen:reload", 10)],
    "P27": [("gen:stop", 10)],
    "P28": [("gen:threads", 10)],
    "P29": [("gen:props", 10)],
    "P30": [("gen:stats", 10)],
    "P31": [("gen:plugin", 10)],
    "P32": [("gen:slow", 9), ("gen:qos1", 1)],
    "P33": [("gen:announce", 10)],
    "P34": [("gen:maxqos", 9), ("gen:subs", 1)],
}

NEEDS = {}        # further builds: tsan
# models (harness/models.py) explored along; behaviours simulated from them are given to the real broker
MODELS = {"P01": ["P01"], "P02": ["P02"], "P03": ["P03"], "P04": ["P04"], "P05": ["P05"], "P06": ["P06"], "P07": ["P06"], "P08": ["P06"], "P09": ["P09"], "P10": ["P10"], "P11": ["P11"],
          "P13": ["P13"], "P14": ["P14"], "P16": ["P16"], "P17": ["P17"], "P18": ["P18"], "P19": ["P19"], "P23": ["P23"], "P24": ["P24"], "P27": ["P09"], "P34": ["P17"]}
for _p, _ms in MODELS.items():
    for _m in _ms:
        CHECKS[_p].append(("model:" + _m, sum(w for _, w in CHECKS[_p]) / 5))
LEVEL = {}
TECH = {}
NOTE = {}
