"""Which TLC configurations and conformance suites decide which property.

module   TLA+ module in spec/; cfg: configuration (default: same name;
         <cfg>.thorough.cfg is used by the thorough tier if there is one)
gen      generator of the harness that writes the input file of the module;
         n: how many cases per tier
handler  replayer of the harness for the behaviours TLC prints (none: the
         model alone is checked)
then     the replayer records traces of the real code; this module accepts or
         rejects them
min      least number of behaviours, guards against vacuous runs
classes  kinds of behaviour of which at least one must have occurred
"""


def n(quick, thorough):
    return {"quick": quick, "thorough": thorough}


def random_patches(quick=2500, thorough=40000):
    return {"name": "random patches", "module": "MCParseFile", "handler": "parse",
            "gen": "patches", "n": n(quick, thorough), "min": 500}


def wild(quick=1500, thorough=40000, handler="parse"):
    return {"name": "wild inputs", "module": "MCParseFile", "handler": handler,
            "gen": "wild", "n": n(quick, thorough), "min": 500}


def random_edits(quick=1500, thorough=25000):
    return {"name": "random edits", "module": "MCApplyFile", "handler": "apply",
            "gen": "edits", "n": n(quick, thorough), "min": 500}


def block_edits(quick=100, thorough=1500):
    return {"name": "block-sized edits", "module": "MCApplyFile", "handler": "apply",
            "gen": "blocks", "n": n(quick, thorough), "min": 30}


def many_edits(quick=16, thorough=600):
    return {"name": "hundreds of fragments", "module": "MCApplyFile", "handler": "apply",
            "gen": "manyedits", "n": n(quick, thorough), "min": 12}


def scaled_edits(quick=100, thorough=2500):
    return {"name": "every line many lines", "module": "MCApplyFile", "handler": "scaled",
            "gen": "edits", "n": n(quick, thorough), "min": 30}


def insertions(quick=150, thorough=4000):
    return {"name": "insertions in one place", "module": "MCApplyFile", "handler": "apply",
            "gen": "insertions", "n": n(quick, thorough), "min": 100}


def huge_texts(quick=2, thorough=12):
    return {"name": "sources beyond 4 GiB", "module": "MCApplyFile", "handler": "hugetext",
            "gen": "hugetexts", "n": n(quick, thorough), "min": 1}


def random_binaries(quick=1000, thorough=15000):
    return {"name": "random binary fragments", "module": "MCBinFile", "handler": "binary",
            "gen": "binaries", "n": n(quick, thorough), "min": 500}


def long_deltas(quick=40, thorough=600, **kw):
    return {"name": "long deltas", "module": "MCBinFile", "handler": "binary",
            "gen": "longdeltas", "n": n(quick, thorough), "min": 30, **kw}


def many_deltas(quick=150, thorough=2000):
    return {"name": "deltas of megabytes", "module": "MCDeltaMany", "handler": "manydelta",
            "gen": "binaries", "n": n(quick, thorough), "min": 25}


def tlc(module, handler, least, **kw):
    return dict(module=module, handler=handler, min=least, **kw)


APPLY = tlc("MCApply", "apply", 20000)
APPLY2 = tlc("MCApply", "apply", 1000, cfg="MCApply2")
APPLY3 = tlc("MCApply", "apply", 1000, cfg="MCApply3")
EDIT = tlc("MCEdit", "apply", 5000)
DELTA = tlc("MCDelta", "binary", 5000)
DELTAOPS = tlc("MCDelta", "binary", 1000, cfg="MCDeltaOps")
BINHUGE = tlc("MCBinLimit", "binary", 10, cfg="MCBinHuge")

def slots(group, handler="parse", least=2000):
    return tlc("MCSlots", handler, least, cfg="MCSlots" + group)


def every_byte(group):
    return tlc("MCBytes", "parse", 20000, cfg="MCBytes" + group)


def every_byte_of(what, module, handler, quick=6, thorough=1):
    return {"name": "every byte everywhere", "module": module, "handler": handler, "gen": "everybyte" + what,
            "n": n(quick, thorough), "shards": 4, "min": 3000}


PUMP = tlc("MCPump", "pump", 120)


def words_everywhere(what, module, handler):
    return {"name": "long words everywhere", "module": module, "handler": "long" + handler, "gen": "longeverybyte" + what, "n": 1, "min": 40}


FORMATPUMP = tlc("MCPumpFormat", "formatpump", 55)
WORDS = tlc("MCBytes", "longparse", 200, cfg="MCBytesLong")


REFORMAT = [dict(random_patches(2500, 40000), module="MCFormatFile", handler="reformat"),
            dict(wild(2500, 40000), module="MCFormatFile", handler="reformat")]

SUITES = {
    "C01": [EDIT, many_edits(), random_edits(), block_edits(), scaled_edits(), huge_texts(), insertions()],
    "C02": [APPLY, many_edits(), APPLY2, APPLY3, random_edits(), block_edits(), scaled_edits()],
    "C03": [APPLY, many_edits(), APPLY2, APPLY3, random_edits(), block_edits(), scaled_edits(),
            huge_texts()],
    "C04": [tlc("MCCalls", "calls", 20000)],
    "C05": [DELTA, DELTAOPS, random_binaries(), long_deltas(), many_deltas()],
    "C06": [DELTA, DELTAOPS, tlc("MCBinLimit", "binary", 1000), random_binaries(), long_deltas(), many_deltas()],
    "C07": [tlc("MCBinLimit", "binary", 1000), BINHUGE, DELTAOPS, random_binaries()],
    "C08": [tlc("MCBinCalls", "bincalls", 5000)],
    "C09": [{"module": "MCIO"},
            tlc("MCEdit", "textfaults", 500, cfg="MCEditFault", then="MCIOTrace"),
            tlc("MCApply", "textfaults", 2000, cfg="MCApplyFault", then="MCIOTrace"),
            dict(random_edits(100, 2000), handler="textfaults", then="MCIOTrace", min=50),
            tlc("MCDelta", "binaryfaults", 500, cfg="MCDeltaOps", then="MCIOTrace"),
            dict(random_binaries(120, 2000), handler="binaryfaults", then="MCIOTrace", min=50),
            tlc("MCParseFault", "parsefaults", 1000, then="MCIOTrace")],
    "C10": [EDIT, APPLY, APPLY2, random_edits(), block_edits(30, 800),
            scaled_edits(40, 800)],
    "C11": [tlc("MCInterleave", "interleave", 5000),
            tlc("MCInterleave", "interleave", 5000, cfg="MCInterleave3"),
            tlc("MCInterleave", "race", 500, cfg="MCInterleaveRace", race=True),
            dict(random_edits(150, 3000), race=True, min=50),
            dict(random_patches(300, 5000), race=True, min=50),
            dict(random_binaries(80, 2000), race=True, min=50)],
    "C12": [{"module": "MCSections", "handler": "parse", "min": 10000}, PUMP, random_patches(), wild()],
    "C13": [{"module": "MCBody", "handler": "parse", "min": 10000},
            {"module": "MCHunkHead", "handler": "parse", "min": 10000},
            tlc("MCFragments", "parse", 20000), slots("Hunk"), every_byte("Hunk"), PUMP, WORDS, random_patches(), wild()],
    "C14": [tlc("MCValidate", "validate", 1000), tlc("MCValidate", "validate", 1000, cfg="MCValidate2")],
    "C15": [{"module": "MCHeader", "handler": "parse", "min": 10000},
            {"module": "MCHeader", "cfg": "MCHeader2", "handler": "parse", "min": 10000},
            slots("Header"), every_byte("Header"), PUMP, WORDS, random_patches(), wild()],
    "C16": [{"module": "MCNames", "handler": "parse", "min": 5000}, tlc("MCNames", "longparse", 1000, cfg="MCNamesLong"), slots("Names"), every_byte("Names"), PUMP, WORDS, random_patches(), wild(),
            tlc("MCFormat", "format", 2000, cfg="MCFormatNames")] + REFORMAT,
    "C17": [{"module": "MCTrad", "handler": "parse", "min": 5000}, slots("Trad"), every_byte("Trad"), PUMP, WORDS, random_patches(), wild()],
    "C18": [{"module": "MCBinParse", "handler": "parse", "min": 3000}, slots("Binary"), every_byte("Binary"), PUMP, random_patches(), wild()],
    "C20": [tlc("MCDelivery", "delivery", 20000), PUMP, tlc("MCSlots", "total", 200000),
            tlc("MCSubject", "totaltext", 15000), tlc("MCIdentityForms", "totaltext", 20000),
            tlc("MCDates", "totaltext", 5000),
            dict(module="MCHeaderFile", handler="totaltext", gen="mailheaders", n=n(1000, 50000), min=500),
            wild(5000, 100000, handler="total"), dict(random_patches(1500, 30000), handler="total")],
    "C21": [tlc("MCMessage", "header", 40000), tlc("MCFields", "header", 20000),
            dict(module="MCHeaderFile", handler="header", gen="prettyheaders", n=n(5000, 150000), min=4000),
            every_byte_of("pretty", "MCHeaderFile", "header"), words_everywhere("pretty", "MCHeaderFile", "header"),
            tlc("MCPumpText", "textpump", 40, cfg="MCPumpTextPretty")],
    "C22": [tlc("MCMessage", "header", 40000, cfg="MCMessageMail"), tlc("MCFields", "header", 50000, cfg="MCFieldsMail"),
            tlc("MCSubject", "header", 15000), tlc("MCSubject", "header", 15000, cfg="MCSubjectEncoded"),
            dict(module="MCHeaderFile", handler="header", gen="mailheaders", n=n(5000, 150000), min=4000),
            every_byte_of("mail", "MCHeaderFile", "header"), words_everywhere("mail", "MCHeaderFile", "header"),
            tlc("MCPumpText", "textpump", 120, cfg="MCPumpTextMail")],
    "C23": [tlc("MCCalendar", "date", 50000), tlc("MCDates", "date", 5000), tlc("MCDates", "date", 20000, cfg="MCDatesEdited"),
            dict(module="MCDatesFile", handler="date", gen="dates", n=n(5000, 200000), min=4000),
            every_byte_of("date", "MCDatesFile", "date"), words_everywhere("date", "MCDatesFile", "date")],
    "C24": [tlc("MCIdentity", "identity", 50000), tlc("MCIdentityForms", "identity", 20000),
            dict(module="MCIdentityFile", handler="identity", gen="identities", n=n(3000, 100000), min=2000),
            every_byte_of("identity", "MCIdentityFile", "identity"), words_everywhere("identity", "MCIdentityFile", "identity"),
            tlc("MCPumpText", "textpump", 40, cfg="MCPumpTextIdentity")],
    "C25": [{"module": "MCStream", "cfg": "MCStreamModel"},
            tlc("MCStream", "stream", 20000, then="MCStreamTrace")],
    "C26": [tlc("MCFileApply", "fileapply", 10000)],
    "C27": [{"module": m, "handler": "parse", "min": 3000} for m in ("MCSections", "MCBody", "MCHunkHead", "MCHeader", "MCTrad", "MCBinParse")]
           + [slots(g) for g in ("Hunk", "Header", "Names", "Trad", "Binary")] + [random_patches(), wild()],
    "C28": [FORMATPUMP, {"module": "MCFormat", "handler": "text", "min": 2000}, tlc("MCFormat", "longtext", 50, cfg="MCFormatWords"),
            dict(random_patches(1500, 40000), module="MCFormatFile", handler="text"),
            dict(wild(1500, 40000), module="MCFormatFile", handler="text"),
            tlc("MCFormat", "text", 12000, cfg="MCFormatMeta")],
    "C29": [{"module": "MCCost"},
            {"name": "long edits", "module": "MCApplyFile", "handler": "textcost", "gen": "longedits",
             "n": n(40, 600), "then": "MCCostTrace", "min": 60},
            dict(random_edits(300, 5000), handler="textcost", then="MCCostTrace", min=100),
            dict(scaled_edits(60, 1000), handler="scaledcost", then="MCCostTrace"),
            dict(block_edits(60, 800), handler="textcost", then="MCCostTrace", min=60),
            tlc("MCDelta", "binarycost", 50, cfg="MCDeltaOps", then="MCCostTrace"),
            dict(random_binaries(500, 8000), handler="binarycost", then="MCCostTrace", min=50),
            long_deltas(handler="binarycost", then="MCCostTrace")],
    "C19": [FORMATPUMP, {"module": "MCFormat", "handler": "format", "min": 2000}, tlc("MCFormat", "longformat", 50, cfg="MCFormatWords")] + REFORMAT +
           [tlc("MCFormat", "format", 12000, cfg="MCFormatMeta")],
}

NOTES = {}
