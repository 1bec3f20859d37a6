"""What each check runs (see run.py)."""
CHECKS = {
    "C01": {
        "ops": ["enc", "dec", "encblock", "predblock", "pred"],
        "mc": [{"module": "LawsSms", "cfg": "LawsC01.cfg"}],
    },
    "C02": {
        "ops": ["new", "set", "enc"],
        "mc": [{"module": "LawsSms", "cfg": "LawsC02.cfg", "thorough_cfg": "LawsC02Big.cfg"},
               {"module": "LawsSubmit", "cfg": "LawsChange.cfg", "thorough_cfg": "LawsChangeBig.cfg"}],
    },
    "C03": {
        "ops": ["new", "set", "enc"],
        "mc": [{"module": "LawsSubmit", "cfg": "LawsC03.cfg", "thorough_cfg": "LawsC03Big.cfg"}],
    },
    "C05": {
        "ops": ["new", "set", "enc"],
        "mc": [{"module": "LawsSms", "cfg": "LawsC05.cfg"}],
    },
    "C06": {
        "ops": ["new", "set", "enc"],
    },
    "C04": {
        "ops": ["new", "set", "bad", "enc"],
        "gen": [
            {"module": "SubmitGen", "quick": {"bound": 3}},
            {"module": "SubmitGen", "quick": {"bound": 14, "simulate": 240, "depth": 16},
             "thorough": {"bound": 24, "simulate": 12000, "depth": 26}},
        ],
        "mc": [{"module": "SubmitMachine", "cfg": "SubmitMachine.cfg",
                "thorough_cfg": "SubmitMachineBig.cfg", "workers": 3}],
    },
    "C07": {
        "ops": ["dec"],
        "mc": [{"module": "LawsDeliver", "cfg": "LawsC07.cfg"}],
    },
    "C08": {
        "ops": ["dec"],
        "mc": [{"module": "LawsDeliver", "cfg": "LawsC08.cfg", "thorough_cfg": "LawsDeliverBig.cfg"}],
    },
    "C09": {
        "ops": ["dec"],
        "mc": [{"module": "LawsDeliver", "cfg": "LawsC09.cfg"}],
    },
    "C10": {
        "ops": ["udh"],
        "mc": [{"module": "LawsUdh", "cfg": "LawsC10.cfg", "thorough_cfg": "LawsC10Big.cfg"}],
    },
    "C12": {
        "ops": ["assign", "look"],
        "gen": [{"module": "DeliverGen", "quick": {"bound": 3}, "thorough": {"bound": 4}}],
    },
    "C13": {
        "ops": ["pack7", "pack7h", "pack8", "pack16", "unpack", "swap", "number", "hex"],
        "mc": [{"module": "LawsSms", "cfg": "LawsC13.cfg"}],
    },
    "C14": {
        "ops": ["new", "next", "preview", "reset", "drain"],
        "gen": [{"module": "PreviewMC", "quick": {"bound": 7},
                 "thorough": {"bound": 9, "cfg": "PreviewMCBig.cfg"}}],
    },
    "C11": {
        "ops": ["new", "send", "relay", "arrive"],
        "gen": [{"module": "SmsSystem", "quick": {"bound": 6, "cfg": "SmsSystemGen.cfg"},
                 "thorough": {"bound": 8, "cfg": "SmsSystemGen.cfg"}}],
        "mc": [{"module": "SmsSystem", "cfg": "SmsSystem.cfg", "env": {"DEPTH": "30"}}],
    },

    "C15": {
        "ops": ["enc", "enchdr", "dec"],
        "mc": [{"module": "LawsWsp", "cfg": "LawsC15.cfg"}],
    },
    "C16": {
        "ops": ["enc", "dec", "encp", "decp", "names"],
        "mc": [{"module": "LawsMms", "cfg": "LawsC16.cfg"}],
    },
    "C17": {
        "ops": ["msg", "sethdr", "delhdr", "setct", "addpage", "enc"],
        "sessions": ["reset"],
        "mc": [{"module": "LawsMms", "cfg": "LawsC17.cfg", "thorough_cfg": "LawsMmsBig17.cfg"}],
    },
    "C18": {
        "ops": ["file", "part", "page", "msg", "data", "phdr", "image", "audio", "text", "addpage", "addpart",
                "enc", "list"],
        "sessions": ["reset"],
        "mc": [{"module": "LawsMms", "cfg": "LawsC18.cfg", "thorough_cfg": "LawsMmsBig18.cfg"}],
    },
    "C19": {
        "ops": ["msg", "addpage", "addpart", "sethdr", "setct", "enc", "smil", "list", "lookmsg", "tofile",
                "fromfile", "adopt", "touch", "away", "back"],
        "sessions": ["reset"],
        "gen": [{"module": "MmsSession", "quick": {"bound": 3, "cfg": "MmsSessionGen.cfg"},
                 "thorough": {"bound": 4, "cfg": "MmsSessionGen.cfg"}},
                {"module": "MmsSession",
                 "quick": {"bound": 12, "simulate": 240, "depth": 14, "cfg": "MmsSessionWalk.cfg"},
                 "thorough": {"bound": 24, "simulate": 8000, "depth": 26, "cfg": "MmsSessionWalk.cfg"}}],
        "mc": [{"module": "MmsSession", "cfg": "MmsSession.cfg", "env": {"DEPTH": "6"}}],
    },
    "C20": {
        "ops": ["file", "page", "msg", "image", "audio", "text", "duration", "itemhdr", "itemdrop", "addpage",
                "smil"],
        "sessions": ["reset"],
        "mc": [{"module": "LawsSmil", "cfg": "LawsC20.cfg", "thorough_cfg": "LawsC20Big.cfg"}],
    },
    "C21": {
        "ops": ["file", "part", "page", "load", "data", "ptext", "ctype", "phdr", "image", "audio", "text",
                "duration", "look", "lookpart", "away", "back"],
        "sessions": ["reset"],
    },
    "C22": {
        "ops": ["is", "extract"],
        "mc": [{"module": "LawsPush", "cfg": "LawsC22.cfg", "thorough_cfg": "LawsC22Big.cfg"}],
    },
    "C23": {
        "ops": ["dec"],
    },
    "C24": {
        "ops": ["new", "try", "look", "take", "drain", "whole"],
        "mc": [{"module": "LawsDecoders", "cfg": "LawsC24.cfg", "thorough_cfg": "LawsC24Big.cfg"}],
    },
    "C25": {
        "ops": ["new", "send", "relay", "arrive"],
        "gen": [{"module": "SmsSystem", "quick": {"bound": 5, "cfg": "SmsSystemGen.cfg"},
                 "thorough": {"bound": 7, "cfg": "SmsSystemGen.cfg"}}],
        "mc": [{"module": "SmsSystem", "cfg": "SmsSystem.cfg", "env": {"DEPTH": "30"}}],
    },
    "C26": {
        "ops": ["submit", "confirm", "notify", "answer", "retrieve", "ack", "report", "lookret", "forward"],
        "sessions": ["reset"],
        "gen": [{"module": "MmsSystem", "quick": {"bound": 4, "cfg": "MmsSystemGen.cfg"},
                 "thorough": {"bound": 7, "cfg": "MmsSystemGen.cfg"}},
                {"module": "MmsSystem",
                 "quick": {"bound": 18, "simulate": 110, "depth": 20, "cfg": "MmsSystemGen.cfg"},
                 "thorough": {"bound": 26, "simulate": 6000, "depth": 28, "cfg": "MmsSystemGen.cfg"}}],
        "mc": [{"module": "MmsSystem", "cfg": "MmsSystem.cfg", "env": {"DEPTH": "40"}}],
    },
    "C28": {
        "ops": ["submit", "relay", "expire", "arrive", "report"],
        "sessions": ["world"],
        "gen": [{"module": "SmsExchange", "quick": {"bound": 5, "cfg": "SmsExchangeGen.cfg"},
                 "thorough": {"bound": 8, "cfg": "SmsExchangeGen.cfg"}},
                {"module": "SmsExchange",
                 "quick": {"bound": 30, "simulate": 150, "depth": 32, "cfg": "SmsExchangeGen.cfg"},
                 "thorough": {"bound": 44, "simulate": 6000, "depth": 46, "cfg": "SmsExchangeGen.cfg"}}],
        "mc": [{"module": "SmsExchange", "cfg": "SmsExchange.cfg", "env": {"DEPTH": "1000"}},
               {"module": "SmsExchange", "cfg": "SmsExchangeLong.cfg", "env": {"DEPTH": "1000"}}],
    },
    "C27": {
        "ops": ["user", "overlapped", "alone", "drop"],
        "sessions": ["user"],
        "split": True,
        "shards": {"thorough": 24},
        "gen": [{"module": "Overlap",
                 "quick": {"bound": 24, "simulate": 300, "depth": 26, "cfg": "OverlapGen.cfg"},
                 "thorough": {"bound": 40, "simulate": 2500, "depth": 42, "cfg": "OverlapGen.cfg"}}],
        "mc": [{"module": "Overlap", "cfg": "Overlap.cfg", "env": {"DEPTH": "1000"}},
               {"module": "Overlap", "cfg": "OverlapShared.cfg", "env": {"DEPTH": "1000"}, "violates": "Alone"},
               {"module": "Overlap", "cfg": "OverlapKept.cfg", "env": {"DEPTH": "1000"}, "violates": "Alone"}],
    },
}

from notes import NOTE, COMMON      # noqa: E402
for _c in CHECKS:
    CHECKS[_c]["note"] = NOTE[_c][0]
    CHECKS[_c]["assumptions"] = NOTE[_c][1] + " " + COMMON
