# What each property's check runs.  tag = file + defs.
def W(file, variants, **kw):
    return [dict(file=file, defs=v, **kw) for v in variants]


TWOSCRIPTS = (51, 52, 31, 32, 11, 12, 15, 21, 22, 25)
ORDER = ["output shown", "complete", "signed", "summary rejected", "zero challenge", "all accepted"]
AORDER = ["frame", "attested", "attestation denied", "all accepted", "accepted"]
SCN = ["answered", "denied", "disturbed", "scenario done", "attested", "attestation denied", "frame", "output shown", "signed", "summary rejected", "zero challenge"]

# a full table of tokens: 20 spent, 20 in one output
BIG = ["MANY", "NTOK=20", "FTOK=4", "FRAMES=5", "OTOK=20"]

# the largest scripts, registers and extensions there can be, in chunks of 255 bytes
FULL = (["FIXED", "TREE=32768", "OUTS=5"], ["FIXED", "REGS=32768"], ["FIXED", "EXT=32768"], ["FIXED", "EXT=700", "REGS=700", "TREE=700", "OUTS=5"])

CHECKS = {
    "C04": dict(harnesses=[dict(file="c04_epk.c", defs=["PROP=4"], bounds="one request with any p1, p2, up to 50 data bytes; one user decision")]),
    "C17": dict(harnesses=W("c17_varint.c", [["T=%d" % t] + s + e for t in (8, 16, 32, 64) for s in ([], ["SIGNED"]) for e in ([], ["ENCODE"])],
                            ub=True, bounds="every value of the type; buffers of up to 16 bytes with any contents and position",
                            unreached=["rejected", "no space"])),
    "C18": dict(harnesses=W("c18_safeint.c", [["OP=%d" % i] for i in range(4)], ub=True, bounds="all pairs of 64-bit operands")),
    "C16": dict(harnesses=W("c16_rwbuffer.c", [["OP=%d" % i] for i in range(21)], ub=True, unreached=["refused"],
                            bounds="storage of up to 24 bytes with any contents and positions; any 64-bit length or offset (copies: up to 32)")),
    "C19": dict(harnesses=W("c19_bip32.c", [["OP=%d" % i] for i in range(8)], ub=True, bounds="paths of up to 10 elements, any values, type and coin")),
    "C20": dict(harnesses=W("c20_tree.c", [["OP=%d" % i] for i in range(7)], ub=True, bounds="any tree of the tested length, any key, hash and network")),
    "C22": dict(harnesses=W("c22_table.c", [["OP=%d" % i] for i in range(5)], ub=True,
                            bounds="any table of up to 20 ids; chunks of up to 100 bytes")),
    "C21": dict(harnesses=W("c21_box.c", [["OPS=2"], ["SMALL", "OPS=4"], ["SMALL", "EACH=12"], ["SMALL", "NOCB"]],
            bounds="a box with any counts and sizes, then up to 4 operations of any kind with any data (scripts and registers: chunks of up to 255 bytes, tokens: up to one and a half), one hash failure anywhere, callbacks that may refuse; values and heights below 128 from the third operation on")
        + W("c21_input.c", [[]], bounds="an input with any counts, then up to 4 operations with any data, one hash failure anywhere, a callback that may refuse")
        + W("c21_full.c", [["AT=%d" % a] for a in range(13)], unreached=["complete"],
            bounds="from each of 13 points of a transaction, 3 operations of any kind with any data, one hash failure anywhere, callbacks that may refuse")
        + W("c21_box.c", [["SMALL", "OPS=5"], ["SMALL", "EACH=12", "OPS=4"]], tier="thorough") + W("c21_input.c", [["OPS=6"]], tier="thorough")
        + W("c21_full.c", [["AT=%d" % a, "OPS=4"] for a in range(1, 13)], unreached=["complete"], tier="thorough", timeout=2400)),
    "C24": dict(harnesses=W("c24_flow.c", [["PROP=24", "K=9"], ["PROP=24", "LONG=43"], ["PROP=24", "LONG=254"], ["PROP=24", "LIMITS"]],
            unreached=["refused", "failed screen"], bounds="any number of dynamic screens, any 9 moves, a failure at any screen; 43 and 254 screens from end to end and back; any screen position")
        + W("c24_prompts.c", [["PROP=24", "KIND=%d" % k] for k in range(5)], bounds="one request, any path of 5 to 10 elements, any token, texts of every length; forwards and backwards")
        + W("c24_menu.c", [["PROP=24"]], bounds="any 7 presses in the menus, then a request")
        + W("c24_nav.c", [["PROP=24"] + v for v in (["OUTS=1"], ["OUTS=2"], ["OUTS=3"], ["OUTS=4"], ["OUTS=5"], ["OUTS=3", "TEXT_LONG=2", "FORWARD"],
            ["NTOK=1", "FTOK=1", "OTOK=1"], ["MANY", "NTOK=20", "FTOK=4", "FRAMES=5", "OTOK=20"],
            ["MANY", "NTOK=20", "FTOK=4", "FRAMES=5", "OTOK=20", "TARGET_NANOS"], ["MANY", "NTOK=3", "FTOK=3", "OTOK=3", "OUTS=1"],
            ["MIX=6", "OUTS=2"], ["MIX=5", "MANY", "NTOK=1", "FTOK=1", "OTOK=1"], ["NTOK=1", "FTOK=1", "OTOK=1", "FAIL"], ["OUTS=2", "FAIL"])],
            unreached=["output shown", "failed screen"],
            bounds="a transaction with one input and the listed output; all screens of its prompts forwards and backwards, or any 5 or 6 moves; MANY: concrete amounts, arbitrary ids")
        + W("c24_nav.c", [["PROP=24"] + v for v in (["OUTS=3", "TEXT_LONG=0", "FORWARD"], ["MIX=8", "OUTS=3"], ["MIX=7", "MANY", "NTOK=1", "FTOK=1", "OTOK=1"],
            ["NTOK=2", "FTOK=1", "OTOK=2"], ["MANY", "NTOK=20", "FTOK=4", "FRAMES=5", "OTOK=20", "FAIL"])], unreached=["output shown", "failed screen"], tier="thorough", timeout=1500)
        + W("c24_flow.c", [["PROP=24", "K=14"]], tier="thorough")),
    "C23": dict(harnesses=W("c23_any.c", [["PROP=23", "INJECT=1", "INS=0x%x" % i] for i in (0x10, 0x11, 0x20, 0x21)], ub=True,
            unreached=SCN + ["asked", "decided", "screen failed"])
        + W("c23_any.c", [["PROP=23", "CONT", "SC=%d" % c, "INJECT=%d" % i] for c, n in ((1, 2), (2, 2), (3, 2), (4, 8), (5, 19)) for i in range(2, n + 1)], ub=True,
            unreached=SCN + ["asked", "decided", "screen failed"])
        + W("c23_any.c", [["PROP=23", "SC=%d" % c, "INJECT=%d" % i] for c, n in ((1, 2), (4, 8), (5, 19)) for i in range(2, n + 1)], ub=True,
            unreached=SCN + ["asked", "decided", "screen failed"], tier="thorough")),
    "C14": dict(harnesses=W("c14_schnorr.c", [[], ["FAULTS"]], unwind=300,
                            bounds="any secret; up to 2 unusable random draws, then a usable one; messages of up to 6 bytes after the prefix")),
    "C15": dict(harnesses=W("c15_secrets.c", [["OP=%d" % i] for i in range(4)], bounds="any path; up to 3 SDK failures at any point")
        + W("c15_ops.c", [["PROP=15", "OP=%d" % i, "FAULTS=%d" % f] for i, f in ((0, 1), (1, 2), (2, 2), (3, 0))], bounds="one whole operation; SDK failures (given number) at any points", unreached=["ended"])
        + W("c15_any.c", [["PROP=15", "SC=%d" % c, "INJECT=%d" % i, "FAULTS=%d" % (i < 2)] for c, n in ((0, 1), (1, 2), (4, 2), (5, 18)) for i in range(1, n + 1)],
            bounds="one command with any header and data of up to 70 bytes at any point of an operation; one SDK failure in the first command", unreached=SCN + ["asked"])),
    "C08": dict(harnesses=W("c08_tx.c", [["PROP=8"] + v for v in (
        ["NIN=2", "FRAMES=2"], ["EXT=3"], ["NDIN=2"], ["NTOK=2", "FTOK=1", "OTOK=1"], 
        ["OUTS=1"], ["OUTS=2"], ["OUTS=4"], ["OUTS=5"], ["OUTS=3,1,2"], ["REGS=3"], ["VMAX=0"], ["OUTS=5", "TREE=300"], ["FIXED", "NDIN=300"], ["FIXED", "NIN=130"], ["FIXED", "REPEAT=130", "OUTS=1"], BIG, *FULL,
        ["SPLIT", "REGS=6"], ["SPLIT", "EXT=6"], ["SPLIT", "NDIN=3"], ["SPLIT", "MANY", "NTOK=5", "OTOK=5", "OUTS=3"])], unreached=["output shown"])
        + W("c08_tx.c", [["PROP=8", "OTOK=1", "NTOK=1", "OUTS=%d" % k] for k in TWOSCRIPTS], unreached=ORDER)),
    "C07": dict(harnesses=W("c07_frames.c", [["PROP=7", "FRAME_LENS=" + l] for l in ("63,63,59", "64,58", "103,99", "103,63")]
        + [["PROP=7", "FRAME_LENS=63,59", "DEAD"], ["PROP=7", "FULLK", "FRAME_LENS=223,219"]],
        unreached=["over", "inputs complete", "extension awaited", "next input", "next frame", "more"])),
    "C09": dict(harnesses=W("c09_order.c", [["PROP=9", "AT=%d" % p] for p in range(9)],
        unreached=ORDER)),
    "C12": dict(harnesses=W("c12_change.c", [["PROP=12"] + v for v in (
        ["LEN1=5", "LEN2=5", "DENY"], ["LEN1=5", "LEN2=5", "SIGNLEN=7"], ["LEN1=6", "LEN2=5"], ["LEN1=6", "LEN2=6"], ["LEN1=10", "LEN2=5"], ["LEN1=0"], ["LEN1=3"], ["LEN1=4"], ["LEN1=11"],
        ["LEN1=5", "BETWEEN=3", "LEN2=5"], ["LEN1=5", "BETWEEN=1", "LEN2=5"])],
        unreached=["first accepted", "output shown", "output rejected"])),
    "C10": dict(harnesses=W("c08_tx.c", [["PROP=10"] + v for v in (
        ["NIN=3", "OUTS=1,1", "VMAX=1", "SHOW"], ["OUTS=2,2", "VMAX=1", "SHOW"], ["OUTS=1,2,3", "VMAX=1", "SHOW"],
        ["NTOK=1", "FTOK=1", "OTOK=1", "VMAX=1", "SHOW"], ["NTOK=1", "FTOK=2", "OTOK=1", "SHOW"], ["NTOK=2", "FTOK=1", "OTOK=2"],
        ["NIN=2", "NTOK=1", "FTOK=1", "OTOK=1", "VMAX=1"],
        ["NTOK=1", "FTOK=1", "OUTS=3,1", "OTOK=1", "VMAX=1"])] + [["PROP=10", "NTOK=1", "FTOK=1", "OUTS=%d" % k, "OTOK=1", "VMAX=1", "SHOW"] for k in (1, 2, 4, 5)]
        + [["PROP=10", "SHOW"] + BIG], unreached=["output shown"])
        + W("c08_tx.c", [["PROP=10", "MANY=2", "NTOK=%d" % n, "FTOK=%d" % f, "FRAMES=%d" % r, "OTOK=1"] for n, f, r in ((20, 1, 1), (4, 4, 5), (18, 3, 1))],
            unreached=ORDER)),
    "C11": dict(harnesses=W("c08_tx.c", [["PROP=11", "SHOW", "DENY"] + v for v in (
        ["OUTS=1"], ["OUTS=2"], ["OUTS=3"], ["OUTS=4"], ["OUTS=5"], ["OUTS=5", "TREE=44"], ["OUTS=5", "TREE=36"], ["OUTS=5", "TREE=300"],
        ["OUTS=3,4"], ["OUTS=5,1"], ["OUTS=1,3", "REGS=3"], ["OUTS=3", "VMAX=1"],
        ["OUTS=1", "NTOK=1", "OTOK=1", "VMAX=1"], ["OUTS=3", "NTOK=2", "OTOK=2"], ["OUTS=2", "NTOK=1", "OTOK=1"], BIG, FULL[0])],
        unreached=["output shown", "output rejected"])
        + W("c08_tx.c", [["PROP=11", "OTOK=1", "NTOK=1", "OUTS=%d" % k] for k in TWOSCRIPTS], unreached=ORDER)),
    "C13": dict(harnesses=W("c08_tx.c", [["PROP=13", "SHOW"] + v for v in (
        ["OUTS=3"], ["OUTS=1"], ["OUTS=2"], ["OUTS=3", "NTOK=1", "OTOK=1", "FTOK=1"], ["OUTS=3", "FTOK=2"], ["DEAD"], ["SIGNLEN=10", "OUTS=2"], ["OUTS=3", "DENY"], BIG)],
        unreached=["output shown"])),
    "C06": dict(harnesses=W("c06_attest.c", [["PROP=6"] + v for v in (
        ["TREE=0"], ["TREE=7", "AVMAX=0", "SIMPLE"], ["TREE=300", "SIMPLE"], ["TOKS=1", "REGS=3"], ["TOKS=1,1", "REGS=1,2", "SIMPLE"],
        ["TOKS=5", "FRAMES=2", "SIMPLE", "NOWATCH"], ["TOKS=1", "AVMAX=1"], ["TOKS=2", "AVMAX=1", "SIMPLE"],
        ["TOKS=5,4", "FREE_IDS=0", "SIMPLE", "NOWATCH"], ["TOKS=5,5,5,5", "FREE_IDS=0", "SIMPLE", "NOWATCH"], ["TOKS=5", "SIMPLE"], ["TREE=32768", "SIMPLE"], ["TREE=600", "TOKS=1", "REGS=32768", "SIMPLE"], ["TREE=7", "TOKS=5", "REGS=300", "SIMPLE"], ["TREE=7", "TOKS=1", "AVMAX=0", "SIMPLE"],
        ["SPLIT", "REGS=6", "SIMPLE"], ["SPLIT", "TOKS=4", "SIMPLE"])])
        + W("c06_order.c", [["PROP=6", "AT=%d" % a] for a in range(6)], unreached=AORDER)),
    "C01": dict(harnesses=W("c01_header.c", [["PROP=1", "SC=0", "INJECT=1"]] + [["PROP=1", "SC=%d" % c, "INJECT=%d" % i]
        for c, n in ((1, 2), (2, 2), (3, 2), (4, 7), (5, 18)) for i in range(2 if c < 4 else 1, n + 1)], unreached=["refused", "denied"])
        + W("c01_header.c", [["PROP=1", "SC=%d" % c, "INJECT=%d" % i, "STREAMED"] for c, i in ((4, 4), (5, 9))], unreached=["refused", "denied"])
        + W("c01_header.c", [["PROP=1", "SC=%d" % c, "INJECT=%d" % i, "STREAMED"] for c, n in ((4, 7), (5, 18)) for i in range(1, n + 1)],
            unreached=["refused", "denied"], tier="thorough")
        + [dict(file="c01_loop.c", defs=["PROP=1"])]),
    "C02": dict(harnesses=W("c02_busy.c", [["PROP=2", "SC=%d" % c, "INJECT=%d" % i] for c, i in ((1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (5, 12), (5, 17), (5, 18))])
        + W("c02_busy.c", [["PROP=2", "SC=%d" % c, "INJECT=%d" % i, "COMMANDS=2"] for c, i in ((1, 2), (2, 2), (3, 2), (4, 2), (5, 17))])
        + W("c02_busy.c", [["PROP=2", "SC=5", "INJECT=%d" % i, "COMMANDS=2"] for i in (2, 12, 18)], tier="thorough")
        + W("c02_busy.c", [["PROP=2", "SC=5", "INJECT=99"]], unreached=["disturbed", "refused as busy"])
        + W("c09_order.c", [["PROP=2", "OPS=1", "AT=%d" % p] for p in range(9)], unreached=ORDER)
        + W("c06_order.c", [["PROP=2", "OPS=1", "AT=%d" % p] for p in range(6)], unreached=AORDER)),
    "C03": dict(harnesses=W("c03_session.c", [["PROP=3", "SC=%d" % c, "INJECT=%d" % i] for c, n in ((0, 1), (1, 3), (3, 3), (4, 8), (5, 19)) for i in range(1, n + 1)
            if (c, i) not in ((1, 2), (3, 2), (4, 2), (5, 2), (5, 12), (5, 17))], unreached=SCN)
        + W("c03_session.c", [["PROP=3", "SC=%d" % c, "INJECT=%d" % i, "TWICE"] for c, i in ((0, 1), (4, 4), (5, 8))], unreached=SCN)
        + W("c03_session.c", [["PROP=3", "SC=%d" % c, "INJECT=%d" % i, "OTHER"] for c, i in ((4, 3), (4, 5), (4, 6), (5, 3), (5, 7), (5, 10), (5, 16))], unreached=SCN)
        + W("c03_session.c", [["PROP=3", "SC=6", "TWICE"]], unreached=SCN)
        + W("c09_order.c", [["PROP=3", "OPS=1", "AT=%d" % p] for p in range(9)], unreached=ORDER)
        + W("c06_order.c", [["PROP=3", "OPS=1", "AT=%d" % p] for p in range(6)], unreached=AORDER)
        + W("c08_tx.c", [["PROP=3", "DENY", "DEAD"] + v for v in (["OUTS=3"], ["OUTS=2"], ["OUTS=5"])], unreached=["output shown"])
        + W("c24_nav.c", [["PROP=3", "FAIL"] + v for v in (["OUTS=3"], ["OUTS=2"], ["NTOK=1", "FTOK=1", "OTOK=1"])], unreached=["output shown"])),
    "C05": dict(harnesses=[dict(file="c05_address.c", defs=["PROP=5"], bounds="one request with any p1, p2, up to 51 data bytes; one user decision")]),
    "C25": dict(harnesses=W("c25_app.c", [["PROP=25"]], unreached=SCN) + W("c25_app.c", [["PROP=25", "RAW=60"]], unreached=SCN)
        + W("c02_busy.c", [["PROP=25", "SC=%d" % c, "INJECT=99"] for c in range(1, 6)], unreached=SCN + ["refused as busy"])),
    "C26": dict(harnesses=[dict(file="c26_sign_init.c", defs=["PROP=26"], unreached=["path screen"], bounds="one request with any p2, up to 51 data bytes; one user decision")]),
    "C27": dict(harnesses=W("c27_faults.c", [["PROP=27", "SC=%d" % c] for c in range(8)], unreached=SCN + ["scenario done"])
        + W("c14_schnorr.c", [["FAULTS"]], unwind=300, unreached=["refused", "failed", "signed", "signed after a retry"])),
    "C28": dict(harnesses=[dict(file="c28_attest_init.c", defs=["PROP=28"], bounds="one request with any p2, up to 62 data bytes; one user decision; one part")]),
    "C29": dict(harnesses=W("c29_session.c", [["PROP=29", "START"]], unreached=["any command", "scenario done"])
        + W("c29_session.c", [["PROP=29", "SC=0", "INJECT=1"]], unreached=SCN + ["started"])
        + W("c29_session.c", [["PROP=29", "SC=%d" % c, "INJECT=%d" % i, "RELIABLE"] for c, n in ((1, 2), (2, 2), (3, 2), (4, 8), (5, 19)) for i in range(2, n + 1)], unreached=SCN + ["started"])),
    "C30": dict(harnesses=W("c30_secrets.c", [["PROP=30", "OP=%d" % i] for i in range(4)])),
}
