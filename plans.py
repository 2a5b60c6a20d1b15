"""What each check explores."""

BN254 = 21888242871839275222246405745257275088548364400416034343698204186575808495617
# formats: IEEE single / double, bfloat16, tf32, odd ones in between
BIG = [(8, 23), (11, 52), (8, 23), (11, 52), (8, 7), (8, 10), (7, 16), (5, 5), (9, 40)]
STD = [(8, 23), (11, 52)]
HONEST = "r1cs:bn254:0,scs:bn254:0"
HONEST_T = "r1cs:bn254:0,scs:bn254:8,r1cs:bn254:5,scs:bls12_377:0"
# a malicious prover is tried against several widths of the range-check tables
ATTACK = "r1cs:bn254:3,scs:bn254:5,r1cs:bn254:6,scs:bn254:7,r1cs:bn254:8,r1cs:bn254:0"
MANY = ("r1cs:bn254:0,scs:bn254:0,r1cs:bn254:1,scs:bn254:2,r1cs:bn254:3,scs:bn254:3,r1cs:bn254:5,scs:bn254:6,r1cs:bn254:7,"
        "scs:bn254:8,r1cs:bn254:9,r1cs:bn254:11,scs:bn254:12,r1cs:bls12_377:0,scs:bls12_377:8,r1cs:bls12_381:0,scs:bls12_381:4,"
        "r1cs:bw6_761:8,scs:bw6_761:0,r1cs:bls24_315:0,scs:bls24_317:0,r1cs:bw6_633:4")
# the widest tables: a few programs each (a table of 2^17 entries is slow to build)
TABLES = "scs:bn254:13,r1cs:bn254:14,r1cs:bn254:15,scs:bn254:16,r1cs:bn254:17,r1cs:bn254:16,scs:bn254:17,r1cs:bn254:4,r1cs:bn254:10,scs:bn254:0"


# every width of the range-check tables the library may be given (it chooses 2..17 itself)
WIDE = ",".join("%s:bn254:%d" % (("r1cs", "scs")[w % 2], w) for w in range(1, 13))
WIDE_T = WIDE + "," + ",".join("%s:bn254:%d" % (("scs", "r1cs")[w % 2], w) for w in range(1, 18))


def q(c, a, b):
    return a if c.quick else b


def ops(c, sweep_ops, sweep_fmts, step_ops, step_fmts, steps, batch=64, modes="vv,cv,vc", sweep_steps=None, sys=None):
    """exhaustive small formats + sampled large ones, honest prover"""
    for i, (E, M) in enumerate(sweep_fmts):
        n = len(sweep_ops) * 2 ** (1 + E + M)
        per = n // 8 + len(sweep_ops) + 1
        c.gen("sweep%d" % i, "rows", {"FMTS": [(E, M)], "OPS": sweep_ops, "BATCH": 1}, per, 8, step="sweep", shards=True)
    c.gen("step", "rows", {"FMTS": step_fmts, "OPS": step_ops, "BATCH": batch, "SHARD": 0, "SHARDS": 1}, steps, 8)
    sysl = sys or q(c, HONEST, HONEST_T)
    for i in range(len(sweep_fmts)):
        c.vh("rows", c.files("sweep%d" % i), "-sys", sysl, "-modes", "vv", "-batch", 128)
    f = c.files("step")
    c.vh("oracle", f)
    c.vh("rows", f, "-sys", sysl, "-modes", modes, "-const-rows", q(c, 96, 512), "-widths", q(c, WIDE, WIDE_T))


RULE_OPS = ("operands are chosen by the specification: every operand (pair) of the small formats, and corner-biased operands "
            "(alignment distance, cancellation, exact ties, under-/overflow boundary, specials) of the large ones; distinct "
            "(operation, format, operands) are counted; the expected datum is computed by the specification with unbounded integers")
ASSUME = ["gnark's builders, solver and log-derivative argument are trusted", "formats within the documented limits (E >= 4, M <= 2^(E-2))"]


def c01(c):
    o = ["add", "sub", "mul", "div"]
    ops(c, o, q(c, [(4, 3)], [(4, 3), (4, 2), (5, 2), (4, 4)]), o, BIG, q(c, 70, 1200))
    return c.finish("exploration", RULE_OPS, ASSUME)


def c02(c):
    ops(c, ["sqrt"], q(c, [(4, 3), (5, 5), (4, 4), (6, 6)], [(4, 3), (5, 5), (4, 4), (6, 6), (8, 7), (7, 8), (5, 8)]), ["sqrt"], BIG,
        q(c, 120, 2500), modes="vv,cv")
    return c.finish("exploration", RULE_OPS, ASSUME)


def c03(c):
    o = ["lt", "le", "gt", "ge"]
    ops(c, o, q(c, [(4, 3)], [(4, 3), (4, 2), (5, 2), (4, 4)]), o, BIG, q(c, 70, 1200))
    return c.finish("exploration", RULE_OPS, ASSUME)


def c04(c):
    o = ["trunc", "floor", "ceil", "toint"]
    ops(c, o, q(c, [(4, 3), (5, 5), (4, 4)], [(4, 3), (5, 5), (4, 4), (6, 6), (8, 7), (5, 8)]), o, BIG, q(c, 90, 1500), modes="vv,cv")
    return c.finish("exploration", RULE_OPS, ASSUME)


def c05(c):
    c.gen("alloc", "alloc", {"P": BN254, "FMTS": BIG + [(4, 3)], "BATCH": 64}, q(c, 40, 500), 8, inv="oneName")
    ops(c, ["id", "abs", "neg"], q(c, [(4, 3), (5, 5)], [(4, 3), (5, 5), (6, 6), (8, 7)]), ["id", "id", "abs", "neg"], BIG, q(c, 60, 900),
        modes="vv,cv,fv")
    c.vh("alloc", c.files("alloc"), "-sys", "r1cs:bn254:0,scs:bn254:3,r1cs:bn254:5,scs:bn254:8,r1cs:bn254:7")
    return c.finish("exploration", RULE_OPS + "; field elements that encode nothing (one bit too long, negative, sign digit 2, "
                    "fractions of encodings, ...) are offered together with lying hints and must be refused", ASSUME)


RULE_LIES = ("for each operation the specification picks operands and the only admissible outcome; the harness enumerates the false answers "
             "a prover can give to each hint (neighbours, negations, shifts, carries into the table index, paired outputs moved along a "
             "linear relation; for tiny formats every small value) against the real constraint system; a case is one (operands, target)")


def attack(c, o, fm_small, fm_big, n_small, n_big, window):
    c.gen("small", "rows", {"FMTS": fm_small, "OPS": o, "BATCH": 4, "SHARD": 0, "SHARDS": 1}, q(c, 40, 200), 4)
    c.gen("big", "rows", {"FMTS": fm_big, "OPS": o, "BATCH": 4, "SHARD": 0, "SHARDS": 1}, q(c, 40, 300), 4)
    c.vh("attack", c.files("small"), "-sys", ATTACK, "-window", window, "-limit", n_small, "-budget", q(c, 12, 250))
    c.vh("attack", c.files("big"), "-sys", ATTACK, "-limit", n_big, "-budget", q(c, 16, 400), *q(c, [], ["-rich"]))


def c06(c):
    attack(c, ["add", "sub", "mul", "div", "sqrt"], [(4, 3), (4, 4)], STD + [(8, 7), (5, 5)], q(c, 40, 400), q(c, 24, 400), q(c, 24, 600))
    return c.finish("exploration", RULE_LIES, ASSUME)


def c07(c):
    attack(c, ["lt", "le", "trunc", "floor", "ceil", "toint", "id"], [(4, 3), (4, 4)], STD + [(8, 7), (5, 5)], q(c, 40, 400), q(c, 24, 400),
           q(c, 24, 600))
    return c.finish("exploration", RULE_LIES, ASSUME)


def c08(c):
    c.gen("prog", "program", {"FMTS": STD + [(8, 7), (5, 5), (4, 3), (7, 16)], "LEN": 20, "FALSE": False}, q(c, 3000, 40000), 8, inv="canonical")
    c.vh("program", c.files("prog"), "-sys", q(c, "r1cs:bn254:0,scs:bn254:0,r1cs:bn254:8", "r1cs:bn254:0,scs:bn254:0,r1cs:bn254:8,scs:bn254:5"))
    return c.finish("exploration", "the specification generates programs (histories of loads, constants, operations, comparisons used for "
                    "selection, satisfied assertions) over two register files (contexts of one or two formats); the real circuit is stepped through the same calls and every "
                    "register is compared after every call; distinct programs are counted", ASSUME)


def c09(c):
    c.gen("eq", "asserts", {"FMTS": STD + [(4, 3), (8, 7), (5, 5)], "OPS": ["eq"], "BATCH": 64}, q(c, 100, 1500), 8, inv="wellFormed")
    c.vh("asserts", c.files("eq"), "-sys", "r1cs:bn254:0,scs:bn254:0,r1cs:bn254:6,scs:bn254:8", "-const-rows", 300)
    return c.finish("exploration", "pairs of data around equality (same, neighbours, sign flips, zeros, NaNs, infinities), each with the "
                    "specified verdict accept / refuse; refused pairs are retried with lying hints; distinct pairs counted", ASSUME)


def c10(c):
    c.gen("ulp", "asserts", {"FMTS": STD + [(4, 3), (8, 7), (5, 5)], "OPS": ["ulp"], "BATCH": 64}, q(c, 60, 1000), 4, inv="wellFormed")
    c.gen("tol", "asserts", {"FMTS": STD, "OPS": ["tol"], "BATCH": 16}, q(c, 60, 800), 4, inv="wellFormed")
    s = "r1cs:bn254:0,scs:bn254:0,r1cs:bn254:6,scs:bn254:8"
    c.vh("asserts", c.files("ulp"), "-sys", s, "-const-rows", 300)
    c.vh("asserts", c.files("tol"), "-sys", s, "-const-rows", 100)
    return c.finish("exploration", "pairs around the decision boundary of the one-ULP and of the absolute-tolerance assertion (binade edges, "
                    "largest finite value, exact tolerance distance), each with the specified verdict; refused pairs are retried with lying "
                    "hints; distinct (assertion, pair, tolerance) counted", ASSUME)


WIDTHS = [0, 1, 2, 3, 5, 7, 8, 11]


def gadget(c, kinds, steps, rule):
    c.gen("g", "gadgets", {"P": BN254, "WIDTHS": WIDTHS, "KINDS": kinds, "BATCH": 64}, steps, 8)
    c.vh("gadgets", c.files("g"), "-sys", "r1cs:bn254:0,scs:bn254:0")
    return c.finish("exploration", rule, ASSUME)


def c11(c):
    return gadget(c, ["range"], q(c, 100, 1200), "field elements around every boundary of a range check (2^bits, the limb boundary, negatives, "
                  "fractions that become small after scaling), all three modes, eight table widths; refused values are retried with "
                  "limb decompositions a prover could offer; distinct (mode, bits, width, value) counted")


def c12(c):
    return gadget(c, ["pow2"], q(c, 100, 1200), "exponents inside and outside the table with honest and forged powers (carries into the table "
                  "index included), five table sizes, eight range-check widths; distinct (table, width, exponent, answer) counted")


def c13(c):
    c.gen("ip", "intprog", {"LEN": 14, "WIDTHS": [3, 5, 8, 6, 0]}, q(c, 2600, 30000), 8, inv="sound")
    c.vh("intprog", c.files("ip"), "-sys", "r1cs:bn254:0,scs:bn254:0")
    return gadget(c, ["abs", "max", "logic"], q(c, 50, 1200), "signed values around 0 and around the declared length, pairs with small and "
                  "extreme difference, equality and disjunction with constants in every position; both answers of the sign hint are tried; "
                  "programs of up to 14 calls over one register file, the same register asked about repeatedly under other lengths; "
                  "distinct rows and programs counted")


def c14(c):
    c.gen("life", "lifecycle", {"WIDTHS": [0, 3, 8, 5], "MAXLEN": 10}, q(c, 5000, 60000), 8, inv="nothingLost")
    c.vh("lifecycle", c.files("life"), "-sys", "r1cs:bn254:0,scs:bn254:0")
    return c.finish("exploration", "histories of context creation, queued obligations (in the body, in callbacks before and after closing) "
                    "and an assignment meeting or breaking each; the finished circuit must accept / refuse / fail to compile as specified; "
                    "distinct histories counted", ASSUME)


def c15(c):
    c.gen("prog", "program", {"FMTS": STD + [(8, 7), (4, 3)], "LEN": 14, "FALSE": True}, q(c, 2400, 24000), 8, inv="canonical")
    c.vh("program", c.files("prog"), "-sys", MANY)
    c.gen("wide", "program", {"FMTS": STD + [(8, 7), (4, 3)], "LEN": 12, "FALSE": True}, q(c, 5, 60) * 12, 8, inv="canonical")
    c.vh("program", c.files("wide"), "-sys", TABLES)
    return c.finish("exploration", "generated programs, each compiled for two of 22 configurations (range-table widths 0..12, R1CS and PLONK, "
                    "seven curves): the observable result may not depend on the configuration; distinct programs counted", ASSUME)


LOC = [(8, 23), (11, 52)]


def geo(c, kind, rows, rule, sys="r1cs:bn254:0,scs:bn254:0", batch=16, inv=None):
    c.gen("geo", "h3", {"FMTS": LOC, "KINDS": [kind], "BATCH": batch}, max(4, rows // (8 * batch)), 8, inv=inv)
    c.vh("real", c.files("geo"), "-sys", sys)
    if kind in ("hex", "norm", "cell"):
        c.vh("h3oracle", c.files("geo"), *c.h3ref())
    return c.finish("exploration", rule + "; distinct (precision, input) counted", ASSUME)


def c18(c):
    return geo(c, "face", q(c, 6000, 60000), "directions uniform on the sphere, about face centres, edges (two nearest faces) and vertices "
               "(five) at distances down to the last place, about the axes; every face within rounding of the nearest is admissible, "
               "with its own constants")


def c19(c):
    return geo(c, "hex", q(c, 9000, 120000), "plane points anywhere, about centres, edges and corners of hexagons at distances down to the last "
               "place, indices up to 2^22 (2^18 in single precision)")


def c20(c):
    return geo(c, "norm", q(c, 12000, 200000), "signed triples of up to 30 bits, equal, zero and extreme members included, all eight sign patterns")


def c21(c):
    return geo(c, "radius", q(c, 8000, 80000), "squared chord lengths from 2^-60 to 0.42 and all sixteen resolutions")


def c22(c):
    return geo(c, "plane", q(c, 6000, 60000), "directions as for C18 with the nearest or any other face, all resolutions (both orientations)")


def c23(c):
    return geo(c, "cell", q(c, 4000, 40000), "locations as for C18, resolutions 0..15 (0..7 in single precision), honest trigonometric hints")


def c16(c):
    # whole steps, every hint of theirs in the prover's hands
    for k, n, lies in (("norm", 400, 300), ("hex", 160, 400), ("radius", 60, 300), ("plane", 60, 300), ("face", 48, 200), ("resolution", 300, 1), ("orientation", 120, 1), ("scale", 40, 1)):
        c.gen(k, "h3", {"FMTS": LOC, "KINDS": [k], "BATCH": 4}, max(2, q(c, n, n * 10) // 32), 8)
        c.vh("realattack", c.files(k), "-sys", ATTACK, "-budget", q(c, 10, 130), "-limit", q(c, lies, lies * 8))
    return c.finish("exploration", "for each step of the location circuits (face, radius, plane, hexagon, normalisation) the specification gives the "
                    "input and every admissible outcome; the harness answers one or two outputs of a hint falsely (hint kinds in turn, sites at "
                    "random) and later hints consistently; a case is one (input, target); resolutions outside 0..15 have no admissible outcome", ASSUME)


def fn(c, kinds, rows, rule, fmts=LOC, sys="r1cs:bn254:0,scs:bn254:0", batch=16):
    for k in kinds:
        c.gen(k, "mathfn", {"FMTS": fmts, "KINDS": [k], "BATCH": batch}, max(4, rows // (8 * batch * len(kinds))), 8, inv="sane")
        c.vh("real", c.files(k), "-sys", sys)
    return c.finish("exploration", rule + "; distinct (function, precision, argument) counted", ASSUME)


def c24(c):
    return fn(c, ["half"], q(c, 24000, 400000), "angles up to two turns: uniform, within units in the last place and at vanishing distances of "
              "multiples of a quarter turn, tiny and subnormal ones", batch=32)


def c25(c):
    return fn(c, ["eval", "evalk"], q(c, 9000, 120000), "up to six coefficients and a point, of ordinary size or from the corner-biased classes "
              "(zeros, subnormal, huge, infinite, NaN); the result must be Horner's datum bit for bit", fmts=LOC + [(8, 7), (5, 5), (7, 16)])


def c26(c):
    return fn(c, ["atan"], q(c, 8000, 100000), "data of all classes, around 1 (the change of branch), within [0,1], reciprocals, tiny and huge, "
              "infinite and NaN, both signs")


def c27(c):
    return fn(c, ["sin"], q(c, 8000, 100000), "data up to pi: uniform, around pi/2 (folding) and pi within units in the last place, tiny, subnormal, both signs")


def c28(c):
    return fn(c, ["atan2"], q(c, 6000, 80000), "points in all four quadrants, on the axes, of equal, opposite and extreme magnitudes, infinite and NaN "
              "coordinates", fmts=[(11, 52)])


def c29(c):
    for k, f, n in (("convert", BIG + [(4, 3), (11, 5), (4, 2)], 24000), ("scaled", [(11, 52)], 8000), ("degrees", [(11, 52)], 8000), ("digits", LOC, 8000),
                    ("bytes", [(8, 23)], 4000)):
        c.gen(k, "mathfn", {"FMTS": f, "KINDS": [k], "BATCH": 64}, q(c, n, n * 12) // 512, 8, inv="sane")
        c.vh("real", c.files(k))
    return c.finish("exploration", "bit patterns of eleven formats (all classes), integers up to 2^62 and multiples of 10^9, angles, digit strings of "
                    "every length around the width with and without foreign characters; distinct inputs counted", ASSUME[1:])


def c33(c):
    return geo(c, "local", q(c, 8000, 100000), "places within the base cells about the twenty face centres, all resolutions, origins elsewhere in the "
               "same base cell, pairs down to 2^-53 of a radian apart from the centre")


def c30(c):
    c.gen("tables", "h3", {"FMTS": LOC, "KINDS": ["norm"], "BATCH": 1}, 2, 1, step="tables", inv="geometry")
    c.vh("real", c.files("tables"))
    return c.finish("exploration", "every entry of every table in both precisions; the specification's own values are checked to form an icosahedron "
                    "whose azimuths point at vertices", ())


def exchange(c, kinds, rows, rule):
    c.gen("ex", "exchange", {"KINDS": kinds, "BATCH": 16}, max(4, rows // 128), 8, inv="sane")
    c.vh("exchange", c.files("ex"), *c.prox_args())
    return c.finish("exploration", rule, ("stand-ins for the external H3 tools (the submodule is not available offline)",))


def c31(c):
    return exchange(c, ["ijk", "pijk", "tocell", "tolatlng", "toboundary", "cells"], q(c, 6000, 60000),
                    "locations and indices handed to stand-ins of the tools, texts they print (signs, axes, noise around and near misses of the "
                    "answer, missing answers) and exit codes; cells written to a file and read back; distinct exchanges counted")


def c32(c):
    return exchange(c, ["distance", "distance", "main"], q(c, 4000, 40000), "pairs of points anywhere, close by, next to and at the antipode; runs of the "
                    "program with outlines around the verifier, its mirror images and anywhere; distinct cases counted")


def c34(c):
    hows = ["groth16", "plonk", "mem-groth16", "mem-plonk"] * 3 + ["plain"]
    c.gen("bench", "bench", {"FMTS": [(8, 23), (5, 5), (11, 52)], "HOWS": hows}, q(c, 24, 240), 8, inv="truthful")
    c.vh("bench", c.files("bench"))
    return c.finish("exploration", "histories of real proofs (both proof systems) of true and false claims about one operation, recorded in one of two "
                    "files or one that cannot be opened; distinct runs counted", ASSUME)


def c35(c):
    c.gen("ledger", "ledger", {"FMTS": STD + [(8, 7), (4, 3)], "WIDTHS": [1, 2, 3, 4, 5, 6, 7, 8, 9], "LEN": 10}, q(c, 1500, 40000), 8)
    c.vh("ledger", c.files("ledger"), "-sys", "r1cs:bn254:0,r1cs:bls12_381:0,r1cs:bw6_761:0")
    return c.finish("exploration", "histories of up to twelve calls in one context, the circuit finished after each or some of them; distinct "
                    "(context, history) counted")


def c36(c):
    c.gen("weave", "weave", {"FMTS": [(8, 23), (4, 3), (11, 52), (8, 7)], "WIDTHS": [0, 0, 3, 5, 8], "TASKS": 3, "LEN": 5}, q(c, 400, 5000), 8,
          inv="isolated")
    c.vh("weave", c.files("weave"), "-sys", "r1cs:bn254:0,scs:bn254:0,r1cs:bls12_381:0")
    c.vh_race("weave", c.files("weave")[:q(c, 1, 4)], "-sys", "r1cs:bn254:0,scs:bn254:0", "-limit", q(c, 6, 100))
    return c.finish("exploration", "schedules interleaving the builders of three circuits call by call, their completion and the proving of two "
                    "assignments each; then all of it at once, with one and many solver threads; a part of it under the race detector", ASSUME)


PLANS = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}
LEVELS = {}
LEVEL_NOTES = {}
NOT_APPLICABLE = {}
TAGS = {p: "loc" for p in ("C16", "C18", "C19", "C20", "C21", "C22", "C23")}
TAGS.update({p: "prox" for p in ("C31", "C32")})
TAGS["C36"] = "race"
