"""What decides each property: recordings to validate and models to check."""


def T(harness, spec, **kw):
    return dict(kind="trace", harness=harness, spec=spec, **kw)


def M(spec, **kw):
    return dict(kind="model", spec=spec, **kw)



def parts(n):
    return [("-DPART=%d" % i,) for i in range(n)]


STREAM = [("-O0", "-DPART=%d" % i) for i in range(4)]
POINTS = [("-O0", "-DPART=%d" % i) for i in range(3)]
PORTABLE = dict(_hw=False, USE_ASM=False)


def FIELD(mode, *more):
    return [T("h_field", "T_Field", parts=parts(7), args=[mode], config=c, name="h_field:" + mode + n) for c, n in (({}, ""), (PORTABLE, " portable")) + more]


MIXED = dict(USE_MIXED_ADDITION=True)


def EXP(mode, config={}):
    """Exponentiation templates over an abstract group and over the shipped groups."""
    tag = mode + (" mixed addition" if "USE_MIXED_ADDITION" in config else " low memory" if config else "")
    return [T("h_expz", "T_Exp", args=[mode], parts=[("-O1",)], config=config, name="h_expz:" + tag),
            T("h_expc", "T_Curve", args=[mode], parts=[("-O1",)], config=config, name="h_expc:" + tag)]


def GEN(spec, cfg, num, depth, **kw):
    """Behaviours of a specification, written out as programs for the library."""
    return M(spec, cfg=cfg, simulate=num, depth=depth, collect=cfg, name=cfg, **kw)


def ALG(spec, *more, **kw):
    """The model of an algorithm: checked, checked within wider bounds (thorough), and wrong variants that have to fail."""
    wrong = kw.get("wrong", ())
    return ([M(spec, cfg=c, name=c) for c in kw.get("named", (spec,) + more)] + [M(spec, cfg=kw["deep"], name=kw["deep"], thorough_only=True)]
            + [M(spec, cfg=c, refuted="invariant", name=c) for c in ((wrong,) if isinstance(wrong, str) else wrong)])


def PAIR(mode, *args):
    return T("h_pairing", "T_Pairing", parts=[("-O1",)], args=[mode] + list(args), name="h_pairing:" + mode)


# parallel regions: under the scheduler of harness/vomp.hpp, under a race detector, under the shipped runtime
VOMP = dict(MULTICORE=True, VOMP=True, _cxx=["-fopenmp"])
RACES = dict(VOMP, USE_ASM=False, _cxx=["-fopenmp", "-fsanitize=thread"])
GOMP = dict(MULTICORE=True, _cxx=["-fopenmp"])

# the documented build options, each at both values; every two of them meet somewhere
BUILDS = [
    ("default", {}),
    ("no assembly", dict(_opt="-O1", USE_ASM=False, _hw=False)),
    ("debug", dict(DEBUG=True, NDEBUG=False, _GLIBCXX_DEBUG=True, _GLIBCXX_DEBUG_PEDANTIC=True, _opt="-O1")),
    ("counting, low memory", dict(_opt="-O1", PROFILE_OP_COUNTS=True, LOWMEM=True, BINARY_OUTPUT=False, MONTGOMERY_OUTPUT=False)),
    ("multi-core, mixed addition", dict(_opt="-O1", MULTICORE=True, USE_MIXED_ADDITION=True, NO_PT_COMPRESSION=True, NDEBUG=False, _cxx=["-fopenmp"])),
    ("aggressive", dict(_opt="-O3", BINARY_OUTPUT=False, _cxx=["-flto=1", "-fuse-linker-plugin", "-fno-fat-lto-objects"])),
    ("portable everything", dict(_opt="-O1", USE_ASM=False, _hw=False, DEBUG=True, NDEBUG=False, PROFILE_OP_COUNTS=True, USE_MIXED_ADDITION=True, LOWMEM=True, MONTGOMERY_OUTPUT=False, NO_PT_COMPRESSION=True)),
]


# undefined behaviour made visible: checked memory and arithmetic; unset memory with unusual contents
CHECKED = [
    ("default", {}),
    ("memory and arithmetic checked", dict(_opt="-O1", DEBUG=True, NDEBUG=False, _cxx=["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS"],
                                           _env=dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1"))),
    ("unset memory filled", dict(_opt="-O1", _cxx=["-ftrivial-auto-var-init=pattern"], _env=dict(MALLOC_PERTURB_="165"))),
    ("portable, checked", dict(_opt="-O1", USE_ASM=False, _hw=False, PROFILE_OP_COUNTS=True, LOWMEM=True, BINARY_OUTPUT=False, USE_MIXED_ADDITION=True, _cxx=["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS"],
                               _env=dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1"))),
]


# independent recordings made on several threads at once
TRACED = dict(VT_THREADS=True, USE_ASM=False, _opt="-O1", _cxx=["-fsanitize=thread"])
THREADS = dict(VT_THREADS=True)


def CONC(harness, spec, *args, **kw):
    both = kw.pop("both", False)
    return [T(harness, spec, args=list(args), config=c, name="%s:%s %s" % (harness, ",".join(args), n), **kw)
            for n, c in (("race detector", TRACED), ("on threads", THREADS))[:1 + both]]


# drawn at random, or advice that depends on the build
SKIP = ("randomize", "sample", "samples", "option", "expwindow")


def SAME(harness, *args, **kw):
    builds = kw.pop("builds", BUILDS)
    which = kw.pop("which", range(len(builds)))
    return dict(kind="same", harness=harness, spec="T_Conf", args=[a for a in args if a], configs=[builds[i] for i in which], skip=SKIP, env=dict(VT_SPECIAL="1"),
                name="%s:%s in all builds" % (harness, ",".join(a for a in args if a)), **kw)


TEXT = dict(BINARY_OUTPUT=False)

CHECKS = {
    "P01": dict(jobs=[T("h_p01", "T_Field"), T("h_p01", "T_Field", config=PORTABLE, name="h_p01 portable"), M("OracleTest", cfg="OracleTest_fields", name="OracleTest_fields")] + ALG("MontModel", "MontWords", deep="MontDeep", wrong="MontMutant"), note="Every recorded history of the ten prime fields is a behaviour of FieldMachine; operands are directed at carry, borrow and reduction boundaries. Not exhaustive over the 2^181..2^381 residues."),
    "P02": dict(jobs=FIELD("forms"), note="All 19 field types: recorded sequences over a register file, in which every in-place, functional and self-aliased form must leave exactly the state FieldMachine prescribes for all registers. Operands directed, not exhaustive."),
    "P03": dict(jobs=FIELD("inv"), note="Inverses, powers by machine words, multi-precision integers of several widths and scalar-field elements for all field types, against exact TLA+ arithmetic; directed exponents and operands."),
    "P04": dict(jobs=FIELD("sqrt") + ALG("SqrtModel", deep="SqrtDeep", wrong=("SqrtMutant", "SqrtZero")), note="Square roots of directed squares (zero, one, subfield elements, random) in every field offering one; termination by bounded run time."),
    "P05": dict(jobs=FIELD("arith"), note="All tower types: recorded products, squarings by each method, subfield products and adjoined-root products against polynomial arithmetic in FieldsPure."),
    "P06": dict(jobs=FIELD("frob"), note="Frobenius maps of order 0..2d+1 and large orders for all extension types, against exponentiation by p^k in the specification."),
    "P07": dict(jobs=FIELD("cyc"), note="Cyclotomic squares, inverses and powers on subgroup elements; sparse products with zero and nonzero coefficient patterns, for all types offering them."),
    "P08": dict(jobs=FIELD("bin", (dict(ASM_MINIMIZE_CLMULS=True), " fewer multiplications")), note="Five binary fields, both with and without carry-less multiplication instructions, on directed bit patterns, against polynomials over GF(2)."),
    "P09": dict(jobs=[T("h_params", "T_Params", parts=[("-O1",)])], note="Every published constant of every field and curve against its defining equation, including primality-free order proofs through complete factor lists; the tables are checked exhaustively."),
    "P10": dict(jobs=[T("h_util", "T_Util", args=["root"], config=c, name="h_util:root" + n) for c, n in (({}, ""), (PORTABLE, " portable"))], note="Every n = 2^k for k up to 2-adicity + 2, and non-powers around them, for all prime fields."),
    "P11": dict(jobs=[T("h_util", "T_Util", args=["bigint"]), T("h_util", "T_Util", args=["bigint"], config=TEXT, name="h_util:bigint text")], note="Multi-precision integers of widths 1..6 on directed bit patterns, both output encodings."),
    "P12": dict(jobs=[T("h_util", "T_Util", args=["pack"]), T("h_util", "T_Util", args=["pack"], config=dict(MONTGOMERY_OUTPUT=False), name="h_util:pack standard form")], note="Word and bit packing for all fields, both word forms, directed lengths and chunk sizes."),
    "P13": dict(jobs=[T("h_stream", "T_Stream", parts=STREAM, config=dict(BINARY_OUTPUT=b, MONTGOMERY_OUTPUT=m), name="h_stream %s %s" % (b and "binary" or "text", m and "Montgomery" or "standard"), thorough_only=not b and not m)
                      for b in (True, False) for m in (True, False)] + [T("h_util", "T_Util", args=["bits"])], note="All field types and containers, four encodings; every value written followed by other values in the same stream and read back in order."),
    "P14": dict(jobs=[T("h_curve", "T_Curve", args=["law"], parts=[("-O1",)]), M("OracleTest", cfg="OracleTest_curves", name="OracleTest_curves")], note="Ten groups: recorded histories over a register file of points in all representations (affine, scaled by random Z, identity with arbitrary coordinates), including equal, opposite and identity operands."),
    "P15": dict(jobs=[T("h_curve", "T_Curve", args=["mul"], parts=[("-O1",)])], note="Scalars of every width (zero, one, order-1, order, order+1, all-ones, random) on points in all representations."),
    "P16": dict(jobs=EXP("wnaf") + [M("RecodeModel", cfg="RecodeModel", collect="RecodeProg", name="RecodeModel")] + ALG("RecodeModel", named=(), deep="RecodeDeep", wrong="RecodeMutant") + [T("h_expz", "T_Exp", args=["recode", "@TMP/RecodeProg"], parts=[("-O1",)], name="h_expz:recode")], note="Recodings of directed and random scalars of 1..6 words for windows 1..20, checked digit by digit; exponentiation over an abstract cyclic group and over the ten shipped groups."),
    "P17": dict(jobs=EXP("msm") + EXP("msm", dict(MIXED, **PORTABLE)) + [M("MsmModel", cfg="MsmModel", collect="MsmProg", name="MsmModel")] + ALG("MsmModel", named=(), deep="MsmDeep", wrong=("MsmPadding", "MsmHeap", "MsmBucket")) + [T("h_expz", "T_Exp", args=["lists", "@TMP/MsmProg"], parts=[("-O1",)], config=c, name="h_expz:lists" + n) for c, n in (({}, ""), (PORTABLE, " portable"))], note="All methods, list lengths 0..40 and larger, chunk counts, directed scalar shapes; over an abstract cyclic group and over the shipped groups, with and without mixed addition."),
    "P18": dict(jobs=EXP("fixed") + EXP("fixed", dict(LOWMEM=True, **PORTABLE)) + ALG("TableModel", deep="TableDeep", wrong="TableMutant"), note="Window sizes and scalar lengths exhaustively on small ranges over an abstract group, and directed over the shipped groups."),
    "P19": dict(jobs=EXP("batch") + ALG("BatchModel", deep="BatchDeep", wrong=("BatchMutant", "BatchZeros")), note="Batches of directed composition (empty, single, identities, repeated, mixed representations) over all fields and groups."),
    "P20": dict(jobs=[T("h_points", "T_Stream", parts=POINTS, config=dict(BINARY_OUTPUT=b, **x), name="h_points %s%s" % (b and "binary" or "text", "".join(" " + k for k in x)))
                      for b, x in ((True, {}), (False, {}), (True, dict(NO_PT_COMPRESSION=True)), (False, dict(NO_PT_COMPRESSION=True)), (True, dict(USE_MIXED_ADDITION=True, MONTGOMERY_OUTPUT=False)))], note="Ten groups and all precomputation types, five encodings; points in all representations, roots of directed sign, values concatenated in one stream."),
    "P21": dict(jobs=[PAIR("bilinear")], note="Five curves: pairings of directed multiples of the generators in all representations, as discrete logarithms in the specification."),
    "P22": dict(jobs=[M("PairingGen"), GEN("PairingGen", "PairingProg", 24, 18), PAIR("ways"), PAIR("programs", "@TMP/PairingProg")], note="Interleavings of precomputation, loops, quotients and storage: PairingGen is model-checked, its behaviours are executed by the library for every curve and the traces validated."),
    "P23": dict(jobs=[PAIR("final")], note="One exponent per curve, stated in the specification, checked to be a multiple of the cofactor prime to the order; final exponentiations of random, subfield and unitary elements against it."),
    "P24": dict(jobs=[T("h_sample", "T_Sample", args=["fields"], parts=[("-O1",)], name="h_sample:fields"), T("h_sample", "T_Sample", args=["hash"], parts=[("-O1",)], name="h_sample:hash"),
                      T("h_sample", "T_Curve", args=["points"], parts=[("-O1",)], name="h_sample:points"), M("HashTest")],
                note="27 field types, integers and ten groups: samples drawn from the system's device, from a fixed sequence and from chosen words on the edge of the range; coverage of bits and eighths of the range is a state of SampleMachine. Hash-derived elements of ten prime fields against SHA-512 written out in TLA+."),
    "P25": dict(jobs=[GEN("InitGen", "InitRandom", 40, 16), M("InitGen", cfg="InitShort", collect="InitShort"), M("InitGen", cfg="InitPerm", collect="InitPerm"),
                      T("h_init", "T_Init", parts=[("-O1",)], args=["@TMP/InitShort", "@TMP/InitPerm", "@TMP/InitRandom"])],
                note="Every sequence of up to three initializations of the five curves, every permutation of all five and random longer histories with held values, written by TLC from InitMachine and each executed in a fresh process; all published constants are compared with those of a process that initializes the one curve only."),
    "P26": dict(jobs=[M("ProfGen", cfg="ProfShort", collect="ProfShort"), GEN("ProfGen", "ProfRandom", 60, 42),
                      T("h_prof", "T_Prof", parts=[("-O1",)], args=["@TMP/ProfShort", "@TMP/ProfRandom"]),
                      T("h_prof", "T_Prof", parts=[("-O1",)], args=["@TMP/ProfRandom"], config=GOMP, name="h_prof multi-core"),
                      T("h_prof", "T_Prof", parts=[("-O1",)], args=["@TMP/ProfRandom"], config=dict(NDEBUG=False), name="h_prof with assertions")],
                note="Every history of four steps and random ones of forty over three block names, the two switches, clearing and reports, written by TLC from ProfMachine and executed under a controlled clock with captured output; and the library's own blocks around every pairing and multi-exponentiation."),
    "P28": dict(jobs=[M("ParGen", cfg="ParModel"), M("ParGen", cfg="ParMutant", refuted="deadlock", name="ParMutant"), GEN("ParGen", "ParRandom", 60, 60),
                      T("h_par", "T_Par", parts=[("-O1",)], args=["scheduled", "@TMP/ParRandom"], config=VOMP, name="h_par:scheduled"),
                      T("h_par", "T_Par", parts=[("-O1",)], args=["free"], config=dict(RACES, _opt="-O1"), name="h_par:race detector"),
                      T("h_par", "T_Par", parts=[("-O1",)], args=["free"], config=GOMP, name="h_par:libgomp"),
                      T("h_parc", "T_Curve", parts=[("-O1",)], config=dict(RACES, _opt="-O1"), name="h_parc:race detector"),
                      T("h_parc", "T_Curve", parts=[("-O1",)], config=dict(RACES, USE_MIXED_ADDITION=True, _opt="-O1"), name="h_parc:race detector, mixed addition"),
                      T("h_parc", "T_Curve", parts=[("-O1",)], config=GOMP, name="h_parc:libgomp")],
                note="ParGen, model-checked for every interleaving of small teams, writes schedules; the library's parallel regions run under a scheduler that follows them at every access to a group element or scalar, and ParMachine (vector clocks) accepts the recorded accesses only if no two conflict unordered. Further under a race detector and under the shipped OpenMP runtime, 1 to 9 threads. Schedules are sampled, not all of them, beyond the small model."),
    "P27": dict(jobs=[T("h_util", "T_Util", args=["util"]), T("h_util", "T_Util", args=["bits"]), T("h_util", "T_Util", args=["util"], config=dict(DEBUG=True, NDEBUG=False), name="h_util:util debugging")], note="Utilities over directed and exhaustive small domains."),
    "P30": dict(jobs=[T("h_print", "T_Print", parts=[("-O1",)]), T("h_print", "T_Print", parts=[("-O1",)], config=dict(PROFILE_OP_COUNTS=True, NDEBUG=False, DEBUG=True), name="h_print debugging")],
                note="All field types, integers of seven widths and the ten groups in all representations: standard output is captured, its numbers read back and compared with the coefficients, and for points with affine coordinates computed in the specification."),
    "P31": dict(jobs=[M("CountGen", cfg="CountShort", collect="CountShort"), GEN("CountGen", "CountRandom", 60, 42),
                      T("h_count", "T_Count", parts=[("-O1",)], args=["@TMP/CountShort", "@TMP/CountRandom"], config=dict(PROFILE_OP_COUNTS=True)),
                      T("h_count", "T_Count", parts=[("-O1",)], args=["@TMP/CountRandom"], config=dict(PROFILE_OP_COUNTS=True, USE_ASM=False, _hw=False), name="h_count portable")],
                note="Counter by counter: operations in every form on all 27 field types and ten groups. Block by block: every history of four steps and random ones of forty over entering, leaving, work of twelve kinds, clearing, the two switches and reports, written by TLC from CountMachine and executed; with and without assembly."),
    "P32": dict(jobs=[T("h_double", "T_Double", parts=[("-O1",)]), T("h_double", "T_Double", parts=[("-O2",)], config=dict(PROFILE_OP_COUNTS=True), name="h_double counting")],
                note="Random programs over four registers of floating-point complex numbers, judged in exact dyadic arithmetic: results within a stated distance of the exact one, equal to it for small integers; comparisons away from the tolerance's edge; roots of unity up to 2^20."),
    "P29": dict(jobs=[M("ConfModel"), SAME("h_p01")]
                + [SAME("h_field", m, parts=parts(7), which=(0, 1, 2, 6)) for m in ("arith", "forms", "inv", "sqrt", "frob", "cyc", "bin")]
                + [SAME("h_util", m) for m in ("root", "bigint", "util")]
                + [SAME("h_curve", m, parts=[("-O1",)]) for m in ("law", "mul")]
                + [SAME("h_expc", m, parts=[("-O1",)]) for m in ("wnaf", "msm", "fixed", "batch")]
                + [SAME("h_expz", m, parts=[("-O1",)], which=(0, 1, 2, 4, 6)) for m in ("wnaf", "msm", "fixed")]
                + [SAME("h_pairing", m, parts=[("-O1",)]) for m in ("bilinear", "ways", "final")]
                + [T(h, "T_Stream", parts=STREAM if h == "h_stream" else POINTS, config=dict(BUILDS[i][1]), name="%s: %s" % (h, BUILDS[i][0])) for h in ("h_stream", "h_points") for i in (1, 3, 4, 6)],
                parallel=8, tlc_parallel=2,
                note="Seven builds that between them set every documented option both ways (assembly, debugging checks, low memory, multi-core, binary output, Montgomery words, compression, operation counts, mixed addition, aggressive optimization): the recordings of 24 drivers over all fields, groups and pairings have to be the same, value by value (ConfMachine); four of the builds read back their own streams. The default build's values are those P01 to P24 check against the specification. Not all 2^9 combinations."),
    "P33": dict(jobs=[GEN("ProfGen", "ProfRandom", 30, 42), GEN("InitGen", "InitRandom", 12, 16), GEN("CountGen", "CountRandom", 30, 42), GEN("PairingGen", "PairingProg", 12, 18),
                      SAME("h_prof", "@TMP/ProfRandom", parts=[("-O1",)], builds=CHECKED, which=(0, 1, 2)), SAME("h_init", "@TMP/InitRandom", parts=[("-O1",)], builds=CHECKED, which=(0, 1, 2)),
                      SAME("h_pairing", "programs", "@TMP/PairingProg", parts=[("-O1",)], builds=CHECKED, which=(0, 1, 2)),
                      SAME("h_count", "@TMP/CountRandom", parts=[("-O1",)], builds=[(n, dict(c, PROFILE_OP_COUNTS=True)) for n, c in CHECKED[:3]])]
                + [SAME("h_p01", builds=CHECKED)]
                + [SAME("h_field", m, parts=parts(7), builds=CHECKED, which=(0, 1, 2)) for m in ("arith", "forms", "inv", "sqrt", "frob", "cyc", "bin")]
                + [SAME("h_util", m, builds=CHECKED) for m in ("root", "bigint", "pack", "util", "bits")]
                + [SAME("h_curve", m, parts=[("-O1",)], builds=CHECKED, which=(0, 1, 2)) for m in ("law", "mul")]
                + [SAME(h, m, parts=[("-O1",)], builds=CHECKED) for h in ("h_expz", "h_expc") for m in ("wnaf", "msm", "fixed", "batch")]
                + [SAME("h_pairing", m, parts=[("-O1",)], builds=CHECKED, which=(0, 1, 2)) for m in ("bilinear", "ways", "final")]
                + [SAME(h, m, parts=STREAM if h == "h_stream" else POINTS if h == "h_points" else [("-O1",)], builds=CHECKED, which=(0, 1, 2)) for h, m in (("h_stream", None), ("h_points", None), ("h_print", None), ("h_double", None), ("h_params", None), ("h_sample", "fields"), ("h_sample", "hash"), ("h_sample", "points"))],
                parallel=8, tlc_parallel=2,
                note="The drivers of P01 to P27 and P30 to P32 recorded by four builds - as shipped, with memory and arithmetic checked (address and undefined-behaviour sanitizers, checked containers), with unset memory filled, and portable with checks: every build has to report the same steps to its end (ConfMachine); an abnormal end is accepted by no action. Histories of the generators ProfGen, InitGen, CountGen and PairingGen included."),
    "P34": dict(jobs=CONC("h_p01", "T_Field", both=True) + CONC("h_curve", "T_Curve", "law", parts=[("-O1",)], both=True) + CONC("h_curve", "T_Curve", "mul", parts=[("-O1",)])
                + sum([CONC("h_expc", "T_Curve", m, parts=[("-O1",)]) for m in ("wnaf", "msm", "fixed", "batch")], [])
                + sum([CONC("h_field", "T_Field", m, parts=parts(7)) for m in ("forms", "inv", "sqrt", "frob", "cyc", "bin")], [])
                + sum([CONC("h_util", "T_Util", m) for m in ("root", "bigint", "pack", "util", "bits")], [])
                + CONC("h_double", "T_Double", parts=[("-O1",)]) + CONC("h_sample", "T_Sample", "hash", parts=[("-O1",)])
                + sum([CONC("h_pairing", "T_Pairing", m, parts=[("-O1",)], both=True) for m in ("bilinear", "ways", "final")], [])
                + CONC("h_stream", "T_Stream", parts=STREAM) + CONC("h_points", "T_Stream", parts=POINTS),
                note="The drivers of P01 to P24 with every part queued twice and run by eight threads at once; the recording of each thread has to be a behaviour of the sequential machine (the product of independent machines restricted to one of them), under a race detector and at full speed. Schedules are those the system gives; races are found from the order of synchronizations, not only when they strike."),
}

NA = {}
