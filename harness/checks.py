"""What each property's check runs."""
import os
import core
from core import run_parallel

ARRAY_MIX = {
    "C01": dict(bin=10, scal=4, un=1, index=1, transpose=1, red=1),
    "C02": dict(index=9, mask=4, take=2, transpose=1, bin=1),
    "C03": dict(transpose=2, reorder=2, t=2, squeeze=3, add_dim=2, replace=2, align=2, expand=2, fullcplx=1, tail=2, norep=2, mkmat=1, index=1),
    "C04": dict(red=10, cum=4, transpose=1, index=1, bin=1),
}
ARRAY_MC = {"C01": ["bin", "transpose", "add_dim"], "C02": ["index", "transpose", "un"],
            "C03": ["transpose", "squeeze", "add_dim", "t", "norep", "tail", "expand", "reorder"],
            "C04": ["red", "cum", "transpose"]}


def mc_array_cfg(ops, depth, hist):
    return "\n".join(["CONSTANTS", "  Depth = %d" % depth, "  HistOn = %s" % ("TRUE" if hist else "FALSE"),
                      "  OpSet = {%s}" % ",".join('"%s"' % o for o in ops), "SPECIFICATION Spec", "INVARIANT InvShaped",
                      "INVARIANT Emit" if hist else "CONSTRAINT Bound", "CHECK_DEADLOCK FALSE", ""])


def array_check(c):
    import arrays
    prop = c.prop
    quick = c.tier == "quick"
    c.model_check("MCArray", mc_array_cfg(ARRAY_MC[prop], 1 if quick else 2, False))
    bs = c.behaviours("MCArray", mc_array_cfg(ARRAY_MC[prop], 3, True), 20 if quick else 200, 3)
    traces = run_parallel(arrays.replay_behaviour, bs)
    n = 800 if quick else 6000
    jobs = [("%s/%d/%d" % (prop, c.seed, k), ARRAY_MIX[prop], 12, k % 4 == 0 and prop == "C01") for k in range(n)]
    traces += run_parallel(arrays.random_trace, jobs)
    c.validate("ArrayTrace", traces)
    c.assumptions.append("numbers are compared as exact rationals modulo 46337 (ints below 2^20 exactly)")


def simple_cfg(consts, hist, inv=()):
    return "\n".join(["CONSTANTS"] + ["  %s = %s" % (k, v) for k, v in consts.items()] + ["  HistOn = %s" % ("TRUE" if hist else "FALSE"), "SPECIFICATION Spec"] +
                     ["INVARIANT " + i for i in inv] + (["INVARIANT Emit"] if hist else []) + ["CHECK_DEADLOCK FALSE", ""])


def alias_check(c):
    import alias
    quick = c.tier == "quick"
    c.model_check("MCAlias", simple_cfg(dict(Depth=2 if quick else 3), False))
    bs = c.behaviours("MCAlias", simple_cfg(dict(Depth=5), True), 60 if quick else 600, 5)
    traces = run_parallel(alias.replay_behaviour, bs)
    traces += run_parallel(alias.random_trace, [("C05/%d/%d" % (c.seed, k), 20) for k in range(500 if quick else 5000)])
    c.validate("AliasTrace", traces)
    c.assumptions.append("values are integers below 2^20 in int64/int32/float64 arrays")


CHECKS = {p: array_check for p in ARRAY_MIX}
CHECKS["C05"] = alias_check


def dims_check(c):
    import dims
    quick = c.tier == "quick"
    c.model_check("MCDims", simple_cfg(dict(Depth=1 if quick else 2), False, ["InvLaws"]))
    bs = c.behaviours("MCDims", simple_cfg(dict(Depth=6), True), 60 if quick else 500, 6)
    traces = run_parallel(dims.replay_behaviour, bs)
    traces += run_parallel(dims.random_trace, [("C06/%d/%d" % (c.seed, k), 25) for k in range(1000 if quick else 12000)])
    c.validate("DimTrace", traces)
    c.assumptions.append("coordinate data are integers, multiples of 1/8 and text")


CHECKS["C06"] = dims_check


def block_check(c):
    import blocks
    quick = c.tier == "quick"
    mode = "edit" if c.prop == "C07" else "xform"
    c.model_check("MCBlocks", simple_cfg(dict(Depth=2 if quick else 3, Mode='"%s"' % mode), False, ["InvCoherent"]))
    bs = c.behaviours("MCBlocks", simple_cfg(dict(Depth=4 if mode == "edit" else 3, Mode='"%s"' % mode), True), 20 if quick else 150, 4)
    traces = run_parallel(blocks.replay_behaviour, bs)
    jobs = [("%s/%d/%d" % (c.prop, c.seed, k), mode, 25 if mode == "edit" else 18) for k in range(1100 if quick else 6000)]
    traces += run_parallel(blocks.random_trace, jobs)
    c.validate("BlockTrace", traces)
    c.assumptions.append("numbers are compared as exact rationals modulo 46337 (ints below 2^20 exactly)")


CHECKS["C07"] = CHECKS["C08"] = block_check


def merge_check(c):
    import merging
    quick = c.tier == "quick"
    inv = ["InvFound", "InvGrid"]
    c.model_check("MCMerge", simple_cfg(dict(MaxBlocks=3 if quick else 4), False, inv))
    bs = c.behaviours("MCMerge", simple_cfg(dict(MaxBlocks=6), True), 40 if quick else 400, 6)
    traces = run_parallel(merging.replay_behaviour, bs)
    traces += run_parallel(merging.random_trace, [("C09/%d/%d" % (c.seed, k), 10) for k in range(360 if quick else 3000)])
    c.validate("MergeTrace", traces)
    c.assumptions.append("blocks of one merge share the labels and lengths of their common sweeps; numbers compared modulo 46337")


CHECKS["C09"] = merge_check


def nets_check(c):
    import nets
    quick = c.tier == "quick"
    n = 560 if quick else 6000
    depth = 2 if quick or c.prop == "C12" else 3
    inv = dict(C10=["InvSame"], C11=["InvSame", "InvChain", "InvThrough", "InvProduct"], C12=["InvSame", "InvThermal"])[c.prop]
    c.model_check("MCNets", simple_cfg(dict(Depth=depth, Few="TRUE"), False, inv))
    bs = c.behaviours("MCNets", simple_cfg(dict(Depth=4, Few="FALSE"), True), 60 if quick else 600, 4)
    traces = run_parallel(nets.replay_behaviour, bs)
    traces += run_parallel(nets.random_trace, [("%s/%d/%d" % (c.prop, c.seed, k), c.prop, 22) for k in range(n)])
    c.validate("NetTrace", traces)
    c.assumptions.append("parameters are Gaussian rationals with denominators below 40000 (compared modulo 46337); reference impedances are real and equal at all ports; matrix dimensions are the last two")


CHECKS["C10"] = CHECKS["C11"] = CHECKS["C12"] = nets_check


def batches(l, n):
    return [l[k:k + n] for k in range(0, len(l), n)]


def touch_check(c):
    import touch
    quick = c.tier == "quick"
    inv = ["InvTruth", "InvCertain", "InvBroken"]
    c.model_check("MCTouch", simple_cfg(dict(MaxRec=2 if quick else 4, MaxNoise=2), False, inv))
    bs = c.behaviours("MCTouch", simple_cfg(dict(MaxRec=4, MaxNoise=3), True), 100 if quick else 1000, 8)
    traces = run_parallel(touch.replay_behaviours, batches(bs, 20))
    traces += run_parallel(touch.random_trace, [("C13/%d/%d" % (c.seed, k), 10) for k in range(700 if quick else 4000)])
    c.validate("TouchTrace", traces)
    c.assumptions.append("numbers in files are decimals of up to 12 digits (compared modulo 46337), angles are those with rational cosine and sine, decibels those with rational magnitude")


CHECKS["C13"] = touch_check


def si_check(c):
    import si
    quick = c.tier == "quick"
    c.model_check("MCSI", simple_cfg(dict(MaxDigits=3 if quick else 5), False, ["InvRead", "InvNone", "InvWrite"]))
    bs = c.behaviours("MCSI", simple_cfg(dict(MaxDigits=6), True), 300 if quick else 3000, 9)
    traces = run_parallel(si.replay_behaviours, batches(bs, 50))
    traces += run_parallel(si.constants, [0])
    traces += run_parallel(si.random_trace, [("C20/%d/%d" % (c.seed, k), 60) for k in range(240 if quick else 3000)])
    c.validate("SITrace", traces)
    c.assumptions.append("numbers are decimals of up to 11 digits; values written are not half way between two roundings")


CHECKS["C20"] = si_check


def col_check(c):
    import columns
    quick = c.tier == "quick"
    c.model_check("MCCols", simple_cfg(dict(MaxCols=4 if quick else 6), False, ["InvLossless", "InvStable", "InvPlain", "InvOrder"]))
    bs = c.behaviours("MCCols", simple_cfg(dict(MaxCols=7), True), 60 if quick else 800, 7)
    traces = run_parallel(columns.replay_behaviours, batches(bs, 20))
    traces += run_parallel(columns.random_trace, [("C17/%d/%d" % (c.seed, k), 15) for k in range(320 if quick else 4000)])
    c.validate("ColTrace", traces)
    c.assumptions.append("numbers are decimals of up to 12 digits, angles those with rational cosine and sine")


CHECKS["C17"] = col_check


def citi_check(c):
    import citi
    quick = c.tier == "quick"
    inv = ["InvMeant", "InvComments", "InvPrefix", "InvNeeded", "InvCount", "InvMatrix"]
    c.model_check("MCCiti", simple_cfg(dict(MaxSweeps=2, MaxData=2 if quick else 3, MaxLen=2 if quick else 3), False, inv))
    bs = c.behaviours("MCCiti", simple_cfg(dict(MaxSweeps=3, MaxData=4, MaxLen=3), True), 80 if quick else 800, 2)
    traces = run_parallel(citi.replay_behaviours, batches(bs, 20))
    traces += run_parallel(citi.random_trace, [("C14/%d/%d" % (c.seed, k), 12) for k in range(600 if quick else 4000)])
    c.validate("CitiTrace", traces)
    c.assumptions.append("numbers are decimals of up to 12 digits, angles those with rational cosine and sine; one package per file; declared lengths of sweeps agree with their lists")


CHECKS["C14"] = citi_check


def tables_check(c):
    import sp
    import mdif
    quick = c.tier == "quick"
    c.model_check("MCSp", simple_cfg(dict(MaxTables=3 if quick else 4, MaxRows=2), False, ["InvFound", "InvAccepted", "InvList", "InvSeparate", "InvRagged", "InvHeader"]))
    c.model_check("MCMdif", simple_cfg(dict(MaxPackets=2 if quick else 4, MaxRows=2), False, ["InvMeant", "InvNeeded", "InvPrefix"]))
    bs = c.behaviours("MCSp", simple_cfg(dict(MaxTables=4, MaxRows=3), True), 60 if quick else 800, 4)
    bm = c.behaviours("MCMdif", simple_cfg(dict(MaxPackets=5, MaxRows=3), True), 60 if quick else 800, 5)
    traces = run_parallel(sp.replay_behaviours, batches(bs, 20))
    traces += run_parallel(sp.random_trace, [("C15/%d/%d" % (c.seed, k), 12) for k in range(280 if quick else 4000)])
    c.validate("SpTrace", traces)
    traces = run_parallel(mdif.replay_behaviours, batches(bm, 20))
    traces += run_parallel(mdif.random_trace, [("C15m/%d/%d" % (c.seed, k), 12) for k in range(280 if quick else 4000)])
    c.validate("MdifTrace", traces)
    c.assumptions.append("numbers are decimals of up to 12 digits; the blocks of one MDIF name share their sweep labels; parameters and properties keep their type from block to block")


CHECKS["C15"] = tables_check


def hdf_check(c):
    import hdf
    quick = c.tier == "quick"
    c.model_check("MCHdf", simple_cfg(dict(MaxOps=4 if quick else 5, MaxPool=5 if quick else 7), False, ["InvStack", "InvKinds", "InvClosed"]))
    bs = c.behaviours("MCHdf", simple_cfg(dict(MaxOps=7, MaxPool=7), True), 60 if quick else 800, 7, cap=3)
    traces = run_parallel(hdf.replay_behaviour, bs)
    traces += run_parallel(hdf.random_trace, [("C16/%d/%d" % (c.seed, k), 12) for k in range(420 if quick else 5000)])
    c.validate("HdfTrace", traces)
    c.assumptions.append("values are opaque; appended blocks carry the labels and units of the stored ones and no variables the file lacks")


CHECKS["C16"] = hdf_check


def reader_check(c):
    import reader
    quick = c.tier == "quick"
    c.model_check("MCReader", simple_cfg(dict(MaxOps=4 if quick else 5), False, ["InvStored", "InvKept", "InvOne", "InvFresh", "InvFound"]) + "VIEW View\n")
    bs = c.behaviours("MCReader", simple_cfg(dict(MaxOps=10), True), 60 if quick else 800, 10, cap=3)
    traces = run_parallel(reader.replay_behaviour, bs)
    traces += run_parallel(reader.random_trace, [("C18/%d/%d" % (c.seed, k), 25) for k in range(900 if quick else 5000)])
    c.validate("ReaderTrace", traces)
    c.assumptions.append("files read together have one format and one sweep; HDF5 files are named one at a time; names hold no pattern characters")


CHECKS["C18"] = reader_check


def config_check(c):
    import config_
    quick = c.tier == "quick"
    c.model_check("MCConfig", simple_cfg(dict(MaxOps=3 if quick else 4, MaxDepth=2), False, ["InvLookup", "InvSet", "InvKeys"]) + "VIEW View\n")
    bs = c.behaviours("MCConfig", simple_cfg(dict(MaxOps=8, MaxDepth=3), True), 40 if quick else 600, 8, cap=2)
    traces = run_parallel(config_.replay_behaviour, bs)
    traces += run_parallel(config_.random_trace, [("C19/%d/%d" % (c.seed, k), 20) for k in range(1200 if quick else 6000)])
    c.validate("ConfigTrace", traces)
    c.assumptions.append("keys are texts; a section is at one place only; the current day does not change by more than five minutes during the run")


CHECKS["C19"] = config_check


def helpers_check(c):
    import mathh
    quick = c.tier == "quick"
    c.model_check("MCHelpers", simple_cfg(dict(MaxLen=3 if quick else 4), False, ["InvUnwrap", "InvUnique", "InvBranch", "InvDelay", "InvWindow", "InvConst", "InvInterp"]))
    bs = c.behaviours("MCHelpers", simple_cfg(dict(MaxLen=9), True), 40 if quick else 600, 10, cap=3)
    traces = run_parallel(mathh.replay_behaviour, bs)
    traces += run_parallel(mathh.random_trace, [("C21/%d/%d" % (c.seed, k), 20) for k in range(1000 if quick else 6000)])
    c.validate("HelpersTrace", traces)
    c.assumptions.append("sequences run along the first axis for phases; phases on the cut of a branch or half a turn apart may go either way")


CHECKS["C21"] = helpers_check


def plots_check(c):
    os.environ["MPLCONFIGDIR"] = os.path.join(c.scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    import plots
    import matplotlib.font_manager
    quick = c.tier == "quick"
    c.model_check("MCPlots", simple_cfg(dict(MaxOps=3 if quick else 4), False, ["InvTicks", "InvOne"]) + "VIEW View\n")
    bs = c.behaviours("MCPlots", simple_cfg(dict(MaxOps=8), True), 40 if quick else 400, 8, cap=2)
    traces = run_parallel(plots.replay_behaviour, bs)
    traces += run_parallel(plots.random_trace, [("C22/%d/%d" % (c.seed, k), 12) for k in range(700 if quick else 6000)])
    c.validate("PlotsTrace", traces)
    c.assumptions.append("matplotlib as installed, Agg canvas; what is drawn is read back from the line objects, tick labels and axis labels")


CHECKS["C22"] = plots_check
