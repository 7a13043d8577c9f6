def T(main, srcs=(), flags=(), libs=("-ltbb",), extra=(), subst=(), pre=(), asm=False):
    return dict(pre=list(pre), subst=list(subst), src=[(main, True, list(extra))] + [(s, True, []) if isinstance(s, str) else s for s in srcs], flags=list(flags), libs=list(libs), asm=asm)


OQ = ["@OptiQL/%s.cpp" % f for f in ("Tree", "N", "N4", "N16", "N48", "N256")]
OQF = ["-I@OptiQL", "-DOMCS_LOCK", "-march=native"]
TARGETS = {
    "art": T("art.cpp", ["@ARTOLC/Tree.cpp"], ["-I@ARTOLC"]),
    "optiql": T("optiql.cpp", OQ, OQF + ["-DIS_CONTEXTFUL"], ("-ltbb", "-Wl,-z,muldefs")),
}
# the same sources with smaller collection thresholds (unchanged where the constants are not found)
TARGETS["arts"] = T("art.cpp", ["%B/artolc/Tree.cpp"], ["-I%B/artolc", "-DSMALL_GC"], pre=[
    "mkdir -p %B/artolc; cp -r @ARTOLC/. %B/artolc/; sed -i 's/epoche{256}/epoche{4}/' %B/artolc/Tree.h; sed -i 's/(64 - 1)/(2 - 1)/' %B/artolc/Epoche.cpp"])
BT = ["-march=native"]
TARGETS["btolc"] = T("btolc.cpp", (), BT + ['-DHDR="%s"' % "@BTreeOLC/BTreeOLC.h", "-DKPAD=392", "-DVPAD=384"])
TARGETS["btolcc"] = T("btolc.cpp", (), BT + ['-DHDR="%s"' % "@BTreeOLC/BTreeOLC_child_layout.h", "-DKPAD=392", "-DVPAD=384"])
TARGETS["blink"] = T("blink.cpp", (), BT + ["-I@BLinkTree"])
TARGETS["hot"] = T("hot.cpp", (), ["-I@HOT", "-I@HOT/include", "-march=native"], ("-ltbb", "-lnuma"))
TARGETS["lock"] = T("lock.cpp", [("lock_cfg.cpp", True, ["-DCFG=%d" % i]) for i in range(13)], ["-I@OptiQL", "-march=native"])
TARGETS["mass"] = T("mass.cpp", ["@MassTree/kvthread.cc", "@MassTree/compiler.cc", ("@MassTree/string.cc", True, []), "@MassTree/straccum.cc", "@MassTree/str.cc"], ["-I@MassTree", "-include", "@MassTree/config.h", "-DENABLE_ASSERTIONS=1", "-DENABLE_INVARIANTS=0", "-DENABLE_PRECONDITIONS=0"], asm=True)
MR = dict(a="ARRAY", v="ARRAY_VER", s="STR", b="BAG")
for _k, _v in MR.items():
    TARGETS["mrow" + _k] = T("massrow.cpp", ["@MassTree/%s.cc" % f for f in ("kvthread", "compiler", "value_array", "value_versioned_array")] + [("@MassTree/%s.cc" % f, True, []) for f in ("string", "json", "straccum", "str")],
                             TARGETS["mass"]["flags"] + ["-DMASSTREE_ROW_TYPE_%s=1" % _v, "-include", "%H/massrow_pre.h"], asm=True)
TARGETS["mlog"] = T("masslog.cpp", ["@MassTree/%s.cc" % f for f in ("kvthread", "compiler", "checkpoint", "query_masstree", "value_array")] + [("@MassTree/%s.cc" % f, True, []) for f in ("string", "json", "straccum", "str", "msgpack", "file", "kvio", "misc", "kvrandom")],
                    TARGETS["mass"]["flags"], ("-ltbb",) + tuple("-Wl,--defsym=Clp_%s=abort" % f for f in ("AddType", "DeleteParser", "NewParser", "Next", "OptionError")), asm=True)
WR = ["-Wl,--wrap=slab_%s" % f for f in ("create", "reserve_unsafe", "alloc_unsafe", "alloc_safe", "free_unsafe", "free_safe", "free_all", "destroy")]
TARGETS["wh"] = T("wormhole.cpp", ["@wormhole/wh.c", "@wormhole/lib.c", "@wormhole/kv.c"], ["-I@wormhole", "-march=native", "-DKPN=128"], WR + ["-lm", "-lnuma"])
TARGETS["whs"] = T("wormhole.cpp", ["~@wormhole/wh.c", "@wormhole/lib.c", "@wormhole/kv.c"], ["-I@wormhole", "-march=native", "-DKPN=32"], WR + ["-lm", "-lnuma"],
                   subst=[(r"^#define WH_KPN \(.*?\)\)", "#define WH_KPN ((32u))"), (r"^#define WH_HMAPINIT_SIZE \(.*?\)\)\)?", "#define WH_HMAPINIT_SIZE ((1u << 3))")])
TARGETS["whu"] = dict(TARGETS["wh"], src=[("whu.cpp", True, [])] + TARGETS["wh"]["src"][1:])
TARGETS["whus"] = dict(TARGETS["whs"], src=[("whu.cpp", True, [])] + TARGETS["whs"]["src"][1:], flags=TARGETS["whs"]["flags"][:])
TARGETS["whlib"] = T("whlib.cpp", ["@wormhole/lib.c"], ["-I@wormhole", "-march=native"], ["-lm", "-lnuma"])
TARGETS["stx"] = T("stx.cpp", [("stx.cpp", True, ["-DPART=%d" % i]) for i in range(4)] + ["@STX/tlx/tlx/die/core.cpp"], ["-I@STX/tlx", "-O1", "-fno-access-control"], ())
TARGETS["gbt"] = T("gbt.cpp", [("gbt.cpp", True, ["-DPART=%d" % i]) for i in range(4)], ["-I@GoogleBTree", "-O1"], ())
TARGETS["stxobj"] = T("stxobj.cpp", (), ["-I@STX/tlx", "-O1"], ())
TARGETS["sync"] = T("sync.cpp", ["@STX/tlx/tlx/thread_pool.cpp", "@STX/tlx/tlx/die/core.cpp"], ["-I@STX/tlx"], ())
def FAST(v):   # v: avx512 or portable page search
    d = "%B/" + v
    return T("fast.cpp", (), (), (d + "/libfast_ext.a", d + "/liblookup.a"), pre=[
        "mkdir -p %s; cd %s; gcc -O2 -g1 -march=native -DAVX512=%d -DVANILLA=%d -c @FAST/fast64/c/lookup.c -o lookup.o; rm -f liblookup.a; ar rcs liblookup.a lookup.o; "
        "rustc --edition 2018 -O -C debug-assertions=on -A warnings --crate-type rlib --crate-name num %%H/fast/num.rs; "
        "rustc --edition 2018 -O -C debug-assertions=on -A warnings --crate-type rlib --crate-name fast64 --extern num=libnum.rlib -L native=. @FAST/fast64/src/lib.rs; "
        "rustc --edition 2018 -O -A warnings --crate-type staticlib --crate-name fast_ext --extern fast64=libfast64.rlib -L . %%H/fast/ext.rs" % (d, d, v == "avx512", v == "vanilla")])


AVX512 = "avx512f" in open("/proc/cpuinfo").read()
TARGETS["fast"] = FAST("avx512" if AVX512 else "vanilla")
TARGETS["fastv"] = FAST("vanilla")
CM = "ConcMapTrace"
PROPS = {
    "A01": dict(stages=[dict(drv="art", kind="point", spec=CM), dict(drv="art", kind="reclaim", spec=CM, secs=4, cap=4000, salt=2)]),
    "A02": dict(stages=[dict(drv="art", kind="range", spec=CM)]),
    "A03": dict(stages=[dict(drv="art", kind="reclaim", spec=CM), dict(drv="arts", kind="reclaim", spec=CM, secs=12)]),
    "B03": dict(stages=[dict(drv="optiql", kind="point", spec=CM)]),
    "B04": dict(stages=[dict(drv="optiql", kind="range", spec=CM)]),
    "C01": dict(stages=[dict(drv="btolc", kind="point", spec=CM), dict(drv="btolcc", kind="point", spec=CM, secs=6)]),
    "C02": dict(stages=[dict(drv="btolc", kind="scan", spec=CM), dict(drv="btolcc", kind="scan", spec=CM, secs=6)]),
    "D01": dict(stages=[dict(drv="blink", kind="point", spec=CM)]),
    "D02": dict(stages=[dict(drv="blink", kind="scan", spec="SnapMapTrace")]),
    "E01": dict(stages=[dict(drv="hot", kind="point", spec=CM), dict(drv="hot", kind="reclaim", spec=CM, secs=5, cap=4000, salt=2)]),
    "E02": dict(stages=[dict(drv="hot", kind="scan", spec=CM), dict(drv="hot", kind="reclaim", spec=CM, secs=4, cap=4000, salt=2)]),
    "E03": dict(stages=[dict(drv="hot", kind="reclaim", spec=CM)]),
    "B01": dict(stages=[dict(drv="lock", kind="opt", spec="LockTrace")]),
    "B02": dict(stages=[dict(drv="lock", kind="rw", spec="LockTrace", secs=25)]),
    "F01": dict(stages=[dict(drv="mass", kind="point", spec=CM), dict(drv="mass", kind="reclaim", spec=CM, secs=6, cap=4000, salt=2)]),
    "F02": dict(stages=[dict(drv="mass", kind="scan", spec=CM), dict(drv="mass", kind="reclaim", spec=CM, secs=4, cap=4000, salt=2)]),
    "F03": dict(stages=[dict(drv="mass", kind="reclaim", spec=CM)]),
    "F04": dict(stages=[dict(drv="mrow" + d, kind=k, spec=CM, secs=6 if d == "b" else 3, cap=3000 if d == "b" else 1500) for d in "bavs" for k in ("row", "rowgc")]),
    "F05": dict(stages=[dict(drv="mlog", kind="log", spec="DurTrace", secs=20, cap=4000)]),
    "G01": dict(stages=[dict(drv="whs", kind="point", spec=CM, cap=6000), dict(drv="wh", kind="point", spec=CM, secs=3, cap=3000), dict(drv="whs", kind="reclaim", spec=CM, secs=4, cap=3000, salt=2)]),
    "G02": dict(stages=[dict(drv="whs", kind="scan", spec=CM, cap=6000), dict(drv="wh", kind="scan", spec=CM, secs=3, cap=3000)]),
    "G03": dict(stages=[dict(drv="whs", kind="reclaim", spec=CM), dict(drv="whlib", kind="qsbr", spec="LockTrace", secs=5)]),
    "G04": dict(stages=[dict(drv="whlib", kind="lock", spec="LockTrace", secs=6, cap=5000), dict(drv="whlib", kind="slab", spec="LockTrace", secs=6, cap=5000)]),
    "H01": dict(stages=[dict(drv="stx", kind="ord", spec="SeqTrace", cap=6000, args=dict(per=1))]),
    "H02": dict(stages=[dict(drv="stxobj", kind="pq", spec="SeqTrace", cap=4000, args=dict(per=1)), dict(drv="stxobj", kind="loser", spec="SeqTrace", secs=4, cap=2000, args=dict(per=1))]),
    "H03": dict(stages=[dict(drv="stxobj", kind=k, spec="SeqTrace", secs=4, cap=2000, args=dict(per=1)) for k in ("lru", "ring", "splay")]),
    "G05": dict(stages=[dict(drv="whus", kind="seq", spec="SeqTrace", cap=4000, args=dict(per=1)), dict(drv="whu", kind="seq", spec="SeqTrace", secs=4, cap=2000, args=dict(per=1))]),
    "I01": dict(stages=[dict(drv="gbt", kind="ord", spec="SeqTrace", cap=6000, args=dict(per=1))]),
    "H04": dict(stages=[dict(drv="sync", kind=k, spec="SyncTrace", secs=6, cap=2400) for k in ("pool", "sem", "barrier")]),
    "H05": dict(stages=[dict(drv="sync", kind="refs", spec="SyncTrace", secs=5, cap=2400), dict(drv="sync", kind="refs1", spec="SyncTrace", secs=4, cap=2400, args=dict(per=1))]),
    "J01": dict(stages=[dict(drv="fast", kind="x", spec="SeqTrace", secs=6, cap=1600, args=dict(per=1))] + ([dict(drv="fastv", kind="x", spec="SeqTrace", secs=4, cap=1000, salt=1, args=dict(per=1))] if AVX512 else [])),
}

# Design models (spec/design), per property: also: further configurations in every run; deep: larger bounds; bad: variants
# with a mistake, which have to be found
D = lambda mod, bad="", deep="t", also="", deadlock=False: dict(mod=mod, bad=bad.split(), deep=deep.split(), also=also.split(), deadlock=deadlock)
OLC = D("Olc", "noparent late novalid nobump before upgrade")
DESIGN = {
    "A03": [D("ArtEpoch", "le own early keep")],
    "E03": [D("HotEpoch", "norecheck")],
    "F03": [D("MassRcu", "early")],
    "F05": [D("LogEpoch", "latewake swallow nomark")],
    "F01": [D("LeafLink", "early mark walk nolock")],
    "B01": [D("Omcs", "aba nobump open upgrade", "t plaint", "plain", True)],
    "B02": [D("McsRw", "noregister exit unblock", deadlock=True)],
    "G03": [D("Qsbr", "nofence nowait ge null early")],
    "H04": [D("Sema", "one if nolock"), D("Pool", "busy order first fetch", deadlock=True), D("Barrier", "safter slate sstep mafter mnoreset mone msingle", "t mutext", "mutex")],
    "C01": [OLC],
    "D01": [D("BLink", "onestep noright order retry")],
}
