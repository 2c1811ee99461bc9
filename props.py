"""What each check runs: harness, bounds, and the words that go into the evidence."""
CURVE = ["curve.cc", "fq_element_table.cc", "reduction_table.cc"]
def I(u, e, a=None, **k): return dict(u=u, e=e, a=a or {}, **k)
PROPS = {}
_c01 = dict(h="c01_count.cc", src=CURVE)
PROPS["C01"] = dict(
  instances=[I(_c01, "c01_count", dict(p=p, r=r, k=k, size=s), t=t, tier=tier, x=["--inc-timeout", 1000]) for p, r, k, s, t, tier in
    [(3, 1, 1, s, 60, "quick") for s in (3, 4, 5, 6, 7, 8)] + [(3, 1, 2, s, 150, "quick") for s in (4, 5, 6, 7)] + [(5, 1, 1, s, 60, "quick") for s in (4, 5, 6, 7)] +
    [(7, 1, 1, s, 90, "quick") for s in (4, 5, 6, 7)] + [(11, 1, 1, s, 150, "quick") for s in (5, 6)] + [(13, 1, 1, s, 150, "quick") for s in (4, 7)] + [(3, 2, 1, s, 90, "quick") for s in (4, 5, 6)] +
    [(3, 1, 3, s, 1200, "thorough") for s in (4, 5)] + [(5, 1, 2, s, 1200, "thorough") for s in (4, 5)] + [(17, 1, 1, 5, 900, "thorough"), (3, 2, 2, 4, 1200, "thorough"), (3, 3, 1, 4, 1200, "thorough"), (5, 2, 1, 5, 1200, "thorough"), (7, 1, 2, 4, 1500, "thorough"), (11, 1, 1, 8, 900, "thorough"), (7, 1, 1, 9, 900, "thorough")]])
_c02 = dict(h="c02_tables.cc", src=CURVE, replay=["real"])
_c02m = dict(h="c02_tables.cc", src=CURVE, replay=["model"])
PROPS["C02"] = dict(
  instances=[I(_c02, "c02_tables", dict(p=p, r=r), t=60, tier=tier) for p, r, tier in [(3, 1, "quick"), (5, 1, "quick"), (7, 1, "quick"), (13, 1, "quick"), (3, 2, "quick"), (3, 3, "quick"), (5, 2, "quick"), (7, 2, "quick"), (3, 4, "quick"), (3, 5, "quick"), (101, 1, "quick"), (11, 2, "thorough"), (5, 4, "thorough")]] +
    [I(_c02m, "c02_tables", dict(p=p, r=r, flint_conway=0, flint_rand=1, flint_conc=1, flint_draws=d), t=100, tier=tier) for p, r, d, tier in [(3, 1, 4, "quick"), (5, 1, 3, "quick"), (7, 1, 3, "quick"), (3, 2, 3, "quick"), (5, 2, 2, "quick"), (3, 3, 2, "quick"), (11, 1, 3, "quick"), (3, 2, 4, "thorough"), (13, 1, 3, "thorough"), (7, 2, 2, "thorough")]] +
    [I(_c02, "c02_cosets", dict(p=p, r=r, nmax=m), t=60) for p, r, m in [(3, 1, 6), (5, 1, 8), (7, 1, 12), (13, 1, 13), (3, 2, 9), (5, 2, 24), (3, 3, 26), (31, 1, 31)]])
_c03 = dict(h="c03_agree.cc", src=CURVE)
PROPS["C03"] = dict(
  instances=[I(_c03, "c03_agree", dict(p=p, r=r, k=k, size=s, zech=z), t=t, tier=tier, x=["--inc-timeout", 1000]) for z in (0, 1) for p, r, k, s, t, tier in [
    (3, 1, 1, 4, 60, "quick"), (3, 1, 1, 5, 60, "quick"), (3, 1, 1, 6, 60, "quick"), (3, 1, 1, 7, 60, "quick"), (3, 1, 2, 4, 100, "quick"), (3, 1, 2, 5, 150, "quick"), (5, 1, 1, 5, 100, "quick"),
    (7, 1, 1, 4, 90, "quick"), (3, 2, 1, 4, 150, "quick"), (7, 1, 1, 5, 400, "thorough"), (11, 1, 1, 4, 400, "thorough"), (5, 1, 1, 6, 400, "thorough"), (3, 1, 2, 6, 400, "thorough"), (3, 1, 2, 7, 600, "thorough"), (3, 2, 1, 5, 600, "thorough"),
    (5, 1, 2, 4, 1200, "thorough"), (5, 1, 2, 5, 1500, "thorough"), (3, 2, 2, 4, 1500, "thorough"), (13, 1, 1, 5, 900, "thorough"), (3, 1, 3, 4, 1500, "thorough")]])
_c04 = dict(h="c04_blocks.cc", src=["block_iterator.cc"])
PROPS["C04"] = dict(
  instances=[I(_c04, "c04_partition", dict(n=len(k), kinds=sum(3**i*x for i, x in enumerate(k)), size=s, cap=cap, via=via, free=fr), t=t, tier=tier) for via in (0, 1) for k, s, cap, fr, t, tier in [
    ((0,), 12, 64, 1, 90, "quick"), ((1, 0), 4, 64, 1, 100, "quick"), ((0, 0), 5, 64, 0, 60, "quick"), ((0, 0, 0), 3, 64, 0, 60, "quick"), ((0, 0, 0), 4, 64, 0, 400, "thorough"), ((1, 2, 0), 3, 64, 0, 200, "quick"), ((0, 1, 0), 3, 64, 0, 60, "quick"), ((0, 1, 2, 0), 2, 64, 0, 60, "quick"),
    ((0, 0), 4, 64, 1, 400, "thorough"), ((0, 0, 0), 3, 64, 1, 900, "thorough"), ((0, 1, 0), 3, 64, 1, 900, "thorough"), ((0, 1, 2, 0), 2, 64, 1, 900, "thorough"),
    ((1, 1, 0), 3, 64, 0, 400, "thorough"), ((0, 0, 0, 0), 3, 81, 0, 900, "thorough"), ((0, 0, 1, 2), 3, 81, 0, 900, "thorough")]])
_c05 = dict(h="c05_curves.cc", src=CURVE + ["block_iterator.cc", "curve_iterator.cc"])
PROPS["C05"] = dict(
  instances=[I(_c05, "c05_orbits", dict(p=p, r=r, g=g, deg=d, top=top, marked=m), t=t, tier=tier) for p, r, g, d, top, m, t, tier in [
    (3, 1, 1, 3, 3, 0, 60, "quick"), (3, 1, 1, 4, 4, 0, 60, "quick"), (5, 1, 1, 3, 3, 0, 60, "quick"), (5, 1, 1, 4, 3, 0, 60, "quick"), (3, 1, 2, 5, 4, 0, 60, "quick"), (3, 1, 2, 6, 4, 0, 60, "quick"),
    (5, 1, 2, 5, 4, 0, 60, "quick"), (5, 1, 2, 6, 4, 0, 60, "quick"), (7, 1, 1, 3, 3, 0, 60, "quick"), (7, 1, 1, 4, 3, 0, 60, "quick"), (3, 1, 3, 7, 4, 0, 60, "quick"), (3, 1, 3, 8, 4, 0, 60, "quick"), (3, 1, 1, 4, 3, 1, 60, "quick"), (5, 1, 2, 5, 4, 1, 60, "quick"), (3, 2, 1, 3, 3, 0, 100, "quick"), (7, 1, 2, 5, 3, 0, 100, "quick"),
    (7, 1, 2, 6, 5, 0, 400, "thorough"), (7, 1, 3, 7, 4, 0, 150, "quick"), (7, 1, 3, 8, 3, 0, 400, "thorough"), (11, 1, 1, 3, 3, 0, 150, "quick"), (11, 1, 1, 4, 3, 0, 150, "quick"), (11, 1, 2, 5, 4, 0, 900, "thorough"), (13, 1, 1, 3, 3, 0, 400, "thorough"), (13, 1, 1, 4, 3, 0, 400, "thorough"),
    (5, 1, 3, 7, 4, 0, 150, "quick"), (5, 1, 3, 8, 4, 0, 150, "quick"), (3, 1, 4, 9, 4, 0, 150, "quick"), (3, 1, 4, 10, 4, 0, 150, "quick"), (3, 2, 1, 4, 4, 0, 150, "quick"), (3, 2, 2, 5, 3, 0, 100, "quick"), (3, 2, 2, 6, 4, 0, 150, "quick"), (5, 2, 1, 3, 2, 0, 900, "thorough"), (5, 1, 4, 9, 4, 0, 100, "quick"), (5, 1, 4, 10, 4, 0, 100, "quick")]] +
   [I(_c05, "c05_packages", dict(p=p, r=r, g=g, marked=m, package=k), t=60) for p, r, g, m in [(3, 1, 1, 0), (5, 1, 1, 0), (3, 1, 2, 0), (3, 1, 2, 1)] for k in (1, 2, 7, 30)])
_c06 = dict(h="c06_store.cc", src=CURVE + ["block_iterator.cc", "curve_iterator.cc", "store/curve_data.cc", "store/store_data.cc", "store/store.cc", "store/file_store.cc"])
PROPS["C06"] = dict(
  instances=[I(_c06, "c06_register", dict(p=3, n=2, K=2, span=2), t=100), I(_c06, "c06_flush", dict(p=3, n=2, K=1, span=1, t0=1, t1=2), t=100)] +
    [I(_c06, "c06_twist", dict(p=p, r=r, size=s, K=K), t=100) for p, r, s, K in [(3, 1, 4, 2), (3, 1, 5, 2), (5, 1, 4, 1)]] + [I(_c06, "c08_order", dict(n=3, len=1), t=100)])
PROPS["C07"] = dict(
  instances=[I(_c06, "c07_record", dict(n=2, len=2, digits=1), t=100), I(_c06, "c07_record", dict(n=1, len=1, digits=5), t=100), I(_c06, "c07_record", dict(n=1, len=1, digits=10), t=900, tier="thorough"), I(_c06, "c07_store", dict(n=2), t=100), I(_c06, "c07_store", dict(n=1, nr=1, no=1, digits=2, odigits=3, cdigits=5), t=100), I(_c06, "c07_store", dict(n=1, nr=1, no=1, big=1), t=100)])
PROPS["C20"] = dict(
  instances=[I(_c06, "c20_counts", dict(ops=1), t=150), I(_c06, "c20_counts", dict(ops=2, ni=2), t=900, tier="thorough"), I(_c06, "c20_text", {}, t=60), I(_c06, "c20_register", {}, t=60)])
_c16 = dict(h="c16_ramification.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc"])
PROPS["C16"] = dict(
  instances=[I(_c16, "c16_types", dict(p=p, r=r, deg=d, kmax=k), t=t, tier=tier) for p, r, d, k, t, tier in [(11, 1, 3, 4, 60, "quick"), (11, 1, 4, 4, 60, "quick"), (11, 1, 5, 5, 60, "quick"), (11, 1, 6, 6, 60, "quick"), (11, 1, 7, 5, 100, "quick"), (11, 1, 8, 4, 100, "quick"), (3, 2, 5, 4, 60, "quick"), (3, 2, 6, 4, 60, "quick"),
     (11, 1, 9, 5, 100, "quick"), (11, 1, 10, 5, 100, "quick"), (3, 2, 7, 4, 100, "quick"), (11, 1, 9, 9, 400, "thorough"), (11, 1, 10, 10, 600, "thorough"), (13, 1, 12, 6, 900, "thorough"), (3, 2, 7, 7, 400, "thorough"), (3, 2, 8, 8, 400, "thorough")]] +
    [I(_c16, "c16_rhs", dict(p=p, r=r, size=s), t=60) for p, r, s in [(3, 1, 4), (3, 1, 7), (7, 1, 5), (31, 1, 6), (3, 2, 5), (5, 2, 4), (3, 3, 5)]] +
    [I(_c16, "c16_squarefree", dict(p=p, r=r, size=s, free=f), t=t, tier=tier) for p, r, s, f, t, tier in [(3, 1, 4, 4, 60, "quick"), (3, 1, 5, 5, 60, "quick"), (5, 1, 4, 4, 60, "quick"), (3, 2, 4, 3, 60, "quick"), (3, 1, 6, 4, 60, "quick"), (7, 1, 5, 3, 200, "thorough"), (3, 1, 7, 4, 300, "thorough"), (3, 2, 5, 3, 600, "thorough")]])
PROPS["C17"] = dict(
  instances=[I(_c16, "c17_offsets", dict(p=p, r=r, kmax=k, other=o), t=t, tier=tier) for p, r, k, o, t, tier in [(3, 1, 4, 0, 60, "quick"), (3, 2, 3, 1, 60, "quick"), (5, 1, 3, 0, 60, "quick"), (7, 3, 2, 1, 60, "quick"), (97, 1, 4, 0, 60, "quick"), (7, 3, 3, 0, 60, "quick"), (3, 1, 7, 0, 300, "thorough"), (1009, 1, 2, 0, 100, "thorough")]])
_c18 = dict(h="c18_single.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc", "single_curve_fp.cc"])
PROPS["C18"] = dict(
  instances=[I(_c18, "c18_coefficients", dict(p=p, size=s, deg=d, impl=i, free=f), t=t, tier=tier, x=["--inc-timeout", 1000]) for p, s, d, f, t, tier in [(3, 4, 3, 16, 60, "quick"), (3, 5, 3, 16, 100, "quick"), (3, 5, 4, 16, 100, "quick"), (3, 6, 5, 3, 150, "quick"), (5, 4, 3, 16, 120, "quick"), (7, 4, 3, 2, 100, "quick"), (31, 4, 3, 1, 100, "quick"),
    (3, 6, 5, 16, 900, "thorough"), (3, 7, 6, 3, 600, "thorough"), (7, 4, 3, 3, 900, "thorough"), (13, 4, 3, 2, 900, "thorough"), (5, 6, 5, 2, 900, "thorough")] for i in (0, 1, 2)] +
    [I(_c18, "c18_large", dict(p=p, flint_rand=0), t=100, steps=10**10) for p in (100003,)])
_c13 = dict(h="c13_config.cc", src=["config/config_node.cc"])
PROPS["C13"] = dict(
  instances=[I(_c13, "c13_decode", {}, t=60), I(_c13, "c13_values", {}, t=60), I(_c13, "c13_roundtrip", {}, t=60), I(_c13, "c13_text", {}, t=60), I(_c13, "c13_verify", {}, t=60)])
_c14 = dict(h="c14_messages.cc", src=["config/config_node.cc"], nlibs=["-lboost_serialization"])
PROPS["C14"] = dict(
  instances=[I(_c14, "c14_config", {}, t=60), I(_c14, "c14_blocks", dict(n=3, len=3), t=60), I(_c14, "c14_set", {}, t=60), I(_c14, "c14_texts", dict(len=6), t=100), I(_c14, "c14_blocks", dict(n=4, len=4), t=300, tier="thorough"), I(_c14, "c14_texts", dict(len=8), t=400, tier="thorough")])
_st = ["store/curve_data.cc", "store/store_data.cc", "store/store.cc", "store/file_store.cc", "config/config_node.cc"]
_c09 = dict(h="c08_files.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc"] + _st, nsrc=["fs.cc"])
_c08 = dict(h="c08_merge.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc"] + _st, nsrc=["fs.cc"])
PROPS["C08"] = dict(
  instances=[I(_c08, "c08_merge", dict(n=2, keys=1), t=150, reach=["end", "orphan"]), I(_c08, "c08_merge", dict(n=2, keys=2, others=0, b1=1, cmax=40), t=150, reach=["end", "orphan"]), I(_c08, "c08_again", dict(n=3, b1=1, keys=1), t=150), I(_c08, "c08_again", dict(n=2, b1=1, keys=2), t=150), I(_c08, "c08_usage", {}, t=60), I(_c06, "c08_order", dict(n=3, len=1), t=100), I(_c06, "c08_order", dict(n=2, len=2), t=100), I(_c06, "c08_order", dict(n=3, len=2, nr0=1, no0=1), t=400, tier="thorough")])
_c09t = dict(h="c09_threads.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc"] + _st, nsrc=["sched.cc"])
PROPS["C09"] = dict(
  instances=[I(_c09, "c09_crash", dict(n=1, keys=2), t=150), I(_c09, "c09_crash", dict(n=2, keys=1, has0=1), t=150), I(_c09, "c09_names", dict(n=2, keys=1, has0=1, b1=1, sym=0, random_draws=6, random_max=2), t=100), I(_c08, "c09_merge", dict(n=2, keys=1, b1=1), t=150), I(_c08, "c09_merge", dict(n=2, keys=1, b1=1, has0=1, old=1), t=150)] +
    [I(_c09t, "c09_threads", a, t=t, tier=tier) for a, t, tier in [(dict(threads=2, blocks=1, saves=1, delays=2), 100, "quick"), (dict(threads=1, blocks=2, saves=2, delays=3), 100, "quick"), (dict(threads=2, blocks=2, saves=1, delays=2), 100, "quick"), (dict(threads=2, blocks=1, saves=2, delays=4), 100, "quick"), (dict(threads=3, blocks=1, saves=2, delays=2), 100, "quick"), (dict(threads=3, blocks=2, saves=2, delays=3), 900, "thorough"), (dict(threads=2, blocks=3, saves=2, delays=5), 900, "thorough")]])
PROPS["C10"] = dict(
  instances=[I(_c09, "c10_full", dict(n=1, keys=2), t=150), I(_c09, "c10_full", dict(n=2, keys=1, has0=1), t=150), I(_c09, "c10_full", dict(n=2, keys=1, has0=1, fail_sticky=0), t=150), I(_c08, "c10_merge", dict(n=2, keys=1, b1=1), t=150), I(_c08, "c10_merge", dict(n=2, keys=1, b1=1, has0=1, old=1), t=150), I(_c08, "c10_merge", dict(n=2, keys=1, b1=1, has0=1, fail_sticky=0), t=150)])
_c11 = dict(h="c11_threads.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc", "threaded/thread.cc", "threaded/thread_pool.cc"] + _st, nsrc=["sched.cc"])
PROPS["C11"] = dict(
  instances=[I(_c11, "c11_pool", a, t=t, tier=tier) for a, t, tier in [(dict(threads=1, blocks=3, delays=4), 150, "quick"), (dict(threads=2, blocks=3, delays=3), 200, "quick"), (dict(threads=3, threads0=3, blocks=3, delays=2), 200, "quick"), (dict(threads=2, blocks=2, rounds=2, delays=2), 150, "quick"), (dict(threads=2, blocks=2, delays=2, spurious=2), 150, "quick"),
      (dict(threads=2, blocks=4, delays=4), 1800, "thorough"), (dict(threads=3, blocks=4, delays=3), 1800, "thorough"), (dict(threads=2, blocks=2, rounds=3, delays=3), 1500, "thorough"), (dict(threads=2, blocks=3, delays=3, spurious=2), 1500, "thorough")]] +
    [I(_c11, "c11_shutdown", a, t=t, tier=tier) for a, t, tier in [(dict(threads=1, delays=6, again=1), 100, "quick"), (dict(threads=2, delays=4, blocks=2), 200, "quick"), (dict(threads=2, delays=2, blocks=1, again=1, spurious=1), 200, "quick"), (dict(threads=3, delays=4, blocks=3), 1800, "thorough")]])
_c12 = dict(h="c12_runs.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc", "threaded/thread.cc", "threaded/thread_pool.cc", "worker_pool/standalone.cc"] + _st, nsrc=["sched.cc", "fs.cc"])
PROPS["C12"] = dict(
  instances=[I(_c12, "c12_run", dict(problems=2, blocks=2, threads=2, delays=1), t=200), I(_c12, "c12_run", dict(problems=1, blocks=3, threads=1, delays=0, clock_step=360000), t=200), I(_c12, "c12_killed", dict(problems=1, blocks=2, threads=1, delays=0, clock_step=360000), t=200)])
_c19 = dict(_c11, h="c19_block.cc")
PROPS["C19"] = dict(
  instances=[I(_c19, "c19_block", dict(p=3, size=4, K=2, max=4), t=200), I(_c19, "c19_block", dict(p=3, size=6, K=1, max=3, free=3), t=200), I(_c19, "c19_block", dict(p=5, size=4, K=2, max=3, free=3), t=200), I(_c19, "c19_block", dict(p=3, r=2, size=4, K=1, max=2, free=2), t=200), I(_c19, "c19_store", dict(p=3, p1=5, size=4, max=2, free=2), t=200)])
_c21 = dict(_c12, h="c21_threaded.cc")
PROPS["C21"] = dict(
  instances=[I(_c21, "c21_run", a, t=t, tier=tier) for a, t, tier in [
    (dict(p=3, unit=5, package=2, K=2, styles=0, types=0, again=0, mark0=1), 200, "quick"), (dict(p=3, unit=20, package=1, K=1, styles=1, types=1, again=1, mark0=1), 200, "quick"), (dict(problems=2, p=3, p1=5, unit=12, package=1, K=1, styles=0, types=0, again=1, mark0=1), 200, "quick"), (dict(p=3, unit=9, package=1, K=1, styles=0, types=0, again=0, mark0=1, threads0=2, threads=2, delays=1), 200, "quick"), (dict(p=5, unit=7, package=3, K=2, styles=0, types=0, again=0, mark0=1), 200, "quick"),
    (dict(p=3, unit=1, package=5, K=2, styles=0, types=0, again=0, mark0=1), 1500, "thorough"), (dict(problems=2, p=3, p1=5, unit=6, package=3, K=2, styles=1, types=1, again=1), 1500, "thorough"), (dict(p=3, unit=3, package=2, K=1, styles=0, types=0, again=0, mark0=1, threads0=2, threads=2, delays=2), 1500, "thorough")]] +
    [I(_c21, "c21_reject", {}, t=100)])
_clk = [("opencl/evaluation.cl", "opencl/program_evaluation.hh", (), ("-DPOLY_SIZE=%d" % n,), "evaluate", "evaluate_%d" % n) for n in (4, 5, 6, 7)] + \
  [("opencl/reduction.cl", "opencl/program_reduction.hh", ("#undef SIZE_PARTIAL_REDUCTION", "#define SIZE_PARTIAL_REDUCTION %d" % n), (), "reduce", "reduce_%d" % n) for n in (1, 2, 4)]
import os as _os
_c22 = dict(h="c22_opencl.cc", src=CURVE + ["opencl/interface.cc", "opencl/buffer_evaluation.cc", "opencl/kernel_evaluation.cc", "opencl/kernel_reduction.cc", "opencl/program.cc"], cflags=["-DWITH_OPENCL", "-I", _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "harness", "cl")], cl=_clk, nsrc=["sched.cc"])
PROPS["C22"] = dict(
  instances=[I(_c22, "c22_count", a, t=t, tier=tier, x=["--inc-timeout", 1000]) for a, t, tier in [(dict(p=3, size=s), 100, "quick") for s in (4, 5, 6, 7)] + [(dict(p=5, size=4), 100, "quick"), (dict(p=5, size=5), 100, "quick"), (dict(p=7, size=4), 100, "quick"), (dict(p=3, r=2, size=4), 150, "quick"), (dict(p=3, size=4, K=2, given_away=0), 200, "quick"), (dict(p=3, size=5, K=2, given_away=0), 200, "quick"), (dict(p=3, size=4, curves=2, free=3), 200, "quick"), (dict(p=3, size=5, K=2, curves=2, free=2), 200, "quick"),
      (dict(p=3, size=5, K=2, curves=2, free=3), 900, "thorough"), (dict(p=3, size=6, K=2, given_away=0), 900, "thorough"), (dict(p=11, size=4), 900, "thorough"), (dict(p=7, size=5), 900, "thorough"), (dict(p=5, size=7), 900, "thorough"), (dict(p=3, r=2, size=5), 900, "thorough"), (dict(p=3, size=4, curves=3, free=3), 900, "thorough"), (dict(p=3, size=4, K=3, given_away=0), 1500, "thorough")]] +
    [I(_c22, "c22_reduce", a, t=t, tier=tier) for a, t, tier in [(dict(n=5, local=1, groups=2, variant=0), 60, "quick"), (dict(n=9, local=2, groups=2, variant=0), 60, "quick"), (dict(n=9, local=2, groups=2, variant=1), 60, "quick"), (dict(n=9, local=4, groups=1, variant=0), 60, "quick"), (dict(n=9, local=4, groups=1, variant=2), 60, "quick"), (dict(n=9, local=4, groups=1, variant=1), 60, "quick"), (dict(n=4, local=2, groups=2, variant=0, delays=2), 100, "quick"), (dict(n=3, local=4, groups=1, variant=0, delays=2), 150, "quick"),
      (dict(n=4, local=4, groups=1, variant=0, delays=3), 900, "thorough"), (dict(n=17, local=4, groups=1, variant=0), 900, "thorough")]])
_c15 = dict(h="c15_mpi.cc", src=CURVE + ["curve_iterator.cc", "block_iterator.cc", "threaded/thread.cc", "threaded/thread_pool.cc", "worker_pool/mpi.cc", "worker_pool/mpi_worker.cc"] + _st, nsrc=["sched.cc", "fs.cc"], nmpi=1)
PROPS["C15"] = dict(
  instances=[I(_c15, "c15_pool", a, t=t, tier=tier) for a, t, tier in [(dict(problems=1, blocks=2, delays=1, resume=0), 250, "quick"), (dict(problems=2, blocks=1, delays=1), 250, "quick"), (dict(problems=2, blocks=2, delays=0, threads=2), 250, "quick"), (dict(problems=2, blocks=1, delays=0, clock_step=360000), 250, "quick"), (dict(problems=1, blocks=2, delays=0, clock_step=360000), 250, "quick"), (dict(problems=2, blocks=2, delays=0, clock_step=360000), 1800, "thorough"), (dict(problems=1, blocks=2, delays=1, clock_step=360000, resume=0, rendezvous=0), 250, "quick"), (dict(problems=2, blocks=2, delays=0, processes=3), 250, "quick"), (dict(problems=1, blocks=3, delays=1, processes=3, resume=0, rendezvous=0), 250, "quick"), (dict(problems=1, blocks=1, delays=2, resume=0, rendezvous=0), 250, "quick"),
      (dict(problems=2, blocks=2, delays=1), 1800, "thorough"), (dict(problems=1, blocks=3, delays=2, resume=0), 1800, "thorough"), (dict(problems=2, blocks=2, delays=1, processes=3, resume=0), 1800, "thorough"), (dict(problems=2, blocks=2, delays=1, clock_step=360000), 1800, "thorough")]] +
   [I(_c15, "c15_main", a, t=t, tier=tier) for a, t, tier in [(dict(), 200, "quick"), (dict(second=1, unit=12, package=1), 200, "quick"), (dict(processes=3, second=1, unit=7, package=3), 200, "quick"), (dict(second=1, unit=5, package=2, threads=2), 200, "quick"), (dict(delays=1, unit=14, package=1, rendezvous=0), 900, "thorough")]] +
   [I(_c15, "c15_reject", a, t=100, reach=["abort", "end"]) for a in (dict(), dict(processes=3))])
