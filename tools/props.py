"""Which binaries, target groups and budgets decide each property."""
ALL = {}

def P(id, *runs, **kw):
    ALL[id] = dict(runs=list(runs), **kw)

def R(files, groups, variant="rel", total=1000, mode="v", thorough=15, **kw):
    """one engine run. total: cases in the quick tier; thorough: multiplier"""
    return dict(files=files, groups=groups, variant=variant, total=total, mode=mode, thorough=thorough, **kw)

BASE = ["engine.cc", "la.cc"]

P("C01", R(BASE + ["ops_blas1.cc"], ["blas1"], total=1200000))
P("C02", R(BASE + ["ops_blas2.cc"], ["blas2"], total=800000))
P("C03", R(BASE + ["ops_blas2.cc", "ops_blas3.cc"], ["blas3"], total=220000), R(BASE + ["ops_blas2.cc", "ops_blas3.cc"], ["blas3"], total=30000, variant="avx"), R(BASE + ["ops_blas2.cc", "ops_blas3.cc"], ["blas3"], total=30000, variant="sse"))
P("C04", R(BASE + ["ops_util.cc"], ["util"], total=2500000))
LAP = BASE + ["lap.cc"]
P("C09", R(LAP + ["ops_qr.cc"], ["qr"], total=400000))
P("C10", R(LAP + ["ops_lin.cc"], ["lu"], total=300000))
P("C11", R(LAP + ["ops_lin.cc"], ["chol"], total=300000))
P("C12", R(LAP + ["ops_lin.cc"], ["ldl"], total=300000))
P("C17", R(LAP + ["ops_lin.cc"], ["inv"], total=200000))
P("C15", R(LAP + ["ops_red.cc"], ["red"], total=200000))
P("C16", R(LAP + ["ops_elem.cc"], ["elem"], total=2000000))
P("C13", R(LAP + ["ops_svd.cc"], ["svd"], total=500000))
P("C14", R(LAP + ["ops_evd.cc"], ["evd"], total=500000))
P("C18", R(LAP + ["ops_piv.cc"], ["piv"], total=2000000))
P("C08", R(LAP + ["ops_ext.cc"], ["ext"], total=400000), R(LAP + ["ops_ext.cc"], ["ext"], total=60000, variant="avx"), R(LAP + ["ops_ext.cc"], ["ext"], total=60000, variant="sse"))
ALLLAP = ["ops_qr.cc", "ops_lin.cc", "ops_red.cc", "ops_svd.cc", "ops_evd.cc"]
WSP = (["qr." + x for x in "qrfactor lqfactor qlfactor rqfactor qrbuild lqbuild qlbuild rqbuild qrmult lqmult qlmult rqmult qrsolve lqsolve qrtfactor".split()] +
       ["chol.cholpv", "chol.cholsolve_rank", "ldl.ldlfactor", "ldl.bkfactor", "ldl.bksolve", "inv.luinverse", "inv.cholinverse", "inv.ldlinverse",
        "red", "svd.svd", "svd.bdsvd", "evd.eigen_sym", "evd.selected", "evd.trdeigen", "ext.solve_trm", "ext.mvsolve_trm", "elem.housemult"])
P("C19", R(LAP + ALLLAP + ["ops_ext.cc", "ops_elem.cc", "ops_mem.cc", "ops_sparse.cc"], WSP + ["wbuf", "sparith.add", "sparith.mult"] + ["spsolve." + x for x in "cgrad pcgrad cgnr cgne gmres pgmres".split()], total=360000, mode="vw"))
ALLOPS = ["ops_blas1.cc", "ops_blas2.cc", "ops_blas3.cc", "ops_util.cc"] + ALLLAP + ["ops_ext.cc", "ops_elem.cc", "ops_piv.cc"]
FR = ["blas1", "blas2", "blas3", "util", "qr", "lu", "chol", "ldl", "inv", "red", "svd", "evd", "ext", "elem", "piv"]
P("C05", R(LAP + ALLOPS + ["ops_sparse.cc"], FR + ["sparith", "spsolve"], total=1100000, mode="f"))
P("C06", R(LAP + ALLOPS, ["blas1", "blas2", "blas3", "qr", "lu", "chol", "ldl", "inv", "red", "svd", "evd", "ext", "elem"], total=400000, mode="vfc"))
WRAP = ["-Wl,--wrap=pthread_" + x for x in "mutex_lock mutex_unlock cond_wait cond_timedwait cond_signal cond_broadcast create join".split()]
P("C07", R(LAP + ALLOPS + ["ops_par.cc"], ["par"], total=24000, ld=WRAP, case_s=20),
         R(LAP + ALLOPS + ["ops_par.cc"], ["par"], total=4000, ld=WRAP, case_s=60, variant="tsan"))
P("C26", R(BASE + ["ops_blas2.cc", "ops_compat.cc"], ["compat"], total=600000, mode="vf"))
P("C20", R(LAP + ["ops_valid.cc"], ["valid"], total=3000000, mode="vf"))
P("C21", R(BASE + ["ops_io.cc"], ["io"], total=300000, mode="vf"), R(BASE + ["ops_io.cc"], ["io"], total=60000, mode="vf", variant="asan"))
ASAN64 = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:symbolize=1:max_allocation_size_mb=64:quarantine_size_mb=8"}
P("C22", R(BASE + ["ops_io.cc"], ["iofuzz"], total=500000, mode="v", variant="asan", env=ASAN64), R(BASE + ["ops_io.cc"], ["iofuzz"], total=600000, mode="v"))
P("C23", R(LAP + ["ops_sparse.cc"], ["sp"], total=350000, mode="vf"), R(LAP + ["ops_sparse.cc"], ["sp"], total=40000, mode="vf", variant="asan"))
P("C24", R(LAP + ["ops_sparse.cc"], ["sparith"], total=1500000, mode="vf"), R(LAP + ["ops_sparse.cc"], ["sparith"], total=150000, mode="vfx", variant="asan"))
P("C25", R(LAP + ["ops_sparse.cc"], ["spsolve"], total=500000, mode="vf"), R(LAP + ["ops_sparse.cc"], ["spsolve"], total=40000, mode="vfx", variant="asan"))
EVERY = ALLOPS + ["ops_compat.cc", "ops_sparse.cc", "ops_io.cc", "ops_valid.cc", "ops_mem.cc"]
MEM = FR + ["sp", "sparith", "spsolve", "io", "compat", "mem"]
P("C27", R(LAP + EVERY, MEM + ["valid"], total=200000, mode="vfx", variant="asanx"),
         R(LAP + ALLOPS + ["ops_par.cc"], ["par"], total=2000, mode="vfx", variant="asanx", ld=WRAP, case_s=60),
         R(LAP + EVERY, ["blas1", "blas2", "blas3", "ext", "compat"], total=60000, mode="vfx", variant="asanx2"))
ENVW = ["-Wl,--wrap=" + x for x in "sysconf pthread_create pthread_setaffinity_np".split()]
ENVF = LAP + ALLOPS + ["ops_env.cc"]
P("C28", R(ENVF, ["env"], total=20000, mode="ve", ld=ENVW, case_s=90),
         R(ENVF, ["env"], total=1600, mode="vex", ld=ENVW, case_s=180, variant="asanx"))
P("C29", R(LAP + EVERY, FR + ["sparith", "spsolve", "mem", "memio"], total=260000, mode="vi", variant="alloc"),
         R(LAP + ALLOPS + ["ops_par.cc"], ["paroom"], total=8000, mode="vi", variant="alloc", ld=WRAP, case_s=30))
