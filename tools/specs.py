# How each check is built: sources, filter families to instantiate, build variants.
ALL = ["butter", "cheb1", "cheb2"]
VARIANTS = {
    # plain optimised build
    "opt": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g0"]},
    # sanitizers; the filters with orders 1-5 and 8
    "asan": {"cxx": "g++", "small": True,
             "flags": ["-std=c++17", "-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
             "engine_flags": ["-std=c++17", "-O1", "-g0"],
             "env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1",
                     "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=66"}},
}
# The quick tier runs quick_scale (3 by default) times the case counts given in the sources.
VARIANTS["memcheck"] = {"cxx": "g++", "small": True, "flags": ["-std=c++17", "-O1", "-g1"],
    "prefix": ["valgrind", "-q", "--trace-children=no", "--error-exitcode=66", "--exit-on-first-error=yes", "--leak-check=no",
               "--undef-value-errors=yes", "--child-silent-after-fork=no"]}
VARIANTS["noexc"] = {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g0", "-fPIC", "-fvisibility=hidden", "-fno-exceptions", "-DIIR1_NO_EXCEPTIONS", "-DNDEBUG"]}
# as opt, but with fewer orders
VARIANTS["opt_small"] = {"cxx": "g++", "small": True, "flags": ["-std=c++17", "-O1", "-g0"]}
VARIANTS["cov"] = {"cxx": "g++", "small": True, "flags": ["-std=c++17", "-O1", "-g0", "-fsanitize-coverage=trace-pc"], "engine_flags": ["-std=c++17", "-O1", "-g0"]}
VARIANTS["tsan"] = {"cxx": "clang++", "small": True, "flags": ["-std=c++17", "-O1", "-g0", "-fsanitize=thread"],
    "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}}
def _s(src, families=ALL, **k):
    d = {"exe": src[0].replace(".cpp", ""), "src": src, "families": families}
    d.update(k)
    return d
SPECS = {
    "C01": _s(["c01.cpp"]),
    "C02": _s(["c02.cpp"]),
    "C03": _s(["c03_07.cpp"], ["butter"], exe="c03"),
    "C04": _s(["c03_07.cpp"], ["cheb1"], exe="c04"),
    "C05": _s(["c03_07.cpp"], ["cheb2"], exe="c05"),
    "C06": _s(["c03_07.cpp"], exe="c06"),
    "C07": _s(["c03_07.cpp"], [], exe="c07"),
    "C08": _s(["c08.cpp"]),
    "C09": _s(["c09.cpp"]),
    "C10": _s(["c10_13.cpp"], exe="c10_13"),
    "C11": _s(["c10_13.cpp"], exe="c10_13"),
    "C12": _s(["c10_13.cpp"], exe="c10_13"),
    "C13": _s(["c10_13.cpp"], exe="c10_13"),
    "C14": _s(["c14.cpp"]),
    "C15": _s(["c15.cpp"]),
    "C16": _s(["c16.cpp"]),
    "C17": _s(["c17.cpp"]),
    "C19": _s(["c19.cpp"], dso="noexc", dso_export="noexc_export.cpp", runs=[{"variant": "opt_small"}]),
    "C21": _s(["c21.cpp"], link=["-pthread", "-Wl,-z,now"], runs=[{"variant": "tsan", "only": "races"}, {"variant": "opt_small", "only": "interleaved,threads,interrupted"}]),
    "C22": _s(["c22.cpp"]),
    "C23": _s(["c23.cpp"], []),
    "C24": _s(["c24.cpp"], link=["-Wl,-z,now", "-ldl"]),
    "C25": _s(["c25.cpp"], link=["-pthread", "-Wl,-z,now"], quick_scale=1.5, runs=[{"variant": "tsan", "only": "races"}, {"variant": "opt_small", "only": "reads_of_a_shared_filter,interrupted"}]),
    "C26": _s(["c26.cpp"], runs=[{"variant": "opt_small"}]),
    "C27": _s(["c27.cpp"], runs=[{"variant": "cov"}]),
    "C29": _s(["c29.cpp"], []),
    "C30": _s(["c30.cpp"], runs=[{"variant": "opt_small"}]),
    "C20": {"python": "c20"},
    "C28": {"python": "c28"},
    "C18": _s(["c18.cpp"], quick_scale=2, runs=[{"variant": "asan"}, {"variant": "memcheck", "tiers": ("thorough",), "scale": 0.02}]),
}
