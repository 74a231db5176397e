"""C28: programs that use the library in the ways it is documented for.

A case is a snippet: a filter type, a place where the filter lives, a way of
calling setup() (overload, argument types, omitted defaults), of passing samples
and of asking for the response.  It is written twice: as drawn, and in the
plainest form (local variable, double arguments, nothing omitted).  Both forms
are compiled into one program and have to produce the same values.  Sixty
snippets share a program; a failing one is isolated and shrunk choice by choice.
"""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PER_PROGRAM = 50
SOS = "{0.2,0.3,0.1,1.0,-0.5,0.25},{1.0,-0.4,0.5,2.0,0.3,0.2},{0.5,0.0,-0.5,1.0,0.1,-0.3},{1.0,1.0,0.0,1.0,-0.7,0.0}"

# ---- types -------------------------------------------------------------
KINDS = {"LowPass": "", "HighPass": "", "BandPass": "w", "BandStop": "w", "LowShelf": "g", "HighShelf": "g", "BandShelf": "wg"}
RBJ = {  # name: (arguments after the frequency, number with defaults, the defaults)
    "LowPass": ("q", 1, ["0.70710678118654752440"]), "HighPass": ("q", 1, ["0.70710678118654752440"]), "AllPass": ("q", 1, ["0.70710678118654752440"]),
    "BandPass1": ("b", 0, []), "BandPass2": ("b", 0, []), "BandStop": ("b", 0, []), "IIRNotch": ("q", 1, ["10.0"]),
    "LowShelf": ("gs", 1, ["1.0"]), "HighShelf": ("gs", 1, ["1.0"]), "BandShelf": ("gb", 0, [])}
STATES = ["DirectFormI", "DirectFormII", "TransposedDirectFormII"]
HOLDERS = ["plain", "plain", "brace", "copylist", "auto", "using", "typedef", "static", "tls", "global", "member", "memberinit", "class", "derived", "derivedref", "box",
           "carray", "array", "vector", "vectorgrow", "deque", "list", "map", "umap", "pair", "tuple", "unique", "shared", "newdelete", "factory", "lambda", "nsusing",
           "optional", "variant", "any", "inlinevar", "structured", "braceargs", "heaparray", "cref", "lambdafactory", "swapped", "assigned"]
SINCE = {"optional": 17, "variant": 17, "any": 17, "inlinevar": 17, "structured": 17, "lambdafactory": 14}
ARGTYPES = ["double", "const double", "float", "const float", "int", "const int", "long", "unsigned", "short", "long double", "constexpr double", "literal", "expr", "const double&", "size_t", "int64_t",
            "unsigned char", "lambda", "enum", "reference_wrapper", "volatile double", "static const int"]
ORDERTYPES = ["int", "const int", "literal", "short", "unsigned", "size_t", "enum", "constexpr int", "char", "long", "expr"]
SAMPLES = ["double", "float", "long double", "int", "short", "long", "int64_t"]  # the output stays within their ranges
PASS = ["value", "const", "ref", "rvalue", "transform", "expr", "generate", "struct"]
MID = ["none", "copy", "copybrace", "move", "byvalue", "pushback", "lambda", "function", "uniquecopy", "reference", "resetagain", "retune", "thread", "pairmove"]
QUERY = ["double", "float", "constref", "polezeros", "cascade", "stages", "storage", "typedef", "none"]
# names a program may use for things of its own: those of the standard library and of the library's namespace
OWN = ["distance", "plus", "minus", "function", "vector", "map", "list", "array", "pair", "tuple", "swap", "min", "max", "ref", "begin", "end", "size", "data", "empty", "move", "find", "count",
       "sort", "string", "tie", "get", "hash", "less", "byte", "rank", "ratio", "copy", "fill", "reverse", "transform", "complex", "norm", "polar", "arg", "left", "right", "fixed", "advance", "next",
       "prev", "ostream", "cout", "endl", "numeric_limits", "exception", "invalid_argument", "thread", "allocator", "conj", "real", "imag", "proj", "accumulate", "any", "optional", "variant",
       "Biquad", "Cascade", "Layout", "LayoutBase", "PoleFilter", "PoleZeroPair", "ComplexPair", "DirectFormI", "DirectFormII", "State", "complex_t", "infinity", "doublePi", "is_nan", "addmul",
       "order", "gain", "scale", "response", "setup", "setupN", "reset", "filter", "RBJ", "Custom", "pi", "Q", "N", "fs", "iir", "Filter", "sampleRate", "transforms", "poles", "zeros",
       "PI", "TWO_PI", "LN2", "LN10", "EPS", "EPSILON", "MAX_ORDER", "MIN", "MAX", "SQR", "DB", "MAXSTAGES", "STAGES", "DIRECT", "INLINE", "FORCE_INLINE", "NOINLINE", "UNUSED", "ASSERT", "CHECK", "EXPORT", "API",
       "LIKELY", "UNLIKELY", "THROW", "ERROR", "OK", "T", "K", "A", "B", "F", "X", "G", "M", "W", "a0", "b0", "w0", "x", "y", "n", "alpha", "beta", "cutoff", "q", "bandwidth", "ripple", "sample", "stage", "stages",
       "state", "identity", "clamp", "lerp", "midpoint", "span", "ranges", "bit_cast", "sqr", "square", "isnan_", "is_inf", "sign", "log_2", "db2lin"]
STD = ["c++11", "c++14", "c++17", "c++20", "c++2b"]
INCLUDES = ["Iir.h", "iir", "order"]
PLAIN = {"holder": "plain", "explicit_state": None, "overload": "N", "args": ["double"] * 4, "omit": False, "ordertype": "int", "sample": "double", "pass": "value",
         "mid": "none", "query": "none", "usingstd": False}
FIELDS = list(PLAIN)


def gen(rng, std):
    year = int(std[3:].replace("2b", "23"))
    s = {}
    r = rng.random()
    if r < 0.6:
        s["fam"] = rng.choice(["Butterworth", "ChebyshevI", "ChebyshevII"])
        s["kind"] = rng.choice(list(KINDS))
        s["order"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 25, 32, 33, 40, 50, 64])  # 0: the default template argument
    elif r < 0.9:
        s["fam"], s["kind"], s["order"] = "RBJ", rng.choice(list(RBJ)), 0
    else:
        s["fam"], s["kind"], s["order"] = "Custom", "SOSCascade", rng.randint(1, 4)
    s["holder"] = rng.choice([h for h in HOLDERS if SINCE.get(h, 11) <= year])
    s["explicit_state"] = rng.choice([None, None] + STATES)
    s["overload"] = rng.choice(["N", "HZ", "NO", "HZO"])
    s["args"] = [rng.choice(ARGTYPES) for _ in range(4)]
    s["omit"] = rng.random() < 0.4
    s["ordertype"] = rng.choice(ORDERTYPES)
    s["sample"] = rng.choice(SAMPLES[:3] if rng.random() < 0.6 else SAMPLES)
    s["pass"] = rng.choice(PASS)
    s["mid"] = rng.choice(["none"] + MID)
    s["query"] = rng.choice(QUERY)
    s["usingstd"] = rng.random() < 0.2
    # values; whole numbers where an argument type asks for them are chosen when writing
    s["fc"] = round(rng.uniform(0.06, 0.4), 3)
    s["fw"] = round(rng.uniform(0.1, 0.9) * 2 * min(s["fc"] - 0.01, 0.49 - s["fc"]), 4)
    s["gain"] = rng.choice([-12, -7, -3, 3, 6, 11, 20])
    s["rip"] = rng.choice([1, 2, 3]) if s["fam"] == "ChebyshevI" else rng.choice([20, 30, 40, 60])
    s["q"] = rng.choice([1, 2, 3, 5])
    s["fs"] = rng.choice([250, 1000, 8000, 44100])
    s["req"] = rng.randint(1, max(1, s["order"] or 4))
    s["qf"] = round(rng.uniform(0.01, 0.49), 3)
    return s


def ftype(s):
    if s["fam"] == "RBJ":
        return "Iir::RBJ::" + s["kind"]
    st = ", Iir::" + s["explicit_state"] if s["explicit_state"] else ""
    if s["fam"] == "Custom":
        return "Iir::Custom::SOSCascade<%d%s>" % (s["order"], st)
    if s["order"] == 0 and not st:
        return "Iir::%s::%s<>" % (s["fam"], s["kind"])
    return "Iir::%s::%s<%s%s>" % (s["fam"], s["kind"], s["order"] or 4, st)


INT = ("int", "const int", "long", "unsigned", "short", "size_t", "int64_t", "unsigned char", "enum", "static const int")


def variable(k, i, t, v, pre):
    """an expression of type t for the number v; what it needs to be declared goes to pre"""
    n = "a%d_%d" % (k, i)
    whole = float(v).is_integer()
    if t in INT and (not whole or (t == "unsigned char" and not 0 <= v < 256) or (t == "short" and abs(v) > 32767) or (t in ("unsigned", "size_t") and v < 0)):
        t = "double"
    val = repr(int(v)) if t in INT else repr(float(v))
    if t == "literal":
        return repr(int(v)) if whole else repr(float(v))
    if t == "expr":
        return "(%s / 2 + %s * 0.5)" % (repr(float(v)), repr(float(v)))
    if t == "const double&":
        pre.append("double v%s = %s; const double& %s = v%s;" % (n, val, n, n))
    elif t == "reference_wrapper":
        pre.append("double v%s = %s; std::reference_wrapper<double> %s = std::ref(v%s);" % (n, val, n, n))
    elif t == "lambda":
        pre.append("auto l%s = [] { return %s; };" % (n, val))
        return "l%s()" % n
    elif t == "enum":
        pre.append("enum { %s = %s };" % (n, val))
    elif t in ("float", "const float"):
        pre.append("%s %s = %sf;" % (t, n, val))
    elif t == "size_t":
        pre.append("std::size_t %s = %s;" % (n, val))
    elif t == "int64_t":
        pre.append("std::int64_t %s = %s;" % (n, val))
    else:
        pre.append("%s %s = %s;" % (t, n, val))
    return n


def arguments(s):
    """list of (value, is frequency) without order and sampling rate; number of arguments with defaults"""
    hz = s["overload"] in ("HZ", "HZO")
    sc = s["fs"] if hz else 1
    fc = round(s["fc"] * sc, 3)
    if hz and "int" in " ".join(s["args"]):
        fc = max(1, round(fc))
    a = [fc]
    if s["fam"] == "RBJ":
        for c in RBJ[s["kind"]][0]:
            a.append({"q": s["q"], "b": s["q"], "g": s["gain"], "s": 1}[c])
        return a
    for c in KINDS[s["kind"]]:
        a.append(round(s["fw"] * sc, 4) if c == "w" else s["gain"])
    if s["fam"] == "ChebyshevII" or (s["fam"] == "ChebyshevI"):
        a.append(s["rip"] if "g" not in KINDS[s["kind"]] else (1 if s["fam"] == "ChebyshevI" else 1))
    return a


def setup(k, s, f, fancy, pre):
    """the call of setup on the expression f"""
    if s["fam"] == "Custom":
        pre.append("const double sos%d[][6] = {%s};" % (k, ",".join(SOS.split("},{")[i].strip("{}").join("{}") for i in range(s["order"]))))
        return "%s.setup(sos%d);" % (f, k)
    a = arguments(s)
    hz = s["overload"] in ("HZ", "HZO")
    types = s["args"]
    out = []
    if s["overload"] in ("NO", "HZO") and s["fam"] != "RBJ":
        if not fancy:
            out.append("(int) %d" % s["req"])
        else:
            t = s["ordertype"]
            pre_o = []
            if t == "literal":
                out.append(str(s["req"]))
            elif t == "expr":
                out.append("(%d - 1)" % (s["req"] + 1))
            elif t == "enum":
                pre.append("enum { o%d = %d };" % (k, s["req"]))
                out.append("o%d" % k)
            else:
                pre.append("%s o%d = %d;" % ("std::size_t" if t == "size_t" else t, k, s["req"]))
                out.append("o%d" % k)
            pre.extend(pre_o)
    vals = ([s["fs"]] if hz else []) + a
    if s["fam"] == "RBJ" and fancy and s["omit"] and RBJ[s["kind"]][1]:
        vals = vals[:-1]
    for i, v in enumerate(vals):
        if fancy:
            out.append(variable(k, i, types[i % 4], v, pre))
        else:
            # the value the fancy form passes: floats are rounded first
            t = types[i % 4]
            out.append("(double) %sf" % repr(float(v)) if t in ("float", "const float") else "(double) " + repr(float(v)))
    if s["fam"] == "RBJ" and not fancy and s["omit"] and RBJ[s["kind"]][1]:
        out.append(RBJ[s["kind"]][2][0]) if len(vals) == len(([1] if hz else []) + a) - 1 else out.__setitem__(-1, RBJ[s["kind"]][2][0])
    return "%s.setup%s(%s);" % (f, "" if hz else "N", ", ".join(out))


def holder(k, s):
    """(declarations at namespace scope, declarations in the function, expression of the filter, statements after the set-up)"""
    F, h = "F%d" % k, s["holder"]
    T = ftype(s)
    ns = {"using": "using F%d = %s;" % (k, T), "typedef": "typedef %s F%d;" % (T, k)}.get(h, "using F%d = %s;" % (k, T))
    f = "f%d" % k
    d = {"plain": ("", T + " " + f + ";", f), "brace": ("", T + " " + f + "{};", f), "copylist": ("", T + " " + f + " = {};", f), "auto": ("", "auto %s = %s();" % (f, T), f),
         "using": ("", "%s %s;" % (F, f), f), "typedef": ("", "%s %s;" % (F, f), f), "static": ("", "static %s %s;" % (T, f), f), "tls": ("", "thread_local %s %s;" % (T, f), f),
         "global": ("static %s %s;" % (T, f), "", f), "inlinevar": ("inline %s %s;" % (T, f), "", f),
         "member": ("struct S%d { int a; %s f; };" % (k, T), "S%d s%d; s%d.a = 1;" % (k, k, k), "s%d.f" % k),
         "memberinit": ("struct S%d { int a = 3; %s f = %s(); double b = 2; };" % (k, T, T), "S%d s%d{};" % (k, k), "s%d.f" % k),
         "braceargs": ("struct S%d { %s f; int a; };" % (k, T), "S%d s%d = {%s(), 7};" % (k, k, T), "s%d.f" % k),
         "class": ("class S%d { %s f; public: S%d() : f() {} %s& get() { return f; } };" % (k, T, k, T), "S%d s%d;" % (k, k), "s%d.get()" % k),
         "derived": ("struct D%d : %s { int extra = 1; };" % (k, T), "D%d %s;" % (k, f), f),
         "derivedref": ("struct D%d : public %s { using Base = %s; D%d() : Base() {} };" % (k, T, T, k), "D%d d%d; %s& %s = d%d;" % (k, k, T, f, k), f),
         "box": ("", "Box<%s> b%d;" % (T, k), "b%d.f" % k), "carray": ("", "%s %s[3];" % (T, f), f + "[1]"), "array": ("", "std::array<%s, 2> %s;" % (T, f), f + "[1]"),
         "vector": ("", "std::vector<%s> %s(3);" % (T, f), f + "[2]"), "vectorgrow": ("", "std::vector<%s> %s; %s.emplace_back(); %s.push_back(%s()); %s.resize(9);" % (T, f, f, f, T, f), f + ".back()"),
         "deque": ("", "std::deque<%s> %s(2);" % (T, f), f + ".front()"), "list": ("", "std::list<%s> %s; %s.emplace_back();" % (T, f, f), f + ".front()"),
         "map": ("", "std::map<std::string, %s> %s;" % (T, f), f + "[\"low\"]"), "umap": ("", "std::unordered_map<int, %s> %s;" % (T, f), f + "[7]"),
         "pair": ("", "std::pair<%s, int> %s;" % (T, f), f + ".first"), "tuple": ("", "std::tuple<int, %s, double> %s;" % (T, f), "std::get<1>(%s)" % f),
         "unique": ("", "std::unique_ptr<%s> %s(new %s);" % (T, f, T), "(*%s)" % f), "shared": ("", "auto %s = std::make_shared<%s>();" % (f, T), "(*%s)" % f),
         "newdelete": ("", "%s* p%d = new %s(); struct Del%d { %s* p; ~Del%d() { delete p; } } del%d{p%d};" % (T, k, T, k, T, k, k, k), "(*p%d)" % k),
         "heaparray": ("", "std::unique_ptr<%s[]> %s(new %s[4]);" % (T, f, T), f + "[3]"),
         "factory": ("static %s make%d() { %s f; return f; }" % (T, k, T), "%s %s = make%d();" % (T, f, k), f),
         "lambda": ("", "auto m%d = [] { %s f; return f; }; auto %s = m%d();" % (k, T, f, k), f),
         "lambdafactory": ("", "auto m%d = [](auto init) { init.reset(); return init; }; auto %s = m%d(%s());" % (k, f, k, T), f),
         "nsusing": ("", "using namespace %s; %s %s;" % ("::".join(T.split("<")[0].split("::")[:-1]), T.split("::", 2)[2], f), f),
         "optional": ("", "std::optional<%s> %s; %s.emplace();" % (T, f, f), "(*%s)" % f), "variant": ("", "std::variant<std::monostate, %s> %s; %s.template emplace<1>();" % (T, f, f) if False else "std::variant<std::monostate, %s> %s; %s.emplace<1>();" % (T, f, f), "std::get<1>(%s)" % f),
         "any": ("", "std::any %s = %s();" % (f, T), "std::any_cast<%s&>(%s)" % (T, f)),
         "structured": ("", "std::pair<%s, int> p%d; auto& [%s, n%d] = p%d; (void)n%d;" % (T, k, f, k, k, k), f),
         "cref": ("", "%s o%d_; const %s& c%d = o%d_; %s %s(c%d);" % (T, k, T, k, k, T, f, k), f),
         "swapped": ("", "%s %s, h%d; using std::swap; swap(%s, h%d);" % (T, f, k, f, k), f), "assigned": ("", "%s %s; %s = %s();" % (T, f, f, T), f)}[h]
    return ns + " " + d[0], d[1], d[2]


def stype(t):
    return {"int64_t": "std::int64_t"}.get(t, t)


def samples(k, s):
    xs = [1 if s["sample"] in ("double", "float", "long double") else 100] + [((37 * i * i + 11 * k) % 101 - 50) for i in range(1, 18)]
    return "{" + ", ".join(str(x) for x in xs) + "}"


def emit(k, s):
    T, X = ftype(s), stype(s["sample"])
    ns, decl, f = holder(k, s)
    ns += " static const %s x%d[] = %s;" % (X, k, samples(k, s))
    body = ["static void fancy%d(std::vector<double>& out) {" % k]
    if s["usingstd"]:
        body.append("using namespace std;")
    pre = []
    call = setup(k, s, f, True, pre)
    body += [decl] + pre + [call]
    if s["holder"] in ("static", "tls", "global", "inlinevar"):
        body.append("%s.reset();" % f)

    def loop(f, lo, hi, how):
        rng_ = "for (int i = %d; i < %d; ++i)" % (lo, hi)
        if how == "value":
            return "%s { %s x = x%d[i]; %s y = %s.filter(x); out.push_back((double) y); }" % (rng_, X, k, X, f)
        if how == "const":
            return "%s { const %s x = x%d[i]; const auto y = %s.filter(x); static_assert(std::is_same<decltype(y), const %s>::value, \"type of the result\"); out.push_back((double) y); }" % (rng_, X, k, f, X)
        if how == "ref":
            return "%s { const %s& x = x%d[i]; out.push_back((double) %s.filter(x)); }" % (rng_, X, k, f)
        if how == "rvalue":
            return "%s out.push_back((double) %s.filter(%s(x%d[i])));" % (rng_, f, "T%d_" % k, k)
        if how == "explicit":
            return "%s out.push_back((double) %s.filter<%s>(x%d[i]));" % (rng_, f, X, k)
        if how == "transform":
            return "{ std::vector<%s> in(x%d + %d, x%d + %d), res(in.size()); auto& g = %s; std::transform(in.begin(), in.end(), res.begin(), [&g](%s v) { return g.filter(v); }); for (%s v : res) out.push_back((double) v); }" % (X, k, lo, k, hi, f, X, X)
        if how == "generate":
            return "{ int i = %d; std::vector<%s> res(%d); auto& g = %s; std::generate(res.begin(), res.end(), [&] { return g.filter(x%d[i++]); }); for (auto v : res) out.push_back((double) v); }" % (lo, X, hi - lo, f, k)
        if how == "struct":
            return "{ struct { %s in, out; } io; %s { io.in = x%d[i]; io.out = %s.filter(io.in); out.push_back((double) io.out); } }" % (X, rng_, k, f)
        return "%s out.push_back((double) (%s.filter(x%d[i]) + 0));" % (rng_, f, k)

    body.append("using T%d_ = %s;" % (k, X))
    body.append(loop(f, 0, 9, s["pass"]))
    m, g = s["mid"], f
    if m == "copy":
        body.append("%s g%d(%s);" % (T, k, f)); g = "g%d" % k
    elif m == "copybrace":
        body.append("%s g%d{%s};" % (T, k, f) if s["fam"] != "RBJ" else "%s g%d = %s;" % (T, k, f)); g = "g%d" % k
    elif m == "move":
        body.append("auto g%d = std::move(static_cast<%s&>(%s));" % (k, T, f)); g = "g%d" % k
    elif m == "byvalue":
        body.append("auto v%d_ = [&out](%s p) { %s return p; }; auto g%d = v%d_(%s);" % (k, T, loop("p", 9, 11, s["pass"]), k, k, f)); g = "g%d" % k
    elif m == "pushback":
        body.append("std::vector<%s> w%d; for (int i = 0; i < 5; ++i) w%d.push_back(%s);" % (T, k, k, f)); g = "w%d[1]" % k
    elif m == "lambda":
        body.append("auto g%d_ = static_cast<%s&>(%s); auto r%d = [g%d_, &out](int i) mutable { out.push_back((double) g%d_.filter(x%d[i])); };" % (k, T, f, k, k, k, k))
        body.append("for (int i = 9; i < 11; ++i) r%d(i); auto r2%d = r%d; for (int i = 11; i < 18; ++i) r2%d(i);" % (k, k, k, k))
    elif m == "function":
        body.append("auto& g%d_ = %s; std::function<%s(%s)> fn%d = [&g%d_](%s v) { return g%d_.filter(v); }; for (int i = 9; i < 18; ++i) out.push_back((double) fn%d(x%d[i]));" % (k, f, X, X, k, k, X, k, k, k))
    elif m == "uniquecopy":
        body.append("std::unique_ptr<%s> u%d(new %s(%s));" % (T, k, T, f)); g = "(*u%d)" % k
    elif m == "reference":
        body.append("%s& g%d = %s;" % (T, k, f)); g = "g%d" % k
    elif m == "resetagain":
        body.append("%s.reset();" % f)
    elif m == "retune":
        body.append(call)
    elif m == "thread":
        body.append("{ auto& g%d_ = %s; std::thread t([&] { for (int i = 9; i < 18; ++i) out.push_back((double) g%d_.filter(x%d[i])); }); t.join(); }" % (k, f, k, k))
    elif m == "pairmove":
        body.append("auto p%d_ = std::make_pair(1, %s(%s));" % (k, T, f)); g = "p%d_.second" % k
    if m not in ("lambda", "function", "thread"):
        body.append(loop(g, 11 if m == "byvalue" else 9, 18, s["pass"]))
    q, qf = s["query"], s["qf"]
    if s["fam"] == "Custom" and q not in ("storage", "none"):
        q = "storage"
    if s["fam"] == "RBJ" and q in ("cascade", "stages", "storage"):
        q = "biquad"
    target = "static_cast<%s&>(%s)" % (T, g)
    if q == "double":
        body.append("{ double qf = %r; std::complex<double> h = %s.response(qf); out.push_back(std::abs(h)); }" % (qf, target))
    elif q == "float":
        body.append("{ float qf = 0.25f; auto h = %s.response(qf); out.push_back(std::abs(h)); out.push_back(std::abs(%s.response(0))); }" % (target, target))
    elif q == "constref":
        body.append("{ const %s& c = %s; out.push_back(std::abs(c.response(%r))); out.push_back((double) c.getPoleZeros().size()); }" % (T, g, qf))
    elif q == "typedef":
        body.append("{ Iir::complex_t h = %s.response(%r); out.push_back(h.real()); }" % (target, qf))
    elif q == "biquad":  # as what it is derived from
        body.append("{ const Iir::Biquad& b = %s; Iir::RBJ::RBJbase& r = %s; out.push_back(std::abs(b.response(%r))); out.push_back(b.getB0() + 2 * b.getB1() + 3 * b.getB2() + 5 * b.getA1() + 7 * b.getA2() + 11 * b.getA0()); out.push_back((double) b.getPoleZeros().size()); r.reset(); out.push_back(r.filter(0.5)); out.push_back(r.filter(0.25)); }" % (g, g, qf))
    elif q == "polezeros":
        body.append("{ std::vector<Iir::PoleZeroPair> v = %s.getPoleZeros(); double sum = 0; for (const auto& p : v) sum += std::norm(p.poles.first) + (p.isSinglePole() ? 0. : std::norm(p.poles.second)); out.push_back(sum); }" % target)
    elif q == "cascade":
        body.append("{ const Iir::Cascade& c = %s; out.push_back(std::abs(c.response(%r))); out.push_back(c.getNumStages()); }" % (target, qf))
    elif q == "stages":
        body.append("{ auto& c = %s; for (int i = 0; i < c.getNumStages(); ++i) { const Iir::Biquad& b = c[i]; out.push_back(b.getB0() + 2 * b.getB1() + 3 * b.getB2() + 5 * b.getA1() + 7 * b.getA2() + 11 * b.getA0()); } }" % target)
    elif q == "storage":
        body.append("{ const auto st = %s.getCascadeStorage(); for (int i = 0; i < st.maxStages; ++i) out.push_back(st.stageArray[i].getB0() + 3 * st.stageArray[i].getA1()); }" % target)
    body.append("}")
    # the plainest form
    plain = ["static void plain%d(std::vector<double>& out) {" % k, "%s f;" % T]
    pre = []
    call = setup(k, s, "f", False, pre)
    plain += pre + [call, "auto step = [&](int lo, int hi) { for (int i = lo; i < hi; ++i) { %s x = x%d[i]; out.push_back((double) f.filter(x)); } };" % (X, k)]
    plain.append("step(0, 9);")
    if m == "resetagain":
        plain.append("f.reset();")
    plain.append("step(9, 18);")
    if q == "double":
        plain.append("out.push_back(std::abs(f.response(%r)));" % qf)
    elif q == "float":
        plain.append("out.push_back(std::abs(f.response(0.25))); out.push_back(std::abs(f.response(0.0)));")
    elif q == "constref":
        plain.append("out.push_back(std::abs(f.response(%r))); out.push_back((double) f.getPoleZeros().size());" % qf)
    elif q == "typedef":
        plain.append("out.push_back(f.response(%r).real());" % qf)
    elif q == "biquad":
        plain.append("out.push_back(std::abs(f.response(%r))); out.push_back(f.getB0() + 2 * f.getB1() + 3 * f.getB2() + 5 * f.getA1() + 7 * f.getA2() + 11 * f.getA0()); out.push_back((double) f.getPoleZeros().size()); f.reset(); out.push_back(f.filter(0.5)); out.push_back(f.filter(0.25));" % qf)
    elif q == "polezeros":
        plain.append("{ double sum = 0; auto v = f.getPoleZeros(); for (size_t i = 0; i < v.size(); ++i) sum += std::norm(v[i].poles.first) + (v[i].isSinglePole() ? 0. : std::norm(v[i].poles.second)); out.push_back(sum); }")
    elif q == "cascade":
        plain.append("out.push_back(std::abs(f.Iir::Cascade::response(%r))); out.push_back(f.getNumStages());" % qf)
    elif q == "stages":
        plain.append("for (int i = 0; i < f.getNumStages(); ++i) out.push_back(f[i].getB0() + 2 * f[i].getB1() + 3 * f[i].getB2() + 5 * f[i].getA1() + 7 * f[i].getA2() + 11 * f[i].getA0());")
    elif q == "storage":
        plain.append("for (int i = 0; i < f.getCascadeStorage().maxStages; ++i) out.push_back(f.getCascadeStorage().stageArray[i].getB0() + 3 * f.getCascadeStorage().stageArray[i].getA1());")
    plain.append("}")
    return " ".join(filter(None, [ns])), " ".join(filter(None, body)), " ".join(plain)


HEAD = """#include <algorithm>
#include <array>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <exception>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
%s
template <class T> struct Box { T f; };
typedef void (*Run)(std::vector<double>&);
static void compare(int k, Run fancy, Run plain) {
  std::vector<double> a, b;
  try { plain(b); } catch (const std::exception& e) { std::printf("S %%d the plain form throws: %%s\\n", k, e.what()); return; }
  try { fancy(a); } catch (const std::exception& e) { std::printf("S %%d throws: %%s\\n", k, e.what()); return; }
  double top = 0, most = 0;
  for (double v : b) top = std::max(top, std::abs(v));
  if (a.size() != b.size()) { std::printf("S %%d gives %%zu values instead of %%zu\\n", k, a.size(), b.size()); return; }
  for (size_t i = 0; i < a.size(); ++i) {
    double d = std::abs(a[i] - b[i]);
    most = std::max(most, d);
    if (!(d <= 1e-9 * top)) { std::printf("S %%d value %%zu is %%.17g instead of %%.17g\\n", k, i, a[i], b[i]); return; }
  }
  std::printf("s %%d %%d %%.3g\\n", k, top > 0 ? 1 : 0, top > 0 ? most / top : 0.);
}
"""


class Broken(Exception):
    def __init__(self, msg, k=None):
        Exception.__init__(self, msg)
        self.k = k


def own(names):
    """declarations of the program's own things, and statements using them"""
    decl, use = {"before": [], "after": []}, []
    for n, what, where in names:
        if what == "variable":
            decl[where].append("static double %s = 1;" % n)
            use.append("%s += 1;" % n)
        elif what == "function":
            decl[where].append("static double %s(double a, int b) { return a + b; }" % n)
            use.append("if (%s(1.0, 2) != 3) std::puts(\"S 0 another function than the program's own is called\");" % n)
        else:
            decl[where].append("struct %s { double v; double twice() const { return 2 * v; } };" % n)
            use.append("{ %s a; a.v = 1; if (a.twice() != 2) std::puts(\"S 0 another type than the program's own is used\"); }" % n)
    return "#line 1 \"own-before\"\n%s\n" % "\n".join(decl["before"]), "#line 1 \"own-after\"\n%s\n" % "\n".join(decl["after"]), " ".join(use)


def program(snippets, inc, names=()):
    before, after, use = own(names)
    if inc == "Iir.h":
        h = "#include \"Iir.h\""
    else:
        names = ["Butterworth", "ChebyshevI", "ChebyshevII", "Custom", "RBJ"]
        if inc == "order":
            names.reverse()
        h = "\n".join("#include \"iir/%s.h\"" % n for n in names)
    text = [HEAD % (before + h + "\n" + after)]
    for k, s in enumerate(snippets):
        a, b, p = emit(k, s)
        # one line number block per snippet: an error message names the snippet and the form
        text.append("#line 1 \"types-%d\"\n%s\n#line 1 \"fancy-%d\"\n%s\n#line 1 \"plain-%d\"\n%s\n" % (k, a, k, b, k, p))
    text.append("#line 1 \"main\"\nint main() {\n  " + use + "\n" + "".join("  compare(%d, fancy%d, plain%d); std::fflush(stdout);\n" % (k, k, k) for k in range(len(snippets))) + "  std::puts(\"end\");\n}\n")
    return "\n".join(text)


def execute(case, lib):
    """runs a program; returns the worst relative difference, raises Broken"""
    d = tempfile.mkdtemp(prefix="iir_c28_")
    try:
        src, exe = os.path.join(d, "p.cpp"), os.path.join(d, "p")
        with open(src, "w") as f:
            f.write(program(case["snippets"], case["inc"], case.get("own", ())))
        cmd = [case["cxx"], "-std=" + case["std"], case["opt"], "-w", "-pthread", "-I" + REPO, src, lib, "-o", exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if r.returncode:
            err = [l for l in r.stderr.splitlines() if re.search(r"error|undefined reference|multiple definition", l)] or r.stderr.splitlines()[-3:]
            k = None
            for l in r.stderr.splitlines():
                m = re.search(r"(?:fancy|plain|types)-(\d+)", l) or re.search(r"\b(?:fancy|plain)(\d+)\(", l)
                if m:
                    k = int(m.group(1))
                    break
            raise Broken("does not compile: " + " / ".join(err[:2])[:500], k)
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        seen, worst, live = -1, 0.0, 0
        for l in r.stdout.splitlines():
            t = l.split(" ", 2)
            if t[0] == "S":
                raise Broken(t[2], int(t[1]))
            if t[0] == "s":
                seen = int(t[1])
                a, b = t[2].split()
                live += int(a)
                worst = max(worst, float(b))
        if r.returncode or not r.stdout.rstrip().endswith("end"):
            raise Broken("ends with status %d %s" % (r.returncode, r.stderr[-200:].strip()), seen + 1 if seen + 1 < len(case["snippets"]) else seen)
        return worst, live
    finally:
        shutil.rmtree(d, ignore_errors=True)


def verdict(case, lib):
    try:
        w, l = execute(case, lib)
        return None, None, w, l
    except Broken as e:
        return str(e), e.k, 0, 0
    except subprocess.TimeoutExpired:
        return "does not end", None, 0, 0


def build_lib(d, cxx="g++"):
    objs = []
    def one(f):
        o = os.path.join(d, os.path.basename(f) + ".o")
        for std in ("c++11", "c++17"):  # whether the library itself builds as C++11 is decided by C20
            r = subprocess.run([cxx, "-std=" + std, "-O1", "-w", "-I" + REPO, "-I" + REPO + "/iir", "-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not r.returncode:
                break
        if r.returncode:
            raise RuntimeError(r.stdout[:3000])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(glob.glob(REPO + "/iir/*.cpp"))))
    lib = os.path.join(d, "libiir.a")
    subprocess.run(["ar", "rcs", lib, *objs], check=True)
    return lib


def shrink(case, k, msg, lib):
    n = len(case["snippets"])
    if n > 1:
        cands = [k] if k is not None else []
        for i in cands + [i for i in range(n) if i not in cands]:
            t = dict(case, snippets=[case["snippets"][i]])
            m = verdict(t, lib)[0]
            if m:
                case, msg = t, m
                break
        else:  # only together
            size = n // 2
            while size >= 1:
                i = 0
                while i < len(case["snippets"]):
                    t = dict(case, snippets=case["snippets"][:i] + case["snippets"][i + size:])
                    m = verdict(t, lib)[0] if t["snippets"] else None
                    if m:
                        case, msg = t, m
                    else:
                        i += size
                size //= 2
    names = list(case.get("own", ()))
    for i in range(len(names), 0, -1):
        t = dict(case, own=names[:i - 1] + names[i:])
        m = verdict(t, lib)[0]
        if m:
            case, msg, names = t, m, t["own"]
    changed = True
    while changed:
        changed = False
        for key, v in (("inc", "Iir.h"), ("cxx", "g++"), ("std", "c++11"), ("opt", "-O0")):
            if case[key] != v and not any(SINCE.get(s["holder"], 11) > 11 for s in case["snippets"] if key == "std"):
                t = dict(case, **{key: v})
                m = verdict(t, lib)[0]
                if m:
                    case, msg, changed = t, m, True
        for i, s in enumerate(case["snippets"]):
            cands = [{f: PLAIN[f]} for f in FIELDS if s[f] != PLAIN[f]] + [{"args": s["args"][:j] + ["double"] + s["args"][j + 1:]} for j in range(4) if s["args"][j] != "double"]
            if s["fam"] != "RBJ":
                cands += [{"order": o} for o in (1, 2, 4) if o < s["order"] and s["req"] <= o]
            for c in cands:
                t = dict(case, snippets=case["snippets"][:i] + [dict(case["snippets"][i], **c)] + case["snippets"][i + 1:])
                m = verdict(t, lib)[0]
                if m:
                    case, msg, changed = t, m, True
    return case, msg


def run(pid, tier, seed, replay, G):
    t0 = time.time()
    libdir = tempfile.mkdtemp(prefix="iir_c28_")
    try:
        try:
            lib = build_lib(libdir)
        except RuntimeError as e:
            print("BUILD ERROR\n" + str(e))
            return 2
        if replay:
            with open(replay) as f:
                m = verdict(json.load(f)["case"], lib)[0]
            print("FAILS: " + m if m else "passes")
            return 1 if m else 0
        rng = random.Random(seed * 7919 + 28)
        programs = int((40 if tier == "quick" else 900) * float(os.environ.get("C28_SCALE", "1")))
        cases = []
        for i in range(max(1, programs)):
            std = STD[i // 2 % len(STD)]
            cases.append({"cxx": ["g++", "clang++"][i % 2], "std": std, "opt": rng.choice(["-O0", "-O0", "-O1", "-O2"]), "inc": rng.choice(INCLUDES),
                          "own": [(n, rng.choice(["variable", "function", "type"]), rng.choice(["before", "after"])) for n in rng.sample(OWN, 40)],
                          "snippets": [gen(rng, std) for _ in range(PER_PROGRAM)]})
        failed, worst, live, done, distinct, classes, known = None, 0.0, 0, 0, set(), {}, []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = [(c, ex.submit(verdict, c, lib)) for c in cases]
            for c, f in futs:
                if failed:
                    f.cancel()
                    continue
                m, k, w, l = f.result()
                done += len(c["snippets"])
                live += l
                worst = max(worst, w)
                for s in c["snippets"]:
                    if sum(s[x] != PLAIN[x] for x in FIELDS) >= 2:
                        distinct.add(json.dumps(s, sort_keys=True))
                    for label in ("type " + s["fam"], "holder " + s["holder"], "overload " + s["overload"], "samples " + s["sample"], "then " + s["mid"], "query " + s["query"], c["cxx"] + " " + c["std"]):
                        classes[label] = classes.get(label, 0) + 1
                if m:
                    failed = (c, k, m)
        if failed:
            c, msg = shrink(*failed, lib)
            p = os.path.join(HERE, "replays", "C28-%d.json" % seed)
            with open(p, "w") as f:
                json.dump({"case": c, "message": msg, "program": program(c["snippets"], c["inc"], c.get("own", ()))}, f, indent=1)
            print("minimal program: " + " ".join(d for d in own(c.get("own", ()))[:2] for d in d.splitlines() if not d.startswith("#")) + " " + " ".join(emit(i, s)[1] for i, s in enumerate(c["snippets"]))[:1500])
            print("  -> " + msg)
            print("VIOLATION property=C28 replay=" + p)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": done, "distinct_nontrivial": len(distinct),
                           "rule": "a case is a snippet of a user's program: filter type, order and structure (explicit or default), one of %d places where the object lives, overload of setup with arguments of random types (default arguments present or omitted), sample type and way of passing samples, copying or moving with delay-line contents in between, a query; programs of %d snippets for both compilers, C++11 to C++23, three ways of including the headers, forty things of the program's own (variables, functions, types) with names that the standard library or the library's namespace uses. Each snippet has to compile and to give the same values (1e-9 of the largest) as its plainest form in the same program. Non-trivial: at least two choices differ from the plainest form." % (len(set(HOLDERS)), PER_PROGRAM),
                           "classes": classes, "worst_observed": {"relative difference from the plain form": worst}, "programs": len(cases), "snippets_with_output": live,
                           "samples": [emit(i, s)[1] for i, s in enumerate(cases[0]["snippets"][:4])]},
              "assumptions": ["the plain form is itself right (C01-C13 decide that)"],
              "wall_s": round(time.time() - t0, 2), "violations": 1 if failed else 0, "known_findings_still_present": []}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not failed:
            print("C28 %s: held on %d snippets in %d programs, %.1f s" % (tier, done, len(cases), time.time() - t0))
        return 1 if failed else 0
    finally:
        shutil.rmtree(libdir, ignore_errors=True)
