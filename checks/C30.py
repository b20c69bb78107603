"""C30: the headers work in any combination, order and number of translation units.

A case is a program: two to four translation units, each with its own list of public headers (in any order, with
others around them), its own compiler and optimisation level; the whole program with one language standard and one set of
conforming options (signed or unsigned char, checked standard library, NDEBUG). The units write values in one unit and
read (or translate and read) them in another, and use the encoders and dumps. The program must compile, link and find
every value as it was written."""
import base64, concurrent.futures, hashlib, json, os, random, shutil, subprocess, sys, time

ALL = ["zerialize/zerialize.hpp", "zerialize/concepts.hpp", "zerialize/dynamic.hpp", "zerialize/errors.hpp", "zerialize/serialize.hpp",
       "zerialize/translate.hpp", "zerialize/zbuffer.hpp", "zerialize/zbuilders.hpp", "zerialize/internals/base64.hpp",
       "zerialize/internals/fixed_string.hpp", "zerialize/internals/serializers.hpp", "zerialize/internals/tuple_for_each.hpp",
       "zerialize/tensor/utils.hpp", "zerialize/tensor/view_info.hpp", "zerialize/tensor/eigen.hpp", "zerialize/tensor/xtensor.hpp"]
PH = {"Zera": "zerialize/protocols/zera.hpp", "Flex": "zerialize/protocols/flex.hpp", "MsgPack": "zerialize/protocols/msgpack.hpp",
      "JSON": "zerialize/protocols/json.hpp", "CBOR": "zerialize/protocols/cbor.hpp"}
STD = ["cstdio", "cstdint", "cstring", "string", "vector", "map", "span", "limits", "memory"]
STDS = ["c++20", "gnu++20", "c++23", "gnu++23"]


# ---- values: ("null",) ("b",v) ("i",v) ("u",v) ("d",hex) ("s",utf8) ("x",hexbytes) ("a",[..]) ("m",[[k,v]..])
def gen_str(r, big=True):
    n = r.choice([0, 1, 3, 11, 12, 13, 31, 32, 40] + ([255, 256, 300] if big else []))
    return "".join(r.choice("abcxyz /\u00e9\u00ff\u20ac\U0001f600~") for _ in range(n))


def gen_value(r, depth=0):
    k = r.randrange(10 if depth < 3 else 7)
    if k == 0: return ["null"]
    if k == 1: return ["b", r.random() < .5]
    if k == 2: return ["i", r.choice([-1, -32, -33, -128, -129, -32769, -2**31, -2**31 - 1, -2**63, -r.getrandbits(r.randrange(1, 63)) - 1])]
    if k == 3: return ["u", r.choice([0, 1, 127, 128, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**63, 2**64 - 1, r.getrandbits(r.randrange(1, 64))])]
    if k == 4: return ["d", float.hex(r.choice([.5, -2.25, 1e300, 5e-324, 0.1, -0.0, r.uniform(-1e6, 1e6)]))]
    if k == 5: return ["s", gen_str(r)]
    if k == 6: return ["x", bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 17, 260]))).hex()]
    if k == 7: return ["a", [gen_value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3, 17]) if depth else r.randrange(1, 5))]]
    keys = []
    for _ in range(r.randrange(1, 5)):
        x = gen_str(r, False)
        if x and x not in keys: keys.append(x)
    return ["m", [[x, gen_value(r, depth + 1)] for x in (keys or ["k"])]]


def lit(b):  # a C++ literal of these bytes
    return '"' + "".join("\\%03o" % c for c in b) + '"'


def sv(s):
    b = s.encode()
    return f"std::string_view({lit(b)}, {len(b)})"


def num(v):
    if v[0] == "i": return f"std::int64_t({v[1] + 1}LL - 1)" if v[1] < 0 else f"std::int64_t({v[1]}LL)"
    if v[0] == "u": return f"std::uint64_t({v[1]}ULL)"
    return f"double({v[1]})"


def blob(h):
    b = bytes.fromhex(h)
    return f"blob_of({lit(b)}, {len(b)})"


def events(v):
    k = v[0]
    if k == "null": return "w.null();"
    if k == "b": return f"w.boolean({str(v[1]).lower()});"
    if k == "i": return f"w.int64({num(v)});"
    if k == "u": return f"w.uint64({num(v)});"
    if k == "d": return f"w.double_({num(v)});"
    if k == "s": return f"w.string({sv(v[1])});"
    if k == "x": return f"{{ auto b = {blob(v[1])}; w.binary(std::span<const std::byte>(b)); }}"
    if k == "a": return f"w.begin_array({len(v[1])}); " + " ".join(events(x) for x in v[1]) + " w.end_array();"
    return f"w.begin_map({len(v[1])}); " + " ".join(f"w.key({sv(a)}); {events(x)}" for a, x in v[1]) + " w.end_map();"


def built(v):  # zvec and zmap
    k = v[0]
    if k == "null": return "nullptr"
    if k == "b": return str(v[1]).lower()
    if k in "iud": return num(v)
    if k == "s": return f"std::string({sv(v[1])})"
    if k == "x": return blob(v[1])
    if k == "a": return "zerialize::zvec(" + ", ".join(built(x) for x in v[1]) + ")"
    return "zerialize::zmap<" + ", ".join(lit(a.encode()) for a, _ in v[1]) + ">(" + ", ".join(built(x) for _, x in v[1]) + ")"


def dyned(v):
    k = v[0]
    if k == "a": return "zerialize::dyn::Value(zerialize::dyn::Value::Array{" + ", ".join(dyned(x) for x in v[1]) + "})"
    if k == "m": return "zerialize::dyn::Value(zerialize::dyn::Value::Map{" + ", ".join(f"{{std::string({sv(a)}), {dyned(x)}}}" for a, x in v[1]) + "})"
    return f"zerialize::dyn::Value({built(v)})"


def reads(v, path, out):
    k = v[0]
    if k == "null": out.append(f"{path}.isNull()")
    if k == "b": out.append(f"{path}.isBool() && {path}.asBool() == {str(v[1]).lower()}")
    if k == "i": out.append(f"{path}.asInt64() == {num(v)}")
    if k == "u": out.append(f"{path}.asUInt64() == {num(v)}")
    if k == "d": out.append(f"{path}.isFloat() && same({path}.asDouble(), {num(v)})")
    if k == "s": out.append(f"{path}.isString() && {path}.asString() == {sv(v[1])}")
    if k == "x": out.append(f"blob_is({path}.asBlob(), {blob(v[1])})")
    if k == "a":
        out.append(f"{path}.isArray() && {path}.arraySize() == {len(v[1])}")
        for i, x in enumerate(v[1]): reads(x, f"{path}[std::size_t({i})]", out)
    if k == "m":
        out.append(f"{path}.isMap()")
        for a, x in v[1]:
            out.append(f"{path}.contains({sv(a)})")
            reads(x, f"{path}[{sv(a)}]", out)


def hexdump(b):
    if not b: return "(empty)\n"
    o = ""
    for i in range(0, len(b), 16):
        row = b[i:i + 16]
        o += "%08x  " % i + "".join(("%02x " % row[j] if j < len(row) else "   ") + (" " if j == 7 else "") for j in range(16))
        o += " |" + "".join(chr(c) if 0x20 <= c < 0x7f else "." for c in row) + "|\n"
    return o


HELP = """namespace {
[[maybe_unused]] std::vector<std::byte> blob_of(const char* p, std::size_t n) { std::vector<std::byte> b(n); if (n) std::memcpy(b.data(), p, n); return b; }
template <class B> [[maybe_unused]] bool blob_is(const B& b, const std::vector<std::byte>& w) { return b.size() == w.size() && (w.empty() || std::memcmp(b.data(), w.data(), w.size()) == 0); }
[[maybe_unused]] bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <class Z> [[maybe_unused]] std::vector<unsigned char> bytes_of(const Z& z) { auto s = z.buf(); std::vector<unsigned char> v; v.reserve(s.size()); for (auto c : s) v.push_back(c); return v; }
}
"""


# ---- jobs: what a program does. Each has a writing and a reading part, in any two units.
def gen_job(r, have, tens):
    P = r.choice(have)
    k = r.choice(["value"] * 6 + ["std", "hex", "b64"] + (["eigen"] if "eigen" in tens else []) + (["xt"] if "xt" in tens else []))
    j = {"kind": k, "p": P}
    if k == "value":
        j["form"] = r.choice(["events", "built", "dyn"])
        j["value"] = gen_value(r) if r.random() < .3 else gen_value(random.Random(r.getrandbits(32))) if r.random() < .2 else ["m", [["v" + str(i), gen_value(r, 1)] for i in range(r.randrange(1, 4))]]
        j["via"] = r.choice(have) if r.random() < .4 else None
    elif k == "std":
        j["value"] = ["m", [["k" + str(i), ["a", [["u", r.getrandbits(r.randrange(1, 31))] for _ in range(r.randrange(0, 4))]]] for i in range(r.randrange(1, 4))]]
    elif k in ("hex", "b64"):
        j["value"] = ["x", bytes(r.getrandbits(8) for _ in range(r.randrange(0, 40))).hex()]
    else:
        j["rows"], j["cols"] = r.randrange(1, 4), r.randrange(1, 4)
        j["type"] = r.choice(["double", "float", "std::int32_t", "std::uint8_t"])
        j["cells"] = [r.randrange(0, 200) for _ in range(j["rows"] * j["cols"])]
    return j


def job_code(j, n):
    """(headers of the writer, its code, headers of the reader, its code)"""
    P = "zerialize::" + j["p"]
    hp = [PH[j["p"]]]
    W, R = f"std::vector<unsigned char> w{n}()", f"int r{n}(const std::vector<unsigned char>& m)"
    k = j["kind"]
    base = ["zerialize/zerialize.hpp"]

    def reader(conds, pre="", hs=()):
        body = "".join(f'    if (!({c})) {{ std::printf("job {n}: value %d differs\\n", {i}); ++bad; }}\n' for i, c in enumerate(conds))
        return f"{R} {{ int bad = 0; (void)m;\n  try {{\n{pre}{body}  }} catch (const std::exception& e) {{ std::printf(\"job {n}: threw %s\\n\", e.what()); ++bad; }}\n  return bad; }}\n"
    if k in ("value", "std"):
        v = j["value"]
        if k == "std":
            code = "std::map<std::string, std::vector<int>> v; " + " ".join(f"v[{lit(a.encode())}] = {{{', '.join(str(x[1]) for x in l[1])}}};" for a, l in v[1]) + f" return bytes_of(zerialize::serialize<{P}>(v));"
            wh = base + hp
        elif j["form"] == "events":
            code = f"typename {P}::RootSerializer rs; typename {P}::Serializer w(rs); {events(v)} return bytes_of(rs.finish());"
            wh = hp
        elif j["form"] == "built":
            code = f"return bytes_of(zerialize::serialize<{P}>({built(v)}));"
            wh = base + hp
        else:
            code = f"return bytes_of(zerialize::serialize<{P}>({dyned(v)}));"
            wh = base + hp
        conds = []
        reads(v, "d", conds)
        pre = f"    {P}::Deserializer d(m);\n"
        rh = hp
        if j.get("via"):
            Q = "zerialize::" + j["via"]
            pre = f"    {P}::Deserializer s(m); auto d = zerialize::translate<{Q}>(s);\n"
            rh = base + hp + [PH[j["via"]]]
        return wh, f"{W} {{ {code} }}\n", rh, reader(conds, pre)
    if k == "hex":
        b = bytes.fromhex(j["value"][1])
        return ([], f"{W} {{ return {{{', '.join(str(c) for c in b)}}}; }}\n", ["zerialize/zbuffer.hpp"],
                reader([f"z.hexdump() == std::string_view({lit(hexdump(b).encode())}, {len(hexdump(b))})", f"z.size() == {len(b)}"], "    zerialize::ZBuffer z{std::vector<std::uint8_t>(m)};\n"))
    if k == "b64":
        b = bytes.fromhex(j["value"][1])
        t = base64.b64encode(b)
        return (["zerialize/internals/base64.hpp"],
                f"{W} {{ auto b = {blob(j['value'][1])}; auto t = zerialize::base64Encode(std::span<const std::byte>(b)); return std::vector<unsigned char>(t.begin(), t.end()); }}\n",
                ["zerialize/internals/base64.hpp"],
                reader([f"t == {lit(t)}", f"blob_is(zerialize::base64Decode(t), {blob(j['value'][1])})"], "    std::string t(m.begin(), m.end());\n"))
    T, ro, co, ce = j["type"], j["rows"], j["cols"], j["cells"]
    if k == "eigen":
        fill = " ".join(f"a({i // co}, {i % co}) = {T}({x});" for i, x in enumerate(ce))
        return (base + ["zerialize/tensor/eigen.hpp"] + hp, f"{W} {{ Eigen::Matrix<{T}, {ro}, {co}> a; {fill} return bytes_of(zerialize::serialize<{P}>(zerialize::zmap<\"t\">(a))); }}\n",
                ["zerialize/tensor/eigen.hpp"] + hp,
                reader([f"a({i // co}, {i % co}) == {T}({x})" for i, x in enumerate(ce)], f"    {P}::Deserializer d(m); auto a = zerialize::eigen::asEigenMatrix<{T}, {ro}, {co}>(d[\"t\"]);\n"))
    fill = " ".join(f"a.data()[{i}] = {T}({x});" for i, x in enumerate(ce))
    return (base + ["zerialize/tensor/xtensor.hpp"] + hp, f"{W} {{ xt::xarray<{T}> a = xt::zeros<{T}>(std::vector<std::size_t>{{{ro}, {co}}}); {fill} return bytes_of(zerialize::serialize<{P}>(zerialize::zmap<\"t\">(a))); }}\n",
            ["zerialize/tensor/xtensor.hpp"] + hp,
            reader([f"a.size() == {len(ce)}"] + [f"a.data()[{i}] == {T}({x})" for i, x in enumerate(ce)], f"    {P}::Deserializer d(m); auto a = zerialize::xtensor::asXTensor<{T}>(d[\"t\"]);\n"))


def gen_program(r, have, tens):
    nt = r.choice([2, 2, 3, 4])
    hs = [h for h in ALL if not ("eigen" in h and "eigen" not in tens) and not ("xtensor" in h and "xt" not in tens)] + [PH[p] for p in have]
    p = {"std": r.choice(STDS), "flags": [r.choice(["-fsigned-char", "-funsigned-char"])], "jobs": [gen_job(r, have, tens) for _ in range(r.randrange(2, 7))], "tus": []}
    if r.random() < .3: p["flags"].append("-DNDEBUG")
    x = r.random()
    if x < .15: p["flags"].append("-D_GLIBCXX_DEBUG")
    elif x < .4: p["flags"].append("-D_GLIBCXX_ASSERTIONS")
    for i in range(nt):
        p["tus"].append({"cc": r.choice(["g++", "clang++"]), "opt": r.choice(["-O0", "-O0", "-O1", "-O2"]), "noise": r.sample(hs, r.choice([0, 0, 1, 2, 4, len(hs)])),
                         "order": r.getrandbits(32), "std_first": r.random() < .3})
    for j in p["jobs"]:
        j["wt"], j["rt"] = r.randrange(nt), r.randrange(nt)
    return p


def sources(p):
    need, code = [[] for _ in p["tus"]], ["" for _ in p["tus"]]
    main = "#include <cstdio>\n#include <vector>\n"
    calls = ""
    for n, j in enumerate(p["jobs"]):
        wh, wc, rh, rc = job_code(j, n)
        need[j["wt"]] += wh
        code[j["wt"]] += wc
        need[j["rt"]] += rh
        code[j["rt"]] += rc
        main += f"std::vector<unsigned char> w{n}(); int r{n}(const std::vector<unsigned char>&);\n"
        calls += f"  bad += r{n}(w{n}());\n"
    out = []
    for i, t in enumerate(p["tus"]):
        hs = sorted(set(need[i]) | set(t["noise"]))
        random.Random(t["order"]).shuffle(hs)
        ours = "".join(f"#include <{h}>\n" for h in hs)
        std = "".join(f"#include <{h}>\n" for h in STD)
        out.append((std + ours if t["std_first"] else ours + std) + HELP + code[i])
    return out, main + "int main() {\n  int bad = 0;\n" + calls + '  std::printf("bad %d\\n", bad);\n  return bad ? 1 : 0;\n}\n'


class Box:
    def __init__(self, repo, here, scratch):
        self.repo, self.here, self.scratch, self.n = repo, here, scratch, 0

    def inc(self):
        s = os.path.join(self.here, "stubs")
        return [f"-I{self.repo}/include", "-I/usr/include/eigen3", f"-I{s}/json", f"-I{s}/cbor", f"-I{s}/xt", "-w"]

    def run(self, p, tag):
        """None if the program does what it should; what went wrong otherwise; 'skip: ...' if that cannot be told."""
        d = os.path.join(self.scratch, "p" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            src, main = sources(p)
            objs = []
            for i, s in enumerate(src + [main]):
                t = p["tus"][i] if i < len(src) else {"cc": "g++", "opt": "-O0"}
                f = os.path.join(d, f"tu{i}.cpp")
                open(f, "w").write(s)
                cmd = [t["cc"], f"-std={p['std']}", t["opt"]] + p["flags"] + self.inc() + ["-c", f, "-o", f[:-4] + ".o"]
                try:
                    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=300)
                except subprocess.TimeoutExpired:
                    return "skip: the compiler took too long"
                if r.returncode != 0:
                    if r.returncode < 0 or "internal compiler error" in r.stderr or "Killed" in r.stderr or "out of memory" in r.stderr or "No space left" in r.stderr:
                        return "skip: the compiler failed"
                    e = [l for l in r.stderr.splitlines() if "error" in l][:3]
                    return f"unit {i} does not compile ({t['cc']}): " + " / ".join(e)
                objs.append(f[:-4] + ".o")
            exe = os.path.join(d, "prog")
            r = subprocess.run(["g++"] + objs + ["-lflatbuffers", "-lmsgpackc", "-o", exe], capture_output=True, text=True, errors="replace")
            if r.returncode != 0:
                if "No space left" in r.stderr or r.returncode < 0: return "skip: the linker failed"
                e = [l for l in r.stderr.splitlines() if "multiple definition" in l or "undefined" in l][:3] or r.stderr.splitlines()[:3]
                return "the program does not link: " + " / ".join(e)
            for _ in range(2):
                try:
                    r = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=60)
                    break
                except subprocess.TimeoutExpired:
                    r = None
            if r is None: return "the program does not end"
            if r.returncode != 0: return f"the program fails (exit {r.returncode}): " + " / ".join((r.stdout + r.stderr).splitlines()[:4])
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)


def kind_of(msg):
    for k in ("does not compile", "does not link", "does not end", "the program fails"):
        if k in msg: return k
    return msg


def simpler(p):
    """Smaller programs, the biggest steps first."""
    def cp(): return json.loads(json.dumps(p))
    for k in range(len(p["jobs"])):
        if len(p["jobs"]) > 1: q = cp(); del q["jobs"][k]; yield q
    if len(p["tus"]) > 1:
        for i in range(len(p["tus"])):
            q = cp(); del q["tus"][i]
            for j in q["jobs"]:
                for s in ("wt", "rt"): j[s] = j[s] - 1 if j[s] > i else 0 if j[s] == i else j[s]
            yield q
    for i, t in enumerate(p["tus"]):
        if len(t["noise"]) > 1:
            q = cp(); q["tus"][i]["noise"] = []; yield q
            q = cp(); q["tus"][i]["noise"] = t["noise"][:len(t["noise"]) // 2]; yield q
            q = cp(); q["tus"][i]["noise"] = t["noise"][len(t["noise"]) // 2:]; yield q
        elif t["noise"]: q = cp(); q["tus"][i]["noise"] = []; yield q
    for k in range(len(p["flags"])): q = cp(); del q["flags"][k]; yield q
    for n, j in enumerate(p["jobs"]):
        if j.get("via"): q = cp(); q["jobs"][n]["via"] = None; yield q
        v = j.get("value")
        if v and v[0] in "am" and j["kind"] == "value":
            for k in range(len(v[1])):
                q = cp(); q["jobs"][n]["value"] = v[1][k] if v[0] == "a" else v[1][k][1]; yield q
                if len(v[1]) > 1: q = cp(); del q["jobs"][n]["value"][1][k]; yield q
    if p["std"] != "c++20": q = cp(); q["std"] = "c++20"; yield q
    for i, t in enumerate(p["tus"]):
        if t["cc"] != "g++": q = cp(); q["tus"][i]["cc"] = "g++"; yield q
        if t["opt"] != "-O0": q = cp(); q["tus"][i]["opt"] = "-O0"; yield q


def shrink(box, p, msg, budget):
    end = time.time() + budget
    k, again = kind_of(msg), True
    while again and time.time() < end:
        again = False
        for q in simpler(p):
            if time.time() > end: break
            m = box.run(q, "shrink")
            if m and kind_of(m) == k:
                p, msg, again = q, m, True
                break
    return p, msg


def describe(p):
    return f"{len(p['tus'])} units ({', '.join(t['cc'] + ' ' + t['opt'] for t in p['tus'])}), {p['std']} {' '.join(p['flags'])}, jobs " + "; ".join(
        j["kind"] + (":" + j["form"] if "form" in j else "") + " " + j["p"] + (">" + j["via"] if j.get("via") else "") + f" {j['wt']}->{j['rt']}" for j in p["jobs"])


def tensors(box):
    out = []
    for name, h, use in (("eigen", "eigen", "Eigen::Matrix2d a; a.setZero(); auto z = zerialize::serialize<zerialize::Zera>(a); zerialize::Zera::Deserializer d(z.buf()); return int(zerialize::eigen::asEigenMatrix<double,2,2>(d)(0,0));"),
                         ("xt", "xtensor", "xt::xarray<double> a = xt::zeros<double>(std::vector<std::size_t>{2, 2}); auto z = zerialize::serialize<zerialize::Zera>(a); zerialize::Zera::Deserializer d(z.buf()); return int(zerialize::xtensor::asXTensor<double>(d).size());")):
        f = os.path.join(box.scratch, f"t_{name}.cpp")
        open(f, "w").write(f"#include <zerialize/zerialize.hpp>\n#include <zerialize/protocols/zera.hpp>\n#include <zerialize/tensor/{h}.hpp>\nint main() {{ {use} }}\n")
        if subprocess.run(["g++", "-std=c++20", "-fsyntax-only"] + box.inc() + [f], capture_output=True).returncode == 0: out.append(name)
    return out


def main(cid, tier, seed, repo, here, scratch, replays, have, replay=None, scale=1.0):
    box = Box(repo, here, scratch)
    if replay:
        m = box.run(json.load(open(replay)), "replay")
        print(m or "the program does what it should")
        return (1 if m and not m.startswith("skip") else 0), None
    tens = tensors(box)
    protos = ["Zera", "Flex", "MsgPack"] + have
    notes = [] if len(tens) == 2 else ["the tensor headers do not all compile against what is here: " + ",".join(tens)]
    f = os.path.join(scratch, "plain.cpp")
    open(f, "w").write("#include <zerialize/zerialize.hpp>\n#include <zerialize/protocols/zera.hpp>\n#include <zerialize/protocols/flex.hpp>\n#include <zerialize/protocols/msgpack.hpp>\nint main() { return int(zerialize::serialize<zerialize::Zera>(1).size() + zerialize::serialize<zerialize::Flex>(1).size() + zerialize::serialize<zerialize::MsgPack>(1).size()) == 0; }\n")
    r = subprocess.run(["g++", "-std=c++20", "-fsyntax-only"] + box.inc() + [f], capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        print("the tree does not compile:\n" + r.stderr[:3000])
        return 2, None
    count, cap, budget = max(1, int(scale * (80 if tier == "quick" else 900))), (400 if tier == "quick" else 1800), 150
    t0 = time.time()
    st = {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "labels": {}, "samples": [], "notes": notes, "violations": 0, "skipped": 0, "time_capped": False}
    seen, bad, stop = set(), [], []

    def one(i):
        if stop: return i, None, None
        if time.time() - t0 > cap:
            st["time_capped"] = True
            return i, None, None
        p = gen_program(random.Random(f"{cid}/{seed}/{i}"), protos, tens)
        m = box.run(p, str(i))
        if m and not m.startswith("skip"): stop.append(i)
        return i, p, m
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, p, m in ex.map(one, range(count)):
            if p is None: continue
            if m and m.startswith("skip"):
                st["skipped"] += 1
                if len(notes) < 4: notes.append(f"program {i}: {m}")
                continue
            st["evaluations"] += 1
            cross = any(j["wt"] != j["rt"] for j in p["jobs"])  # the stated rule
            if cross:
                st["nontrivial"] += 1
                seen.add(hashlib.sha1(json.dumps(p, sort_keys=True).encode()).hexdigest())
                if len(st["samples"]) < 12 and i % 7 == 0: st["samples"].append(describe(p))
            for l in ["units " + str(len(p["tus"]))] + sorted({"job " + j["kind"] for j in p["jobs"]}) + sorted({"with " + j["p"] for j in p["jobs"]}) + p["flags"] + [p["std"]]:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if m: bad.append((i, p, m))
    st["distinct_nontrivial"] = len(seen)
    if bad:
        i, p, m = bad[0]
        p, m = shrink(box, p, m, budget)
        os.makedirs(replays, exist_ok=True)
        rp = os.path.join(replays, f"{cid}-{seed}-{i}.json")
        json.dump(p, open(rp, "w"), indent=1)
        st["violations"] = len(bad)
        print(m)
        print("program:", describe(p))
        for n, s in enumerate(sources(p)[0]): print(f"unit {n} includes", " ".join(l[9:] for l in s.splitlines() if l.startswith("#include <zerialize")))
        print(f"VIOLATION property={cid} replay={rp}")
        return 1, st
    print(f"{cid}: {st['evaluations']} programs, {len(seen)} distinct non-trivial, 0 violation(s), {st['skipped']} skipped, {time.time() - t0:.1f} s")
    return 0, st
