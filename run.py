#!/usr/bin/env python3
"""Builds one check against /repo's current tree, runs its generated-input search, writes its evidence.

  run.py <ID> quick|thorough [--seed N] [--only PART] [--scale X]
  run.py <ID> --replay FILE
  run.py --setup
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: could not build.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZER_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
from config import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

ASAN = ["-fsanitize=address,undefined",
        "-fno-sanitize=nonnull-attribute,vptr,function,pointer-overflow,alignment",
        "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]


def sh(cmd, log=None, timeout=None, env=None):
    with (open(log, "wb") if log else open(os.devnull, "wb")) as f:
        try:
            return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env).returncode
        except subprocess.TimeoutExpired:
            return -9


def probe(scratch):
    """Which optional protocols compile against the stand-ins for their absent third-party libraries."""
    have, notes = [], []
    jobs = {"JSON": ("json", "json"), "CBOR": ("cbor", "cbor")}

    def one(item):
        name, (hdr, stub) = item
        src = os.path.join(scratch, f"probe_{hdr}.cpp")
        with open(src, "w") as f:
            f.write(f"""#include <zerialize/zerialize.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/{hdr}.hpp>
using namespace zerialize;
int main() {{
    auto z = serialize<{name}>(zvec(1, "a", zmap<"k">(2.5)));
    {name}::Deserializer d(z.buf());
    auto t = translate<Zera>(d);
    auto u = translate<{name}>(t);
    return int(d.arraySize()) + int(u.isMap()) + int(d.to_string().size());
}}
""")
        cmd = ["clang++", "-std=c++20", "-fsyntax-only", f"-I{REPO}/include", f"-I{HERE}/stubs/{stub}", src]
        return name, sh(cmd, os.path.join(scratch, f"probe_{hdr}.log"))

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for name, rc in ex.map(one, jobs.items()):
            if rc == 0:
                have.append(name)
            else:
                notes.append(f"{name} does not compile against the stand-in library; its parts were not run")
    return have, notes


def build(cid, cfg, scratch, have, out, fuzz=False):
    src = os.path.join(HERE, "checks", cfg.get("source", cid + ".cpp"))
    split = cfg.get("split", 1)
    san = {"asan": ASAN, "tsan": TSAN, "none": []}[cfg.get("san", "asan")]
    flags = ["clang++", "-std=c++20", cfg.get("opt", "-O1"), "-g1", "-pthread", "-w"] + san + [x.format(here=HERE) for x in cfg.get("flags", [])]
    if fuzz:
        flags += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    flags += [f'-DPBT_CHECK_ID="{cid}"', f"-I{REPO}/include", f"-I{HERE}/engine", "-I/usr/include/eigen3", f"-I{HERE}/stubs/xt"]
    for p in have:
        flags += [f"-DHAVE_{p}", f"-I{HERE}/stubs/{p.lower()}"]
    jobs = [(os.path.join(HERE, "engine", "pbt.cpp"), [], "pbt")]
    for t in range(split):
        jobs.append((src, [f"-DTU={t}"] if split > 1 else [], f"tu{t}"))
    for x in cfg.get("extra_sources", []):
        jobs.append((os.path.join(HERE, x), [], os.path.basename(x)))

    tag = "fuzz_" if fuzz else ""

    def one(j):
        s, extra, nm = j
        o = os.path.join(scratch, f"{tag}{nm}.o")
        return sh(flags + extra + ["-c", s, "-o", o], o + ".log"), o
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, o in ex.map(one, jobs):
            if rc != 0:
                return o + ".log"
            objs.append(o)
    link = ["clang++", "-pthread"] + (["-fsanitize=fuzzer"] if fuzz else []) + san + objs + ["-lflatbuffers", "-lmsgpackc"] + cfg.get("libs", []) + ["-o", out]
    rc = sh(link, out + ".log")
    return None if rc == 0 else out + ".log"


def known_findings(cid):
    kf = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"known: property={cid} "):
                kf.append(l.strip()[len("known: "):])
    return kf


def finish(cid, tier, seed, cfg, st, notes, have, rc, t0, t_build, fuzz_info=None):
    """Writes the evidence."""
    kf = known_findings(cid)
    for k in kf:
        print("KNOWN-FINDING:", k)
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": cfg["rule"], "samples": st["samples"][:16],
            "nontrivial": st.get("nontrivial", 0), "by_part_and_label": st["labels"],
            "cases_skipped": st.get("skipped", 0), "time_capped": st.get("time_capped", False),
            "protocols": ["Zera", "Flex", "MsgPack"] + have,
            "notes": st.get("notes", []) + notes,
        },
        "assumptions": COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": st["violations"],
    }
    ev["coverage"]["build_s"] = round(t_build, 1)
    if fuzz_info:
        ev["coverage"]["libfuzzer"] = fuzz_info
        ev["coverage"]["evaluations"] += fuzz_info["executions"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ef = os.path.join(HERE, "evidence", cid + ".json")
    with open(ef + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(ef + ".tmp", ef)
    for n in ev["coverage"]["notes"]:
        print("note:", n)
    print(f"{cid} {tier}: build {t_build:.0f} s, total {time.time() - t0:.0f} s, exit {rc}")


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        for t in ("clang++",):
            if not shutil.which(t):
                print("missing", t)
                return 1
        scratch = os.path.join(HERE, "build", "setup")
        os.makedirs(scratch, exist_ok=True)
        rc = sh(["clang++", "-std=c++20", "-fsyntax-only", os.path.join(HERE, "engine", "pbt.cpp")], os.path.join(scratch, "log"))
        print("setup", "ok" if rc == 0 else "failed")
        return 0 if rc == 0 else 1
    cid = a[0]
    tier = a[1] if len(a) > 1 and not a[1].startswith("-") else "quick"
    o = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    cfg = CHECKS[cid]
    t0 = time.time()
    seed = int(o.get("--seed", os.environ.get("VERIF_SEED", "1") or "1"))
    base = os.environ.get("ZER_BUILD", os.path.join(HERE, "build"))
    scratch = os.path.join(base, f"{cid}-replay" if "--replay" in o else f"{cid}-{tier}")
    shutil.rmtree(scratch, ignore_errors=True)
    outdir = os.path.join(scratch, "run")
    replays = os.path.join(base, "replays")  # survives later runs
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    exe = os.path.join(scratch, cid)
    have, notes = probe(scratch) if cfg.get("optional", True) else ([], [])
    if cfg.get("programs"):  # the cases are programs: they are built one by one
        mod = __import__(cid)
        rc, st = mod.main(cid, tier, seed, REPO, HERE, scratch, replays, have, replay=o.get("--replay"), scale=float(o.get("--scale", 1)))
        if st is not None:
            finish(cid, tier, seed, cfg, st, notes, have, rc, t0, 0)
        if rc != 1:
            shutil.rmtree(scratch, ignore_errors=True)
        return rc
    bad = build(cid, cfg, scratch, have, exe)
    if bad and have:
        b2 = build(cid, cfg, scratch, [], exe)
        if not b2:
            notes.append("JSON and CBOR parts dropped: they do not compile")
            bad, have = None, []
    if bad:
        print(f"cannot build check {cid}:")
        print(open(bad, errors="replace").read()[:4000])
        return 2
    t_build = time.time() - t0
    if "--replay" in o:
        rc = subprocess.run([exe, "--replay", o["--replay"], "--outdir", outdir, "--replays", replays]).returncode
        shutil.rmtree(scratch, ignore_errors=True)
        return rc

    stats = os.path.join(scratch, "stats.json")
    cap = cfg.get("cap_quick", 300) if tier == "quick" else cfg.get("cap_thorough", 900)
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--outdir", outdir, "--replays", replays, "--stats", stats, "--cap", str(cap),
           "--workers", str(cfg.get("workers", 8)), "--hang", str(cfg.get("hang", 60))]
    for k in ("--only", "--scale"):
        if k in o:
            cmd += [k, o[k]]
    sys.stdout.flush()
    r = subprocess.run(cmd)
    st = json.load(open(stats)) if os.path.exists(stats) else {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "labels": {}, "samples": [], "notes": [], "violations": 0, "skipped": 0}
    rc = r.returncode
    fuzz_info = None
    if tier == "thorough" and rc == 0 and cfg.get("fuzz", True) and cfg.get("san", "asan") == "asan":
        fexe = os.path.join(scratch, cid + "_fuzz")
        fb = build(cid, cfg, scratch, have, fexe, fuzz=True)
        if fb:
            notes.append("libFuzzer build failed")
        else:
            corpus, art = os.path.join(scratch, "corpus"), os.path.join(scratch, "artifacts")
            os.makedirs(corpus, exist_ok=True)
            os.makedirs(art, exist_ok=True)
            secs = cfg.get("fuzz_seconds", 300)
            flog = os.path.join(scratch, "fuzz.log")
            sh([fexe, corpus, f"-fork=8", f"-max_total_time={secs}", f"-seed={seed}", f"-artifact_prefix={art}/", "-rss_limit_mb=3000", "-timeout=60", "-max_len=4096", "-len_control=20", "-detect_leaks=0", "-ignore_timeouts=1", "-ignore_ooms=1"], flog, timeout=secs + 120)
            log = open(flog, errors="replace").read()
            ex = [int(x) for x in re.findall(r"^#(\d+):", log, re.M)]
            cov = [int(x) for x in re.findall(r"cov: (\d+)", log)]
            fuzz_info = {"seconds": secs, "executions": max(ex) if ex else 0, "coverage_edges": max(cov) if cov else 0, "artifacts": 0}
            for f in sorted(os.listdir(art)):
                if not f.startswith("crash-"):
                    continue
                fuzz_info["artifacts"] += 1
                rr = subprocess.run([exe, "--from-bytes", os.path.join(art, f), "--outdir", outdir, "--replays", replays])
                if rr.returncode == 1:
                    rc = 1
                    st["violations"] += 1
                    break
            shutil.rmtree(corpus, ignore_errors=True)
    finish(cid, tier, seed, cfg, st, notes, have, rc, t0, t_build, fuzz_info)
    if rc == 0:  # keep nothing but the evidence of a quiet run
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc in (0, 1) else 2


sys.exit(main())
