#!/usr/bin/env python3
"""Mutation campaign used while strengthening the checks (not a check itself).

usage: mutate.py gen OUT.jsonl [per_file]      list single-token mutants of the library sources
       mutate.py run MUTANTS.jsonl RESULTS.jsonl WORKDIR [part/parts]
Each mutant is applied in a scratch copy of the repository below WORKDIR, the stable tests are run and,
when they pass, the explorers are rebuilt against the copy and run until one reports a violation.
"""
import json, os, re, random, shutil, subprocess, sys, hashlib, time

FILES = """core/math/base_math.rs core/math/circle_circle_intersect.rs core/math/line_circle_intersect.rs
core/math/line_line_intersect.rs core/math/vector2.rs core/traits/fuzzy_eq.rs core/traits/fuzzy_ord.rs core/traits/real.rs
polyline/internal/pline_boolean.rs polyline/internal/pline_intersects.rs polyline/internal/pline_offset.rs
polyline/pline.rs polyline/pline_seg.rs polyline/pline_seg_intersect.rs polyline/pline_types.rs
polyline/pline_vertex.rs polyline/pline_view.rs polyline/traits.rs shape_algorithms/mod.rs""".split()
FILES = ["cavalier_contours/src/" + f for f in FILES] + ["cavalier_contours_ffi/src/lib.rs"]
UI = """app.rs plotting/mod.rs plotting/plines.rs plotting/raw_pline_offset_segs.rs scenes/demo_scenes_pane.rs scenes/mod.rs
scenes/multi_pline_offset_scene.rs scenes/pline_boolean_scene.rs scenes/pline_offset_scene.rs""".split()
FILES += ["cavalier_contours_ui/src/" + f for f in UI]
CRATES = ("mc", "mc_serde", "mc_ui")
crate_of = lambda pr: {"P27": "mc_serde", "P28": "mc_ui", "P29": "mc_ui"}.get(pr, "mc")
RULES = [
    (r" < ", [" > ", " <= "]), (r" > ", [" < ", " >= "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"T::zero\(\)", ["T::one()"]), (r"T::one\(\)", ["T::zero()"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"\(!", ["("]),
    (r"\bpoint1\b", ["point2"]), (r"\bv1\b", ["v2"]), (r"\bu1\b", ["u2"]), (r"\bt0\b", ["t1"]),
    (r"start_index1", ["start_index2"]), (r"fuzzy_lt", ["fuzzy_gt"]), (r"fuzzy_gt", ["fuzzy_lt"]),
    (r"\b1\b", ["2", "0"]), (r"\b0\b", ["1"]), (r"next_wrapping_index", ["prev_wrapping_index"]),
    (r"bulge_is_neg", ["bulge_is_pos"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"= -", ["= "]), (r"\(-", ["("]), (r"\.abs\(\)", [""]), (r"updated_start", ["split_vertex"]),
    (r"Control::Continue", ["Control::Break(())"]), (r"\.skip\(1\)", [""]),
]

def gen(out, per_file):
    rnd = random.Random(int(os.environ.get("SEED", "7")))
    res = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        cands, skip_assert, in_test = [], 0, False
        for n, l in enumerate(lines):
            s = l.strip()
            if "#[cfg(test)]" in l:
                in_test = True
            if in_test:
                continue
            if "debug_assert" in l:
                skip_assert = 1
            if skip_assert:
                if s.endswith(");"):
                    skip_assert = 0
                continue
            if s.startswith(("//", "pub fn", "fn ", "impl", "use ", "#[", "pub struct", "where")) or "->" in s:
                continue
            code = l.split("//")[0]
            for pat, subs in RULES:
                for m in re.finditer(pat, code):
                    for sub in subs:
                        new = l[:m.start()] + sub + l[m.end():]
                        cands.append((n, l, new))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "break", ")", ".")) and s.count("(") == s.count(")"):
                cands.append((n, l, re.match(r"\s*", l).group() + "/* removed */"))
        rnd.shuffle(cands)
        for n, old, new in cands[:per_file]:
            res.append({"id": hashlib.sha1(f"{f}{n}{new}".encode()).hexdigest()[:8], "file": f, "line": n + 1, "old": old, "new": new})
    rnd.shuffle(res)
    with open(out, "w") as o:
        for r in res:
            o.write(json.dumps(r) + "\n")
    print(len(res))

ORDER = os.environ.get("PROPS", "P26 P20 P15 P23 P18 P17 P16 P11 P10 P09 P19 P14 P13 P21 P22 P27 P24 P06 P08 P07 P04 P12 P03 P05 P25 P01 P02").split()

BY_FILE = {  # the checks that exercise a file most directly, cheapest first
    "plotting": "P28 P29", "_ui/": "P29", "ffi": "P22 P21 P24", "shape_alg": "P08 P24", "pline_view": "P19 P24 P06 P08 P04 P01 P25 P02",
    "pline_offset": "P24 P06 P08 P07 P04 P05 P25", "pline_boolean": "P24 P03 P25 P02 P01",
    "pline_intersects": "P13 P12 P24 P06 P08 P03 P04 P25 P02 P01", "pline_seg_intersect": "P14 P13 P12 P24 P06 P08 P03 P01",
    "pline_seg.rs": "P15 P23 P11 P10 P14 P17 P18 P24 P12 P06 P03", "traits.rs": "P20 P16 P17 P18 P09 P10 P11 P23 P19 P13 P12 P24 P15 P22 P08 P25",
    "base_math": "P26 P15 P14 P09 P18 P16 P17 P24 P06 P12", "_intersect.rs": "P14 P26 P24 P06 P08", "vector2": "P26 P15 P24 P08",
    "fuzzy": "P26 P14 P20 P30", "real.rs": "P26 P30 P24 P14", "pline.rs": "P20 P19 P24", "pline_vertex": "P20 P26 P24", "pline_types": "P20 P13 P02 P06 P24",
}

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""

def run(muts, results, work, part):
    k, n = map(int, part.split("/"))
    w = f"{work}/{k}"
    repo, ver = w + "/repo", w + "/verif"
    if not os.path.exists(repo):
        os.makedirs(w, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["cp", "-a", "/verif", ver], check=True)
    else:
        for c in CRATES:
            subprocess.run(f"rsync -a --exclude target /verif/{c}/ {ver}/{c}/ 2>/dev/null || cp -a /verif/{c}/src /verif/{c}/Cargo.* {ver}/{c}/", shell=True)
        subprocess.run(f"cd {repo} && git fetch -q /repo && git checkout -qf FETCH_HEAD && git clean -fdq", shell=True)
    for c in CRATES:
        p = f"{ver}/{c}/Cargo.toml"
        s = open(p).read().replace('"/repo/', f'"{repo}/')
        open(p, "w").write(s)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="")
    env.pop("RUSTFLAGS")
    done = set()
    if os.path.exists(results):
        done = {json.loads(l)["id"] for l in open(results)}
    for i, l in enumerate(open(muts)):
        m = json.loads(l)
        if i % n != k or m["id"] in done:
            continue
        t0 = time.time()
        if "patch" in m:
            rc, out = sh(f"git apply {m['patch']}", 30, cwd=repo)
            assert rc == 0, out
        else:
            p = f"{repo}/{m['file']}"
            src = open(p).read().split("\n")
            at = [n for n, x in enumerate(src) if x == m["old"]]  # the nearest one, lines move with fixes
            if not at:
                continue
            src[min(at, key=lambda n: abs(n - m["line"] + 1))] = m["new"]
            open(p, "w").write("\n".join(src))
        res = {"id": m["id"], "props": {}}
        rc, out = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 4", 240, cwd=repo, env=env)
        if "error: could not compile" in out or "error[" in out:
            res["verdict"] = "nocompile"
        elif rc != 0:
            res["verdict"] = "tests"
        else:
            res["verdict"] = "survived"
            props = m.get("props") or next((v.split() for k, v in BY_FILE.items() if k in m.get("file", "")), ORDER)
            ok = True
            for c in sorted({crate_of(x) for x in props}):
                rc, out = sh("cargo build --release --offline", 300, cwd=f"{ver}/{c}",
                             env=dict(env, RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0"))
                ok = ok and rc == 0
            if not ok:
                res["verdict"] = "nobuild"
            else:
                for pr in props:
                    b = crate_of(pr)
                    if pr == "P25" and not os.path.exists(f"{ver}/mc/src/chain.rs"):
                        continue
                    rc, out = sh(f"./{b}/target/release/{b} {pr} quick", 600, cwd=ver,
                                 env=dict(os.environ, VERIF_ROOT=ver, MC_MAX_FAIL="1", MC_THREADS=os.environ.get("MC_THREADS", "4")))
                    res["props"][pr] = rc
                    if rc != 0:
                        res["verdict"] = "killed" if "VIOLATION property=" + pr in out else "broken"
                        res["first"] = next((x for x in out.split("\n") if x.startswith("VIOLATION")), out[-300:])
                        if not m.get("all"):
                            break
        res["secs"] = round(time.time() - t0)
        sh("git checkout -q -- .", 30, cwd=repo)
        with open(results, "a") as o:
            o.write(json.dumps({**m, **res}) + "\n")

if sys.argv[1] == "gen":
    gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 40)
else:
    run(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else "0/1")
