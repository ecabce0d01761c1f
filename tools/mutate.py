#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).
mutate.py list [FILE..]          -> number of mutants per file
mutate.py run OUT NWORKERS THREADS [FILE..]  -> runs the mutants in scratch copies under /tmp/mut, appends to OUT
"""
import re, sys, os, subprocess, json, shutil, threading, queue, time
REPO = "/repo"
CHECKS = {
 "src/basis.rs": "C03 C02 C04 C09",
 "src/knot.rs": "C01 C02 C04 C05 C09",
 "src/curve.rs": "C08 C24 C22",
 "src/curve/bezier.rs": "C03 C22 C06",
 "src/curve/bspline.rs": "C04 C05 C16 C22 C06",
 "src/curve/circle.rs": "C06 C08 C22 C19 C16",
 "src/curve/line.rs": "C06 C22 C16",
 "src/curve/polyline.rs": "C07 C06 C22 C16 C19",
 "src/surface.rs": "C24 C11 C22 C12",
 "src/surface/plane.rs": "C10 C22 C12 C19",
 "src/surface/cylinder.rs": "C10 C22 C13 C19",
 "src/surface/bezier.rs": "C09 C11 C22",
 "src/surface/bspline.rs": "C09 C11 C22 C20 C13 C18 C23",
 "src/surface/spin.rs": "C10 C22", "src/surface/sweep.rs": "C10 C22", "src/surface/umbrella.rs": "C10 C22",
 "src/mesh.rs": "C11 C14 C18 C23 C22",
 "src/face.rs": "C11 C22 C12",
 "src/model.rs": "C14 C15 C16 C18 C23",
 "src/points.rs": "C17 C18 C23",
 "src/utils.rs": "C21 C07 C08 C06 C11 C20",
 "src/utils/point.rs": "C21 C20 C13 C12 C06",
 "src/utils/polygon.rs": "C21 C12 C13 C22",
 "src/utils/meshgen.rs": "C13 C22",
 "src/model/step_reader.rs": "C19",
 "src/lib.rs": "C09",
}
OPS = [
 (r"(?<![<>=\-&|])<(?![<=A-Za-z(&'\[])", ["<="]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" < ", [" <= ", " > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
 (r" \+ 1\b", [""," + 2"]), (r" - 1\b", [""," - 2"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]),
 (r"(?<!\.)\b0\b(?!\.)", ["1"]), (r"(?<!\.)\b1\b(?!\.)", ["0", "2"]), (r"(?<!\.)\b2\b(?!\.)", ["1", "3"]), (r"\b3\b(?!\.)", ["2"]), (r"\b4\b(?!\.)", ["3"]),
 (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b2\.0\b", ["1.0", "3.0"]), (r"\b0\.5\b", ["0.4"]),
 (r"\b1e-(\d+)\b", ["1e-2", "0.0", "-1.0"]), (r"\bEPSILON\b", ["MAX"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"min_by", ["max_by"]),
 (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])", ["..="]),
 (r"\.rev\(\)", [""]), (r"\.skip\(\d+\)", [""]), (r"\.sin\(\)", [".cos()"]), (r"\.cos\(\)", [".sin()"]), (r"\.abs\(\)", [""]),
 (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.z\b", [".y"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
 (r"\.0\b(?!\.)", [".1"]), (r"(?<=[\w)])\.1\b", [".0"]), (r"\.floor\(\)", [".ceil()", ".round()"]), (r"\.ceil\(\)", [".floor()"]), (r"\.round\(\)", [".floor()"]),
 (r"\bif (?!let)([^{]+) \{", ["if true {", "if false {"]), (r"\bwhile (?!let)([^{]+) \{", ["while false {"]),
 (r"_u\b", ["_v"]), (r"_v\b", ["_u"]), (r"\bu\b", ["v"]), (r"\bv\b", ["u"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]),
 (r"\brow\b", ["col"]), (r"\bcol\b", ["row"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"\brows\(", ["cols("]), (r"\bcols\(", ["rows("]),
 (r"-(?=[a-z(])", [""]), (r"!(?=[a-z(])", [""]), (r"\.reverse\(\)", [".len()"]), (r"\.normalize\(\)", [""]),
 (r"TAU", ["PI"]), (r"PI\b", ["TAU"]), (r"\.try_normalize\(\)", [".map_id()"]), (r"\.cross\(", [".min("]), (r"u_axis", ["v_axis"]), (r"v_axis", ["u_axis"]),
 (r"\?;", [".ok();"]), (r"write_all", ["write"]), (r"\.flush\(\)\?", [""]), (r"is_some", ["is_none"]), (r"is_empty\(\)", ["is_empty() == false"]),
 (r"as f32", ["as i64 as f32"]), (r"\bprev\b", ["next"]), (r"\bnext\b(?!\()", ["prev"]), (r"push\(", ["insert(0, "]),
]
def mutants(f):
    src = open(os.path.join(REPO, f)).read().split("\n")
    out = []; seen = set()
    depth_test = False
    for n, line in enumerate(src):
        if "#[cfg(test)]" in line or "#[test]" in line: break
        s = line.strip()
        if s.startswith("//") or s.startswith("use ") or s.startswith("#[") or not s: continue
        code = line.split("//")[0] if '"' not in line else line
        cands = []
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    cands.append(line[:m.start()] + r + line[m.end():])
        if s.endswith(";") and not s.startswith("let ") and not s.startswith("pub ") and not s.startswith("return") and s != "};" :
            cands.append(re.match(r"\s*", line).group() + ";" if s.count("(")==s.count(")") and s.count("{")==s.count("}") else line)
        for c in cands:
            if c != line and (n, c) not in seen:
                seen.add((n, c)); out.append((f, n, line, c))
    return out
def worker(k, q, out, lock, threads):
    w = f"/tmp/mut/w{k}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["git", "-C", REPO, "archive", "HEAD", "-o", w + "/r.tar"], check=True)
    os.makedirs(w + "/repo"); subprocess.run(["tar", "xf", w + "/r.tar", "-C", w + "/repo"], check=True)
    shutil.copy(REPO + "/Cargo.lock", w + "/repo/Cargo.lock")
    os.makedirs(w + "/verif")
    shutil.copytree("/verif/vendor", w + "/verif/vendor")
    subprocess.run(["cp", "-a", "/verif/mc", w + "/verif/mc"], check=True)
    shutil.copy("/verif/known_findings.txt", w + "/verif/")
    t = w + "/verif/mc/Cargo.toml"; s = open(t).read().replace('"/repo"', f'"{w}/repo"').replace("incremental = false", "incremental = true"); open(t, "w").write(s)
    env = dict(os.environ, VERIF_DIR=w + "/verif", MC_THREADS=str(threads), MC_MAXFAIL="1", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS=str(threads + 1), TMPDIR=w)
    while True:
        try: f, n, old, new, forced = q.get_nowait()
        except queue.Empty: break
        p = w + "/repo/" + f
        orig = open(p).read(); lines = orig.split("\n"); assert lines[n] == old
        lines[n] = new; open(p, "w").write("\n".join(lines))
        t0 = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=w + "/verif/mc", env=env, capture_output=True)
        res = "?"
        if r.returncode != 0: res = "nobuild"
        else:
            res = "SURVIVED"
            for c in forced or CHECKS[f].split():
                try:
                    r = subprocess.run([w + "/verif/mc/target/debug/mc", "check", c, "quick"], env=env, capture_output=True, timeout=1500, cwd=w)
                    if r.returncode == 1: res = "killed " + c; break
                    if r.returncode != 0: res = f"ENGINE {c} {r.returncode}"; break
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + c; subprocess.run(["pkill", "-f", w + "/verif/mc/target/debug/mc"]); break
        open(p, "w").write(orig)
        with lock:
            with open(out, "a") as o: o.write(json.dumps([f, n + 1, old.strip(), new.strip(), res, round(time.time() - t0, 1)]) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "list":
        tot = 0
        for f in (sys.argv[2:] or CHECKS): 
            m = mutants(f); tot += len(m); print(f, len(m))
        print(tot)
    else:
        out, nw, th = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        done = set()
        if os.path.exists(out):
            for l in open(out):
                d = json.loads(l); done.add((d[0], d[1], d[2], d[3]))
        q = queue.Queue(); lock = threading.Lock()
        for f in (sys.argv[5:] or CHECKS):
            for m in mutants(f):
                if (m[0], m[1] + 1, m[2].strip(), m[3].strip()) not in done: q.put((*m, None))
        print(q.qsize(), "mutants")
        ts = [threading.Thread(target=worker, args=(k, q, out, lock, th)) for k in range(nw)]
        [t.start() for t in ts]; [t.join() for t in ts]
