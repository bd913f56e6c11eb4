#!/usr/bin/env python3
"""Mutation analysis of the checks: mutate.py OUT.jsonl [--files a,b] [--max N] [--seconds S] [--shard i/n]

Generates small mutants of the library, drops those that do not build or that the repository's tests kill, and runs every
check for S seconds on one worker against the rest. Survivors are listed for inspection. Works on scratch copies only.
"""
import argparse, concurrent.futures as cf, json, os, re, random, shutil, signal, subprocess, sys, tempfile, threading, time
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--files", default="")
ap.add_argument("--max", type=int, default=10**9)
ap.add_argument("--seconds", type=int, default=3)
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--only", default="", help="redo the mutants with this id list")
A = ap.parse_args()
PROPS = ["C%02d" % i for i in range(1, 20)]
ENV = dict(os.environ, RUSTFLAGS="--cap-lints warn", RUSTDOCFLAGS="--cap-lints warn", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_BUILD_JOBS="2")

SUBS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" > ", [" >= ", " < "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| (?!\|)", [" & "]),
    (r"\bas u64\b", ["as u32 as u64", "as u16 as u64"]), (r"\bas i64\b", ["as i32 as i64"]), (r"\bas usize\b", ["as u16 as usize"]), (r"\bas u32\b", ["as u16 as u32"]),
    (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".len() == 1"]),
    (r"\.rev\(\)", [""]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]), (r"\.take\(\)", [".clone()"]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().take(1)", ".iter().rev()"]),
    (r"\bSeekFrom::Current\b", ["SeekFrom::Start"]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
    (r"\bread_exact\b", ["read"]), (r"\bwrite_all\b", ["write"]), (r"if let Some\((\w+)\) = (.*) \{$", ["if let (false, Some(\\1)) = (true, \\2) {"]),
    (r"\bfind_map\(", ["filter_map("]), (r"\.next\(\)", [".last()"]), (r"\bfirst\(\)", ["last()"]), (r"\blast\(\)", ["first()"]),
    (r"\?;$", [".ok();", ".unwrap();"]), (r"\bto_be_bytes\b", ["to_le_bytes"]), (r"\bfrom_be_bytes\b", ["from_le_bytes"]),
    (r"\.push\(", [".insert(0, "]), (r"\.extend\(", [".splice(0..0, "]), (r"\bfile\b\.set_len\((.*)\)\?;", [""]), (r"\.retain\(", [".drain(..).filter("]),
    (r"\bUtf8\b", ["Utf16"]), (r"\bJpeg\b", ["Png"]), (r"\bBeSigned\b", ["Reserved"]),
]
NUM = re.compile(r"(?<![\w.])(\d+)(?![\w.]|\s*=>)")


def mutants(repo):
    res = []
    files = A.files.split(",") if A.files else sorted(
        os.path.relpath(os.path.join(d, f), repo) for d, _, fs in os.walk(repo + "/src") for f in fs if f.endswith(".rs"))
    for f in files:
        lines = open(os.path.join(repo, f)).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                break
            if re.search(r"writeln!|write!|format_|format!|Fourcc\(\*|description", s) or "readonly" in f or "error.rs" in f:
                continue  # rendering and messages
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "extern ")):
                continue
            seen = set()

            def add(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    res.append({"file": f, "line": i + 1, "old": s, "new": new.strip(), "full": new, "what": what})
            code = l.split("//")[0] if '"' not in l else l
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    # type positions of generics and pattern bars are weeded out by the compiler
                    for r in reps:
                        add(l[:m.start()] + m.expand(r) + l[m.end():], pat)
            for m in NUM.finditer(code):
                n = int(m.group(1))
                for v in {n + 1, n - 1} - {-1}:
                    add(l[:m.start()] + str(v) + l[m.end():], "number")
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "const", "pub ", "static", "type", "fn")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                add(l[:len(l) - len(l.lstrip())] + "{}" + ";", "delete")
            m = re.match(r"^(\s*(?:\} else )?if )(.*)( \{)$", l)
            if m and not m.group(2).startswith("let"):
                add(m.group(1) + "true || " + "(" + m.group(2) + ")" + m.group(3), "if true")
                add(m.group(1) + "false && " + "(" + m.group(2) + ")" + m.group(3), "if false")
    return res


def run(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -99, ""


def setup(k):
    W = tempfile.mkdtemp(prefix="mut-w%d-" % k)
    subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
    os.makedirs(W + "/repo/target")
    shutil.copytree("/verif/sim", W + "/sim", ignore=shutil.ignore_patterns("target*"))
    p = W + "/sim/Cargo.toml"
    s = open(p).read().replace('"/repo"', '"%s/repo"' % W)
    open(p, "w").write(s)
    return W


def job(W, m):
    f = os.path.join(W, "repo", m["file"])
    orig = open(f).read()
    lines = orig.split("\n")
    lines[m["line"] - 1] = m["full"]
    open(f, "w").write("\n".join(lines))
    try:
        rc, out = run(["cargo", "build", "--offline", "--lib", "--target-dir", W + "/t0"], W + "/repo", 200)
        if rc != 0:
            return "nobuild", ""
        rc, out = run(["cargo", "test", "--offline", "--lib", "--tests", "--target-dir", W + "/t0", "--", "--test-threads", "2"], W + "/repo", 60)
        if rc != 0:
            return "tests", ""
        rc, out = run(["cargo", "build", "--offline", "--profile", "checked", "--target-dir", W + "/t1"], W + "/sim", 400)
        if rc != 0:
            return "sim-nobuild", out[-300:]
        b = W + "/t1/checked/sim"
        for p in PROPS:
            d = tempfile.mkdtemp(prefix="r", dir=W)
            open(d + "/bound", "wb").write(b"\xff" * 8)
            err = open(d + "/err", "w")
            pr = subprocess.Popen([b, "worker", p, "1", "0", "1", "100000000", str(A.seconds), d, "0", ""], stdout=subprocess.DEVNULL, stderr=err, cwd=d)
            try:
                rc = pr.wait(A.seconds + 60)
            except subprocess.TimeoutExpired:
                pr.kill(); pr.wait(); rc = 97
            cls = ""
            if rc == 1 and os.path.exists(d + "/viol.0"):
                cls = json.load(open(d + "/viol.0"))["class"]
            elif rc not in (0, 97) and rc > 0:
                cls = "exit%d" % rc
            shutil.rmtree(d, ignore_errors=True)
            if rc != 0:
                return p, cls
        return "SURVIVED", ""
    finally:
        open(f, "w").write(orig)


def main():
    base = setup(99)
    ms = mutants(base + "/repo")
    shutil.rmtree(base)
    random.Random(A.seed).shuffle(ms)
    ms = ms[:A.max]
    done = set()
    if os.path.exists(A.out):
        for l in open(A.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["full"]))
    ms = [m for m in ms if (m["file"], m["line"], m["full"]) not in done]
    print(len(ms), "mutants to do", flush=True)
    lock = threading.Lock()
    it = iter(ms)
    out = open(A.out, "a")

    def worker(k):
        W = setup(k)
        try:
            while True:
                with lock:
                    m = next(it, None)
                if m is None or os.path.exists("/tmp/mut/stop"):
                    return
                t = time.time()
                try:
                    v, c = job(W, m)
                except Exception as e:
                    v, c = "ERROR", repr(e)
                with lock:
                    out.write(json.dumps(dict(m, verdict=v, cls=c, secs=round(time.time() - t, 1))) + "\n")
                    out.flush()
        finally:
            shutil.rmtree(W, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(A.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
