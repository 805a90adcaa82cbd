#!/usr/bin/env python3
"""Development aid: automatic mutants of /repo that survive its tests, against the native workers.

mutate.py OUT.jsonl [--only SUBSTR] [--share k/n] : works in /tmp/mut<k>, never in /repo.
"""
import json, os, re, shutil, subprocess, sys, random

out = sys.argv[1]
only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
k, n = map(int, (sys.argv[sys.argv.index("--share") + 1] if "--share" in sys.argv else "0/1").split("/"))
W = "/tmp/mut%d" % k
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
SKIP = ("planar/properties/", "planar/relation/", "README")
RULES = [
 (r" <= ", [" < "]), (r" < ", [" <= ", " > "]), (r" >= ", [" > "]), (r" > ", [" >= ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
 (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bmin(\d?)\b(?!\()", [r"max\1"]), (r"\bmax(\d?)\b(?!\()", [r"min\1"]),
 (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\b0\b", ["1"]), (r"\b1\b", ["2", "0"]), (r"\b2\b", ["1", "3"]), (r"\b3\b", ["2"]), (r"\b4\b", ["3", "5"]), (r"::zero\(\)", ["::one()"]), (r"::one\(\)", ["::zero()"]),
 (r"if !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"!(?=[a-z(])", [""]), (r"\.all\(", [".any("]), (r"\.any\(", [".all("]),
 (r"\bfirst\b", ["last"]), (r"\blast\b", ["first"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\?;$", [".ok();"]),
 (r"\bLeft\b", ["Right", "On"]), (r"\bRight\b", ["Left", "On"]), (r"\bself\b(?=\.)", ["other"]), (r"\bother\b(?=\.)", ["self"]), (r"\bnode1\b", ["node2"]), (r"\bnode2\b", ["node1"]), (r"\bchildren1\b", ["children2"]),
 (r"\bSome\([^()]*\)$", ["None"]), (r"\.skip\(1\)", [""]), (r"\.rev\(\)", [""]), (r"\.sort\w*\(.*\);$", [".len();"]), (r"\.dedup\(\);", [".len();"]), (r"\bOk\(\(\)\)", ['Err("x")']), (r'^(\s*)return Err\([^;]*\);', [r"\1();"]), (r"\bu32\b", ["u16"]), (r"\busize\b", ["u16"]),
 (r"\bInside\b", ["Outside"]), (r"\bOutside\b", ["Inside"]), (r"\bi \+ 1\b", ["i"]), (r"\bpush_back\b", ["push_front"]), (r"\bpush_front\b", ["push_back"]), (r"\bpop_back\b", ["pop_front"]), (r"\bpop_front\b", ["pop_back"]),
 (r"^(\s+)(?!let |return|use |pub |fn |//|\*|/\*|for |while |if |match |\}|\))([a-z_.*]+[^=]*;)$", [r"\1();"]),
]

def mutants():
    res = []
    root = "/repo/src"
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".rs") or any(s in p for s in SKIP) or only not in p:
                continue
            lines = open(p).read().split("\n")
            for i, l in enumerate(lines):
                if l.startswith("#[cfg(test)]"):
                    break
                s = l.strip()
                if s.startswith(("//", "*", "/*", "use ", "#[", "mod ", "pub mod")):
                    continue
                seen = set()
                for pat, reps in RULES:
                    for m in re.finditer(pat, l):
                        for r in reps:
                            new = l[:m.start()] + m.expand(r) + l[m.end():]
                            if new != l and new not in seen:
                                seen.add(new)
                                res.append((os.path.relpath(p, "/repo"), i, l, new))
    random.Random(5).shuffle(res)
    return res

def run(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def setup():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    shutil.copytree("/verif/harness", W + "/harness", ignore=shutil.ignore_patterns("target"))
    t = open(W + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % W).replace('"../../repo"', '"%s/repo"' % W)
    open(W + "/harness/Cargo.toml", "w").write(t)

IDS = os.environ.get("IDS", "").split(",") if os.environ.get("IDS") else ["C%02d" % i for i in range(1, 27) if i not in (23,)] + ["C23"]
FIRST = [("flatbush", "C01 C02 C03 C04 C05"), ("segment", "C08 C09 C10"), ("primitives/envelope", "C06 C07 C25"), ("primitives/position", "C09 C06 C15 C11"), ("linear", "C07"),
         ("loop_relation", "C13 C14 C16"), ("convex_hull", "C17"), ("triangle", "C09"), ("types/", "C18 C19 C20 C25 C24"), ("validation", "C10 C12 C13 C14 C15 C11"), ("wkt", "C21 C22"), ("coordinate", "C09 C06")]
FRAC = int(os.environ.get("FRAC", "6"))

def main():
    setup()
    ms = mutants()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    print(len(ms), "mutants", flush=True)
    table = dict(re.findall(r'id: "(C\d\d)",\s*quick: ([\d_]+)', "".join(open(os.path.join("/verif/harness/src/props", f)).read() for f in os.listdir("/verif/harness/src/props"))))
    for j, (f, i, old, new) in enumerate(ms):
        if j % n != k or (f, i, new) in done:
            continue
        src = open(os.path.join("/repo", f)).read().split("\n")
        src[i] = new
        open(os.path.join(W, "repo", f), "w").write("\n".join(src))
        rec = dict(file=f, line=i, old=old.strip(), new=new)
        try:
            c, o = run(["cargo", "test", "--workspace", "--offline", "--", "--test-threads", "2"], W + "/repo", 60)
            if c != 0:
                rec["by"] = "compiler" if "could not compile" in o else "tests"
                continue
            c, o = run(["cargo", "build", "--release", "--locked", "-j2"], W + "/harness")
            if c != 0:
                rec["by"] = "harness build"
                continue
            rec["by"] = None
            first = [p for key, p in FIRST if key in f]
            for pid in sum((p.split() for p in first), []) + [p for p in IDS if p not in " ".join(first)]:
                work = W + "/work"
                os.makedirs(work, exist_ok=True)
                try: os.remove(work + "/result.json")
                except FileNotFoundError: pass
                cases = max(1000, int(table[pid].replace("_", "")) // FRAC)
                c, o = run(["prlimit", "--as=6000000000", "target/release/magog-monitor", "run", pid, "--seed", "3", "--work", work, "--threads", "2", "--cases", str(cases), "--cap", "30"], W + "/harness", 150)
                if c != 0 or not os.path.exists(work + "/result.json"):
                    rec["by"] = pid + " crash %s" % c
                    break
                r = json.load(open(work + "/result.json"))
                if r["violations"]:
                    rec["by"] = pid
                    break
                if r["harness"]:
                    rec["by"] = pid + " HARNESS"
                    rec["msg"] = r["harness"][0]["message"][:300]
                    break
        finally:
            shutil.copy(os.path.join("/repo", f), os.path.join(W, "repo", f))
            os.utime(os.path.join(W, "repo", f))
            with open(out, "a") as g:
                g.write(json.dumps(rec) + "\n")

main()
