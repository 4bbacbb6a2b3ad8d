#!/usr/bin/env python3
"""Development aid: sweeps first-order mutants of /repo's sources in scratch slots and reports
which ones build, pass the repository's tests and are missed by every check.
  mutate.py OUT.jsonl [jobs] [file-substring]"""
import json, os, random, re, subprocess, sys, shutil, threading, queue
OUT, JOBS, FILT = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6, sys.argv[3] if len(sys.argv) > 3 else ""
SRC = "/repo/src"
RULES = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=\w&'])", "<="), (r"(?<![>\-=])>(?![>=\w(;,{])", ">="), (r"==", "!="), (r"!=", "=="),
    (r" \+ ", " - "), (r" - ", " + "), (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"lower_bound\(\)", "upper_bound()"), (r"upper_bound\(\)", "lower_bound()"),
    (r"\.lower\b(?!_)", ".upper"), (r"\.upper\b(?!_)", ".lower"), (r"just_after\(\)", "just_before()"), (r"just_before\(\)", "just_after()"),
    (r"\.just_after\(\)", ""), (r"\.just_before\(\)", ""), (r"is_past_infinite", "is_future_infinite"), (r"is_future_infinite", "is_past_infinite"),
    (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!_)", "0"), (r"\b1\b(?!_)", "2"), (r"\b2\b", "1"), (r"Unchanged", "Propagated"), (r"(?<!::)Propagated", "Unchanged"),
    (r"Recovered", "Fatal"), (r"Fatal", "Recovered"), (r"\.rev\(\)", ""), (r"is_low_bounded", "is_up_bounded"), (r"is_up_bounded", "is_low_bounded"),
    (r" \* ", " + "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\(- ?", "("), (r"saturating_", "wrapping_"), (r"\bany\(", "all("), (r"\ball\((?=\|)", "any("),
    (r"\bself\b", "rhs"), (r"\brhs\b", "self"), (r"&=", "|="), (r"\|=", "&="), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\bSome\((\w+)\)$", "None"),
]
def mutants():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f); rel = os.path.relpath(p, "/repo")
            if FILT and FILT not in rel: continue
            lines = open(p).read().split("\n"); blk = False
            for n, l in enumerate(lines):
                if "#[cfg(test)]" in l: break
                s = l.strip()
                if s.startswith("/*"): blk = True
                if blk:
                    if "*/" in s: blk = False
                    continue
                if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("pub mod") or "debug_assert" in s: continue
                code = l.split("//")[0]
                for pat, rep in RULES:
                    for m in re.finditer(pat, code):
                        new = l[:m.start()] + m.expand(rep) + l[m.end():]
                        if new != l: out.append((rel, n, l, new))
                if s.endswith(";") and not re.match(r"(let|return|pub|const|type|}|\))", s): out.append((rel, n, l, ""))
    seen, u = set(), []
    for m in out:
        if m not in seen: seen.add(m); u.append(m)
    return u
PROPS = [f"C{i:02}" for i in range(1, 25)]
FIRST = {"graph/sched": ["C21", "C22"], "graph": ["C17", "C16", "C19", "C20"], "seq": ["C23"], "iter": ["C03"], "relns/contain": ["C05"], "relns/overlap": ["C05"], "relns/order": ["C06"], "ops/transl": ["C10"], "ops/scal": ["C11"], "ops": ["C01"], "wins/format": ["C15"], "wins/timevalue": ["C09", "C13", "C12", "C14"], "wins": ["C08", "C07"]}
def order(rel):
    for k, v in FIRST.items():
        if k in rel: return v + [p for p in PROPS if p not in v]
    return PROPS
q = queue.Queue(); lock = threading.Lock(); stat = {}
def sh(cmd, env, t):
    try: return subprocess.run(cmd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    except subprocess.TimeoutExpired: return None
def worker(k):
    slot = f"/tmp/mut/{k}"; os.makedirs(slot, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=slot + "/target", CARGO_NET_OFFLINE="true", VH_THREADS="1", VH_SCALE="0.03", CARGO_BUILD_JOBS="2")
    shutil.rmtree(slot + "/harness", True); os.makedirs(slot + "/harness")
    for f in ("Cargo.toml", "Cargo.lock"): shutil.copy("/verif/harness/" + f, slot + "/harness/" + f)
    shutil.copytree("/verif/harness/src", slot + "/harness/src")
    c = open(slot + "/harness/Cargo.toml").read().replace('"/repo"', f'"{slot}/repo"').split("[profile.release]")[0]
    open(slot + "/harness/Cargo.toml", "w").write(c + "[profile.dev]\ndebug=0\nincremental=true\n[profile.dev.package.proptest]\nopt-level=2\n[profile.dev.package.chronologic]\nopt-level=1\n")
    shutil.rmtree(slot + "/repo", True); shutil.copytree("/repo", slot + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    while True:
        try: rel, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = f"{slot}/repo/{rel}"; text = open(p).read(); ls = text.split("\n"); assert ls[n] == old; ls[n] = new
        open(p, "w").write("\n".join(ls)); r = "?"; by = None
        try:
            b = sh(f"cargo check --offline --manifest-path {slot}/repo/Cargo.toml --features serde", env, 300)
            if b is None or b.returncode: r = "nobuild"
            else:
                b = sh(f"cargo build --offline --manifest-path {slot}/harness/Cargo.toml", env, 600)
                if b is None or b.returncode: r = "nobuild-harness"
                else:
                    r = "missed"
                    for pr in order(rel):
                        x = sh(f"{slot}/target/debug/vh run {pr} --replays {slot}/replays", env, 400)
                        if x is None or x.returncode != 0: r = "caught" if x is not None and x.returncode == 1 else "error"; by = pr; break
                    if r == "missed":
                        t = sh(f"cargo test --offline --manifest-path {slot}/repo/Cargo.toml --lib", env, 600)
                        if t is None or t.returncode: r = "missed-but-tests-fail"
        finally: open(p, "w").write(text)
        with lock:
            stat[r] = stat.get(r, 0) + 1
            open(OUT, "a").write(json.dumps(dict(file=rel, line=n + 1, old=old.strip(), new=new.strip(), result=r, by=by)) + "\n")
            if r in ("missed", "error"): print(r, by or "", f"{rel}:{n+1}", old.strip(), "=>", new.strip(), flush=True)
done = set()
if os.path.exists(OUT):
    for l in open(OUT): x = json.loads(l); done.add((x["file"], x["line"], x["new"]))
ms = [m for m in mutants() if (m[0], m[1] + 1, m[3].strip()) not in done]
random.Random(5).shuffle(ms); print(len(ms), "mutants", flush=True)
for m in ms: q.put(m)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(JOBS)]
[t.start() for t in ts]; [t.join() for t in ts]; print(stat)
