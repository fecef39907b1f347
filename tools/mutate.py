#!/usr/bin/env python3
"""Mutation sweep used while developing the checks (no check depends on it).
mutate.py gen OUT.jsonl [MAXPERFILE]         list mutants of the library's sources, each with the properties anchored at its file
mutate.py run LIST.jsonl RESULT.jsonl K N    worker K of N; runs in its own mount namespace over copies of /repo and /verif
A survivor (no check fails, the repository's stable tests pass) is recorded with status SURVIVED."""
import json, os, random, re, subprocess, sys
EXTRA = {  # files that are not anchors of a property, and those that several properties reach
 "dal/currency/currency.hpp": ["P29"], "dal/curve/discount.cpp": ["P11", "P07"], "dal/curve/yc.cpp": ["P11"], "dal/curve/yccomponent.cpp": ["P11"], "dal/indice/fixings.hpp": ["P28"],
 "dal/indice/index.hpp": ["P28"], "dal/indice/index/ir.hpp": ["P28"], "dal/math/aad/aad.cpp": ["P17", "P18"], "dal/math/aad/sample.hpp": ["P24", "P25"], "dal/math/cell.hpp": ["P06"],
 "dal/math/cellutils.cpp": ["P06", "P07"], "dal/math/interp/interp2d.cpp": ["P10"], "dal/math/matrix/banded.hpp": ["P12"], "dal/math/operators.hpp": ["P09"], "dal/math/ndarray.cpp": ["P09"],
 "dal/model/utilities.hpp": ["P26"], "dal/model/factory.hpp": ["P24", "P25"], "dal/protocol/underlying.hpp": ["P29"], "dal/risk/slide.hpp": ["P24"], "dal/storage/bag.cpp": ["P07"], "dal/storage/box.cpp": ["P07"],
 "dal/time/dateincrement.hpp": ["P04"], "dal/time/holidaydata.hpp": ["P03"], "dal/time/holidays.hpp": ["P03"], "dal/utilities/composite.hpp": ["P04"], "dal/utilities/environment.cpp": ["P28"],
 "dal/utilities/facts.hpp": ["P29"], "dal/utilities/file.cpp": ["P07"], "dal/utilities/maps.hpp": ["P06", "P28"], "dal/utilities/numerics.cpp": ["P09"], "public/src/interp.cpp": ["P08"], "public/src/models.cpp": ["P25"],
 "public/src/random.cpp": ["P15"], "public/src/script.cpp": ["P25"], "dal/script/visitor/debugger.hpp": ["P19"], "dal/script/nodebase.hpp": ["P19", "P20"], "dal/script/visitor.hpp": ["P19"],
 "dal/math/random/base.hpp": ["P15"], "dal/math/distribution/base.hpp": ["P13"], "dal/math/interp/interpcubic.hpp": ["P10"], "dal/math/smooth.hpp": ["P14"], "dal/math/matrix/squarematrix.hpp": ["P09"],
 "dal/utilities/exceptions.cpp": ["P31"], "dal/utilities/exceptions.hpp": ["P31"], "dal/math/pde/pde.hpp": ["P16"], "dal/math/pde/finitedifference.hpp": ["P16"], "dal/math/matrix/sparse.hpp": ["P12"], "dal/math/matrix/matrixutils.hpp": ["P09"],
}
def fileprops():
    m = {}
    for l in open("/verif/properties.jsonl"):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            m.setdefault(f, []).append(p["id"])
    known = {json.loads(l)["id"] for l in open("/verif/properties.jsonl")}
    for f, ps in EXTRA.items():
        for p in ps:
            if p in known and p not in m.setdefault(f, []):
                m[f].append(p)
    return {f: p for f, p in m.items() if p and os.path.isfile("/repo/" + f)}
OPS = [(r"(?<=[\w\)\] ])<(?=[ ])(?! *class)", "<="), (r"<=(?= )", "<"), (r" >(?= )", " >="), (r">=(?= )", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\(\s,])!(?=[\w\(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
       (r"(?<![\w.\"'])0(?![\w.\"'])", "1"), (r"(?<![\w.\"'])1(?![\w.\"'])", "0"), (r"(?<![\w.\"'])1(?![\w.\"'])", "2"), (r"(?<![\w.\"'])2(?![\w.\"'])", "1"), (r"(?<![\w.\"'])([3-9]|[1-9]\d+)(?![\w.\"'])", lambda m: str(int(m.group(1)) + 1)),
       (r"(?<![\w.])(\d+\.\d+)(?![\w.])", lambda m: repr(float(m.group(1)) * 1.01 + (1 if float(m.group(1)) == 0 else 0))), (r"\.begin\(\)", ".end()"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"),
       (r"(?<=\w)\(([a-z]\w*), ([a-z]\w*)\)", lambda m: "(%s, %s)" % (m.group(2), m.group(1)) if m.group(1) != m.group(2) else m.group(0))]
def mutants(f, limit, rng):
    raw = open("/repo/" + f, newline="").read(); nl = "\r\n" if "\r\n" in raw else "\n"; lines = raw.split(nl); out = []; block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if block:
            if "*/" in s or "-IF---" in s: block = False
            continue
        if s.startswith("/*"):
            block = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("using ") or s.startswith("template") or s.startswith("static_assert") or s.startswith("NOT") or s.startswith("namespace"): continue
        code = re.sub(r"//.*", "", l); code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x00" * (len(m.group(0)) - 2) + '"', code)
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = rep(m) if callable(rep) else rep
                if new == m.group(0): continue
                out.append((i, l[:m.start()] + new + l[m.end():]))
        if re.match(r"^(REQUIRE|[\w\.\->\[\]\(\)\*]+(\.|->)?\w*\(.*\)|[\w\.\->\[\]\(\)\*]+ [-+*/]?= .*|\+\+\w+|return);$", s) and not s.startswith(("return ", "case", "default", "const ", "auto ")):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)(?: \{)?)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out.append((i, l[:m.start(2)] + "false && (" + l[m.start(2):m.end(2)] + ")" + l[m.end(2):])); out.append((i, l[:m.start(2)] + "true || (" + l[m.start(2):m.end(2)] + ")" + l[m.end(2):]))
        if re.match(r"^return .*;$", s) and re.search(r"\b(double|int|T_|Number_)\b", code) : pass
    seen = set(); out = [x for x in out if not (x in seen or seen.add(x)) and x[1] != lines[x[0]]]
    if len(out) > limit: out = rng.sample(out, limit)
    return out
def gen(path, limit, files=None):
    rng = random.Random(20261118); fp = fileprops(); res = []
    for f in sorted(fp):
        if files and f not in files: continue
        for i, new in mutants(f, limit, rng): res.append({"file": f, "line": i, "new": new, "props": fp[f]})
    rng.shuffle(res)
    with open(path, "w") as o:
        for k, r in enumerate(res): r["id"] = k; o.write(json.dumps(r) + "\n")
    print(len(res), "mutants over", len(set(r["file"] for r in res)), "files")
def sh(c, t, env=None):
    try: r = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, errors="replace", env=env); return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, ""
def run(lst, outp, k, n):   # already inside the namespace
    env = dict(os.environ, VERIF_SEED="1", VERIF_JOBS="3"); done = set()
    if os.path.exists(outp): done = {json.loads(l)["id"] for l in open(outp)}
    todo = [json.loads(l) for l in open(lst)]; base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for m in todo:
        if m["id"] % n != k or m["id"] in done: continue
        p = "/repo/" + m["file"]; raw = open(p, newline="").read(); nl = "\r\n" if "\r\n" in raw else "\n"; lines = raw.split(nl); m["old"] = lines[m["line"]]; lines[m["line"]] = m["new"]
        open(p, "w", newline="").write(nl.join(lines)); m["status"] = "SURVIVED"; ans = []
        try:
            for q in m["props"]:
                rc, o = sh("python3 /verif/check %s quick" % q, 400, env)
                if rc == 1: m["status"] = "caught"; m["by"] = q; break
                if rc == 2 and "cannot build" in o: m["status"] = "nobuild"; break
                if rc not in (0, 1): ans.append((q, rc))
            if m["status"] == "SURVIVED":
                rc, o = sh("bash /opt/vp/build.sh", 600)
                if rc: m["status"] = "nobuild"
                else:
                    sh("bash /opt/vp/test.sh /tmp/mut/t%d.json" % k, 120)
                    try: got = set(json.load(open("/tmp/mut/t%d.json" % k))["passed"])
                    except Exception: got = set()
                    miss = [t for t in base if t not in got]
                    if miss: m["status"] = "tests"; m["missing"] = miss[:3]
            if ans: m["noanswer"] = ans
        finally: open(p, "w", newline="").write(raw)
        with open(outp, "a") as o: o.write(json.dumps(m) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 40, sys.argv[4:] or None)
    else: run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
