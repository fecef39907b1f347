"""helper: mk(id, prop, [(file, old, new)...], needs, breaks, demo_body[, headers]) writes /verif/seeded/<id>/ from /repo's HEAD."""
import json, os, subprocess, tempfile, shutil
SEED = "/verif/seeded"
SH = '''#!/bin/bash
# builds the program beside this file against the library in /repo; its exit status is the answer
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 9
g++ -std=c++17 -O2 -march=x86-64-v2 -DNDEBUG -w -I/repo "$D/demo.cpp" -o "$T/demo" /repo/_build/public/src/libdal_public.a /repo/_build/dal/libdal.a -lpthread -Wl,--defsym=_ZN3Dal8NewSobolEimb=0 || exit 9
timeout 240 "$T/demo"
'''
def mk(id, prop, edits, needs, breaks, headers, body, pre=""):
    d = os.path.join(SEED, id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x" % (t, t), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(t, f); s = open(p, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    shutil.rmtree(t)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    inc = "".join("#include <%s>\n" % h for h in headers)
    open(d + "/demo.cpp", "w").write("#include <dal/platform/platform.hpp>\n" + inc + "#include <cstdio>\n#include <cmath>\nusing namespace Dal;\n" + pre +
        "\nint main() {\n    int bad = 0;\n    auto expect = [&](bool ok, const char* what) { if (!ok) { ++bad; std::printf(\"FAILED: %s\\n\", what); } };\n" + body + "\n    return bad ? 1 : 0;\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
