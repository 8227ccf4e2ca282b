#!/usr/bin/env python3
"""Mutation experiment: small changes of the sources, one at a time, each judged by `mc sweep`.

  mutate.py list [FILE...]                 print the mutants
  mutate.py run LANES SECS OUT [FILTER]    run those whose id contains FILTER; results as JSON lines in OUT
Everything happens in private copies of /repo and /verif (mount namespaces)."""
import json, os, signal, re, subprocess, sys, shutil, hashlib

SRC = ["src/formatter/formatting.rs", "src/formatter/printing.rs", "src/parser/lexing.rs", "src/parser/parsing.rs",
       "src/parser/tree.rs", "src/parser/tokens.rs", "src/parser.rs", "src/lib.rs", "src/main.rs"]
PROPS = {"formatting": "0,23", "printing": "0,23", "lexing": "7,5,6,8,0,4", "parsing": "5,22,6,8,23,4,0", "tree": "22,0,23,5", "tokens": "7,5,0,6,22", "parser.rs": "7,5,0", "lib": "0,5,23", "main": ""}

def mutants(root, files):
    out = []
    for f in files:
        text = open(os.path.join(root, f)).read()
        stop = text.find("#[cfg(test)]")
        body = text if stop < 0 else text[:stop]
        lines = body.split("\n")
        pos = 0
        func = ""
        for n, l in enumerate(lines, 1):
            m = re.match(r"\s*(?:pub )?fn (\w+)", l)
            if m: func = m.group(1)
            code = l.split("//")[0] if '"' not in l else l
            def add(a, b, new, what):
                new_text = text[:pos + a] + new + text[pos + b:]
                out.append(dict(file=f, line=n, func=func, what=what, old=l.strip(), text=new_text))
            s = code.strip()
            ind = len(code) - len(code.lstrip())
            if s and not s.startswith(("#", "use ", "pub mod", "mod ", "fn ", "pub fn", "struct", "enum", "const")):
                # delete a statement
                if s.endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith(("let ", "return", "}", ")", ".", "type ")):
                    add(ind, len(code), ";", "delete")
                # conditions
                m = re.match(r"^(\s*(?:\} else )?(?:if|while) )(?!let )(.+) \{$", code)
                if m:
                    c = m.group(2)
                    st = m.start(2)
                    if "while" not in m.group(1):
                        add(st, st + len(c), f"true || ({c})", "cond true")
                    add(st, st + len(c), f"false && ({c})", "cond false")
                for a, bs in [("==", ["!="]), ("!=", ["=="]), (" > ", [" >= ", " < "]), (" < ", [" <= ", " > "]), (" >= ", [" > "]), (" <= ", [" < "]),
                              ("&&", ["||"]), ("||", ["&&"]), ("true", ["false"]), ("false", ["true"]), (" + 1", ["", " + 2"]), (" - 1", [""]), (" += 1", [" += 2", " -= 1"]), (" -= 1", [" += 1"]),
                              ("Blank::Required", ["Blank::Legal", "Blank::Illegal"]), ("Blank::Legal", ["Blank::Required", "Blank::Illegal"]),
                              ("Blank::Illegal", ["Blank::Legal", "Blank::Required"]), ("Marker::Space", ["Marker::Break"]), ("Marker::Break", ["Marker::Space", "Marker::Blank"]),
                              ("Marker::Blank", ["Marker::Break"]), ("start.line", ["end.line"]), ("end.line", ["start.line"]), (".any(", [".all("]), (".all(", [".any("]),
                              (".first()", [".last()"]), (".last()", [".first()"]), ("is_multiline", ["false", "true"]), ("is_wrapped", ["false", "true"]), ("is_nested", ["false", "true"]),
                              (".is_some()", [".is_none()"]), (".is_none()", [".is_some()"]), ("> 0", ["> 1"]), ("> 1", ["> 0", "> 2"]), (".peek()", [".next()"]), ("nth(0)", ["nth(1)"]), ("nth(1)", ["nth(2)", "nth(0)"]), ("nth(2)", ["nth(1)", "nth(3)"]),
                              (".min(", [".max("]), (".max(", [".min("]), (".rev()", [""]), ("|=", ["="]), ("is_some_and(", ["is_none_or("])]:
                    for m in re.finditer(re.escape(a), code):
                        before, after = code[:m.start()], code[m.end():]
                        if a in ("true", "false", "is_multiline", "is_wrapped", "is_nested"):
                            if re.search(r"\w$", before) or re.match(r"\w", after): continue
                            if re.match(r"\s*:[^:]", after) or re.search(r"let (mut )?$", before) or re.match(r"\s*=[^=]", after): continue
                        for b in bs:
                            add(m.start(), m.end(), b, f"{a.strip()} -> {b.strip()}")
                # negations
                for m in re.finditer(r"!(?=[\w(])", code):
                    if not re.search(r"\w$", code[:m.start()]):
                        add(m.start(), m.end(), "", "drop !")
                # alternatives and list items
                for m in re.finditer(r"\| (\w+::\w+)", code): add(m.start(), m.end(), "", f"drop {m.group(1)}")
                for m in re.finditer(r"(\w+::\w+) \| ", code): add(m.start(), m.end(), "", f"drop {m.group(1)}")
                m = re.match(r"^\s*(?:\| )?((?:ModelicaToken|SyntaxKind)::\w+),?$", code)
                if m: add(0, len(code), "", f"drop {m.group(1)}")
                for m in re.finditer(r"(?<=[\[ ])(ModelicaToken::\w+), ", code): add(m.start(), m.end(), "", f"drop {m.group(1)}")
                for m in re.finditer(r", (ModelicaToken::\w+)(?=\])", code): add(m.start(), m.end(), "", f"drop {m.group(1)}")
                for m in re.finditer(r"(ModelicaToken::)(\w+)", code):
                    for t in ("Semicolon" if m.group(2) != "Semicolon" else "Comma",):
                        if t != m.group(2): add(m.start(2), m.end(2), t, f"{m.group(2)} -> {t}")
                if "fn format" not in func and func != "parse":
                    for m in re.finditer(r"(SyntaxKind::)(\w+)", code):
                        if m.group(2) != "Error": add(m.start(2), m.end(2), "Error", f"{m.group(2)} -> Error")
                # arms
                m = re.match(r"^(\s*.+ => )(\w+\(.*\)),$", code)
                if m: add(m.start(2), m.end(2), "()", "arm does nothing")
                # characters
                for m in re.finditer(r"'(\\?.)'(?=\W)", code):
                    if "fn " not in code and m.group(1) != "a": add(m.start(1), m.end(1), "~", f"{m.group(1)} -> ~")
            pos += len(l) + 1
    seen = set()
    res = []
    for m in out:
        h = hashlib.sha1((m["file"] + m["text"]).encode()).hexdigest()[:8]
        if h in seen or m["text"] == open(os.path.join(root, m["file"])).read(): continue
        seen.add(h)
        m["id"] = f"{m['file'].split('/')[-1]}:{m['line']}:{h}"
        res.append(m)
    return res

def run(cmd, secs, **kw):
    """run a command, and kill all of its processes when the time is up"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=secs)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""

def lane(k, lanes, secs, out, filt):
    """inside the namespace"""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg mofmt_verif --cap-lints allow", CARGO_PROFILE_RELEASE_INCREMENTAL="true", MC_ROOT="/verif", CARGO_BUILD_JOBS="2")
    ms = [m for m in mutants("/repo", SRC) if not filt or re.search(filt, m["id"] + " " + m["func"] + " " + m["what"])]
    done = set()
    for fn in (os.environ.get("DONE") or out).split(","):
        if os.path.exists(fn): done |= {json.loads(l)["id"] for l in open(fn)}
    for i, m in enumerate(ms):
        if i % lanes != k or m["id"] in done: continue
        path = "/repo/" + m["file"]
        orig = open(path).read()
        open(path, "w").write(m["text"])
        r = dict(id=m["id"], func=m["func"], what=m["what"], old=m["old"])
        try:
            if m["file"] == "src/main.rs":
                e = {k: v for k, v in env.items() if k not in ("RUSTFLAGS", "CARGO_PROFILE_RELEASE_INCREMENTAL")}
                if run(["/verif/build.sh", "mc", "cli"], 300, env=e)[0]: r["res"] = "nocompile"
                else:
                    r["res"] = "survived"
                    for q in ["C21", "C19", "C20", "C18", "C17"]:
                        rc, text = run(["/verif/mc/target/mc/release/mc", "check", q, "quick"], 300, env=e)
                        if rc != 0:
                            r["res"], r["by"] = "killed", f"{q} {rc} {text[-200:]}"
                            break
            elif run(["cargo", "build", "-q", "--release", "--offline", "--features", "tree", "--manifest-path", "/verif/mc/Cargo.toml", "--target-dir", "/verif/mc/mut"], 300, env=env)[0]: r["res"] = "nocompile"
            else:
                props = next(v for kk, v in PROPS.items() if kk in m["file"])
                rc, text = run(["/verif/mc/mut/release/mc", "sweep", str(secs), props], 60 + 8 * secs * len(props.split(",")), env=env)
                kl = [l for l in text.split("\n") if l.startswith("KILLED")]
                if rc is None: r["res"], r["by"] = "killed", "timeout"
                elif kl: r["res"], r["by"] = "killed", kl[0][:300]
                elif rc or "SURVIVED" not in text: r["res"], r["by"] = "killed", f"crash {rc}"
                else: r["res"] = "survived"
            if r["res"] == "survived":
                rc, _ = run(["cargo", "test", "-q", "--offline", "--target-dir", "/verif/mc/muttest"], 180, cwd="/repo", env=dict(env, RUSTFLAGS="--cap-lints allow"))
                r["tests"] = rc == 0
        finally:
            open(path, "w").write(orig)
        with open(out, "a") as o: o.write(json.dumps(r) + "\n")

if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants("/repo", sys.argv[2:] or SRC)
        for m in ms: print(m["id"], m["func"], m["what"], "|", m["old"])
        print(len(ms))
    elif sys.argv[1] == "lane":
        lane(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6] if len(sys.argv) > 6 else "")
    else:
        lanes = int(sys.argv[2])
        here = os.path.abspath(sys.argv[0])
        ps = []
        for k in range(lanes):
            d = f"/tmp/mut/{k}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
            subprocess.check_call(["rsync", "-a", "--exclude", "mc/target", "--exclude", ".git", "/verif/", d + "/verif/"]) if shutil.which("rsync") else subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
            a = [f"{d}/verif/tools/mutate.py", "lane", str(k), str(lanes), *sys.argv[3:]]
            ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && exec python3 "$@"', "x", "/verif/tools/mutate.py", "lane", str(k), str(lanes), *sys.argv[3:]]))
        for p in ps: p.wait()
        for k in range(lanes): shutil.rmtree(f"/tmp/mut/{k}", ignore_errors=True)
