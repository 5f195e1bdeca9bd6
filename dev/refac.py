#!/usr/bin/env python3
"""python3 dev/refac.py HEADER [OUT]: behaviour-preserving rewrites of a header's code, site by site; any check that is not quiet is a false alarm."""
import json, os, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = set(os.environ.get("SKIP", "").split())
KINDS = set(os.environ.get("KINDS", "").split())

def match(s, i, o="(", c=")"):
    """Index after the bracket that closes the one at i."""
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return None

def top(s, op):
    """Position of a binary operator at bracket depth 0."""
    d = 0
    for i, ch in enumerate(s):
        if ch in "([{": d += 1
        elif ch in ")]}": d -= 1
        elif d == 0 and s.startswith(op, i): return i
    return None

def split(s, sep):
    out, d, j = [], 0, 0
    for i, ch in enumerate(s):
        if ch in "([{": d += 1
        elif ch in ")]}": d -= 1
        elif ch == sep and d == 0:
            out.append(s[j:i]); j = i + 1
    return out + [s[j:]]

def block(s, i):
    """(start, end) of the block or statement from i on."""
    while i < len(s) and s[i].isspace(): i += 1
    if i < len(s) and s[i] == "{":
        e = match(s, i, "{", "}")
        return (i, e) if e else None
    return None

def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)
    return re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), s)

def edits(s):
    t = strip_comments(s)
    for m in re.finditer(r"\b(if|while|for)\s*\(", t):
        kw = m.group(1)
        i = m.end() - 1
        e = match(t, i)
        if e is None: continue
        cond = t[i + 1:e - 1]
        b = block(t, e)
        if b is None: continue
        body = t[b[0] + 1:b[1] - 1]
        jumps = re.search(r"\b(return|break|continue)\b", body)
        before = t[:m.start()].rstrip()
        if kw == "if":
            el = re.match(r"\s*else\b", t[b[1]:])
            plain = ";" not in cond
            if plain and not before.endswith("else"):
                yield "cond-var", m.start(), e, f"bool const cond_v = static_cast<bool>({cond});\nif (cond_v)" if not el else None
            if el:
                b2 = block(t, b[1] + el.end())
                if b2 and plain: yield "swap-else", m.start(), b2[1], f"if (!({cond})) {t[b2[0]:b2[1]]} else {t[b[0]:b[1]]}"
            else:
                p = top(cond, "&&")
                if p is not None and top(cond, "||") is None and plain: yield "nest-and", m.start(), b[1], f"if ({cond[:p]}) {{ if ({cond[p + 2:]}) {t[b[0]:b[1]]} }}"
                p = top(cond, "||")
                if p is not None and plain: yield "demorgan", m.start(), e, f"if (!(!({cond[:p]}) && !({cond[p + 2:]})))"
                if plain: yield "else-path", m.start(), b[1], f"if (!({cond})) {{ }} else {t[b[0]:b[1]]}"
                rest = re.match(r"\s*\}", t[b[1]:])
                if rest and plain:
                    # the last statement of a block: is it a loop's or a function's?
                    d, j = 0, m.start()
                    while j > 0:
                        j -= 1
                        if t[j] == "}": d += 1
                        elif t[j] == "{":
                            if d == 0: break
                            d -= 1
                    head = t[:j].rstrip()[-220:]
                    if re.search(r"\b(for|while)\s*\([^{};]*(;[^{};]*;[^{};]*)?\)$", head): yield "early-continue", m.start(), b[1], f"if (!({cond})) continue;\n{body}"
                    elif re.search(r"\bvoid\s+[\w:]+\([^{}]*\)( const| noexcept)*$", head): yield "early-return", m.start(), b[1], f"if (!({cond})) return;\n{body}"
        elif kw == "while":
            yield "for-ever", m.start(), b[1], f"for (;;) {{ if (!({cond})) break;\n{body} }}"
            yield "while-for", m.start(), e, f"for (; {cond};)"
            if not re.search(r"\bcontinue\b", body): yield "while-flag", m.start(), b[1], f"{{ bool more_v = static_cast<bool>({cond}); while (more_v) {{ {body}\nmore_v = static_cast<bool>({cond}); }} }}"
            if not re.search(r"\bcontinue\b", body): yield "do-while", m.start(), b[1], f"if ({cond}) {{ do {{ {body} }} while ({cond}); }}"
        else:
            parts = split(cond, ";")
            if len(parts) == 3:
                ini, c, inc = parts
                if not re.search(r"\bcontinue\b", body): yield "for-while", m.start(), b[1], f"{{ {ini};\nwhile ({c or 'true'}) {{ {body}\n{inc}; }} }}"
                if not re.search(r"\bcontinue\b", body): yield "for-do", m.start(), b[1], f"{{ {ini};\nif ({c or 'true'}) {{ do {{ {body}\n{inc}; }} while ({c or 'true'}); }} }}"
                if not re.search(r"\bcontinue\b", body): yield "for-flag", m.start(), b[1], f"{{ {ini};\nbool more_v = static_cast<bool>({c or 'true'});\nwhile (more_v) {{ {body}\n{inc};\nmore_v = static_cast<bool>({c or 'true'}); }} }}"
                if "++" in inc and "," not in inc: yield "inc-assign", m.start(), b[1], f"for ({ini}; {c}; {inc.replace('++', '').strip()} = {inc.replace('++', '').strip()} + 1) {t[b[0]:b[1]]}" if "it" not in inc else None
                if "++" in inc and "," not in inc:
                    x = inc.replace("++", "").strip()
                    yield "inc-side", m.start(), b[1], f"for ({ini}; {c}; {'++' + x if inc.strip().endswith('++') else x + '++'}) {t[b[0]:b[1]]}"
            else:
                p = top(cond, ":")
                if p is not None and cond[p:p + 2] != "::":
                    decl, rng = cond[:p].strip(), cond[p + 1:].strip()
                    yield "range-iter", m.start(), b[1], f"for (auto it_v = {rng}.begin(); it_v != {rng}.end(); ++it_v) {{ {decl} = *it_v;\n{body} }}"
                    yield "range-iter-post", m.start(), b[1], f"{{ auto it_v = {rng}.begin(); auto const end_v = {rng}.end(); while (it_v != end_v) {{ {decl} = *it_v++;\n{body} }} }}" if not jumps else None
                    yield "range-index", m.start(), b[1], f"for (std::size_t ix_v = 0; ix_v < {rng}.size(); ++ix_v) {{ {decl} = {rng}[ix_v];\n{body} }}"
                    if not jumps:
                        yield "range-foreach", m.start(), b[1], f"std::for_each({rng}.begin(), {rng}.end(), [&]({decl}) {{ {body} }});"
        if not jumps and kw in ("if", "while", "for"):
            yield "lambda-body", b[0], b[1], f"{{ [&]() {{ {body} }}(); }}"
    for m in re.finditer(r"\breturn ([^;{}]+);", t):
        x = m.group(1)
        if x in ("true", "false", "*this", "nullptr"): continue
        yield "return-var", m.start(), m.end(), f"{{ auto const ret_v = {x}; return ret_v; }}"
        q = top(x, "?")
        if q is not None and top(x, ":") is not None:
            p = q + 1 + top(x[q + 1:], ":")
            yield "return-if", m.start(), m.end(), f"{{ if ({x[:q]}) return {x[q + 1:p]}; return {x[p + 1:]}; }}"
        if re.search(r"&&|\|\||==|!=|<=|>=| < | > ", x) and "operator" not in x: yield "return-branch", m.start(), m.end(), f"{{ if ({x}) {{ return true; }} return false; }}"
    for m in re.finditer(r"(?<=[;{}\s])([\w.\->\[\]]+)(\+\+|--);", t):
        x = m.group(1)
        if not re.search(r"[;{})]\s*$", t[:m.start()]): continue
        yield "inc-plus", m.start(), m.end(), f"{x} {m.group(2)[0]}= 1;"
        yield "inc-pre", m.start(), m.end(), f"{m.group(2)}{x};"
    for m in re.finditer(r"(?<=[;{}\s])([\w.\->\[\]]+) ([+\-])= ([^;]+);", t):
        if not re.search(r"[;{})]\s*$", t[:m.start()]): continue
        yield "assign-op", m.start(), m.end(), f"{m.group(1)} = {m.group(1)} {m.group(2)} ({m.group(3)});"
    for m in re.finditer(r"(?<=[(\s])([\w.\->()\[\]]+) (<|>|<=|>=|==|!=) ([\w.\->()\[\]]+)(?=\)|;|\s*&&|\s*\|\|)", t):
        a, o, b = m.groups()
        if not re.search(r"(\(|;|&&|\|\||return|=)\s*$", t[:m.start()]): continue
        if a.count("(") != a.count(")") or b.count("(") != b.count(")"): continue
        f = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[o]
        yield "flip", m.start(), m.end(), f"{b} {f} {a}"
        n = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[o]
        yield "negate", m.start(), m.end(), f"!({a} {n} {b})"
    for m in re.finditer(r"\bfor_each\b|\bstd::memcpy\b|\bmemcpy\b", t):
        pass
    # a whole function body moved into a lambda
    for m in re.finditer(r"\)(?: const)?(?: noexcept)?\s*\n\s*\{", t):
        i = m.end() - 1
        e = match(t, i, "{", "}")
        if e is None: continue
        body = t[i + 1:e - 1]
        if not body.strip(): continue
        yield "helper", i, e, f"{{ return [&]() -> decltype(auto) {{ {body} }}(); }}"

    # a member function's body moved into another member function
    for m in re.finditer(r"(?<=\n)( +)((?:virtual |static |inline |constexpr |\[\[nodiscard\]\] )*)([\w:<>&*, ]+)\n\1([\w=+\-]+(?:\(\))?)\(([^()]*)\)((?: const)?)((?: noexcept)?)((?: override)?)\n\1\{", t):
        ind, pre, ret, name, par, cst, nox, ovr = m.groups()
        e = match(t, m.end() - 1, "{", "}")
        if e is None or ret.strip() in ("public:", "private:", "template") or "requires" in ret: continue
        tpl = re.search(r"(template <[^\n]*>)\n\s*$", t[:m.start()])
        if tpl: continue
        ps = [x.strip() for x in split(par, ",")] if par.strip() else []
        if "<" in par: ps = re.split(r",(?![^<]*>)", par)
        if any("..." in x or "[" in x for x in ps): continue
        names = [re.sub(r"=.*", "", x).strip().split()[-1].lstrip("&*") for x in ps]
        hp = "static " if "static" in pre else ""
        hpre = hp + ("inline " if "inline" in pre else "") + ("constexpr " if "constexpr" in pre else "")
        hpar = ", ".join(re.sub(r"=.*", "", x).strip() for x in ps)
        args = ", ".join(f"static_cast<decltype({n})&&>({n})" for n in names)
        args2 = ", ".join(names)
        hn = "helper_" + (re.sub(r"\W", "", name) or "op") + "_v"
        if name.startswith("operator"): continue
        yield "member", m.start(), e, f"{ind}{hpre}{ret}\n{ind}{hn}({hpar}){cst}{nox}\n{ind}{t[m.end() - 1:e]}\n\n{ind}{pre}{ret}\n{ind}{name}({par}){cst}{nox}{ovr}\n{ind}{{\n{ind}    return {hn}({args});\n{ind}}}"
        # what follows the first statement moved out
        yield "member-plain", m.start(), e, f"{ind}{hpre}{ret}\n{ind}{hn}({hpar}){cst}{nox}\n{ind}{t[m.end() - 1:e]}\n\n{ind}{pre}{ret}\n{ind}{name}({par}){cst}{nox}{ovr}\n{ind}{{\n{ind}    return {hn}({args2});\n{ind}}}" if "&&" not in par else None
    # a data member renamed
    for nm in sorted(set(re.findall(r"\b([a-z]\w*_)\b(?=[;{ ,=\[)])", t))):
        yield "rename", 0, len(s), re.sub(rf"\b{nm}\b", "renamed_" + nm + "v", s)
    # a private or protected member function renamed
    for m in re.finditer(r"\n(?:private|protected):(.*?)(?=\n(?:public|};)|\Z)", t, re.S):
        for nm in sorted(set(re.findall(r"\n    (\w+)\([^;{}]*\)[^;{}]*\n    \{", m.group(1)))):
            if nm in ("if", "while", "for", "switch"): continue
            yield "rename-fn", 0, len(s), re.sub(rf"\b{nm}\b", "renamed_" + nm, s)
    # two plain assignments the other way round
    for m in re.finditer(r"(?<=[;{}\n])(\s*)([\w.\->\[\]*]+)(\s*[+\-]?=\s*)([^;(){}=]+);(\s*)([\w.\->\[\]*]+)(\s*[+\-]?=\s*)([^;(){}=]+);", t):
        s0, a, o1, x, s1, b, o2, y = m.groups()
        ids = lambda q: set(re.findall(r"[A-Za-z_]\w*", q))
        if a == b or "auto" in x or ids(a) & ids(y) or ids(b) & ids(x) or (a.split("[")[0] == b.split("[")[0]): continue
        yield "swap-stmts", m.start(), m.end(), f"{s0}{b}{o2}{y};{s1}{a}{o1}{x};"
    # the arguments of a call named first
    for m in re.finditer(r"(?<=[;{}\n])\s*([\w.\->:\[\]]+)\(([^;{}]+)\);", t):
        if m.group(1) in ("if", "while", "for", "return", "switch", "static_assert", "catch", "noexcept", "sizeof"): continue
        if re.search(r"\)\s*(:\s*)?$", t[:m.start()].rstrip()[-3:]): continue
        a = split(m.group(2), ",")
        if any("..." in x or x.count("<") != x.count(">") for x in a): continue
        yield "name-args", m.start(), m.end(), "{ " + " ".join(f"auto&& arg_v{i} = {x.strip()};" for i, x in enumerate(a)) + f" {m.group(1)}(" + ", ".join(f"static_cast<decltype(arg_v{i})>(arg_v{i})" for i in range(len(a))) + "); }"

def run(job):
    hdr, kind, n, text, props = job
    d = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/include")
        open(f"{d}/include/xitren/{hdr}", "w").write(text)
        os.makedirs(d + "/build")
        for f in glob.glob(V + "/build/irx-*"): os.symlink(f, d + "/build/" + os.path.basename(f))
        r = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I", d + "/include", "-I", V + "/stubs", "-include", "thread", "-include", "deque", "-include", "algorithm", "-include", "xitren/" + hdr, "-x", "c++", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return job, "dead", ""
        env = dict(os.environ, VP_REPO=d, VP_BUILD=d + "/build", VP_EVIDENCE=d, VERIF_TIER="quick")
        bad, und = [], []
        for k in props:
            r = subprocess.run([sys.executable, V + "/check.py", k], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            m = re.search(r"(\d+) undecided", r.stdout)
            if m and m.group(1) != "0": und.append(k + ":" + m.group(1))
            if r.returncode:
                try: x = [l for l in open(f"{d}/{k}.report.txt") if l.startswith("refuted")][:2]
                except OSError: x = []
                bad.append((k, r.returncode, (x or [r.stdout.strip()[-200:]])[0][:240]))
        if bad and all(x[1] == 2 for x in bad): return job, "dead", bad[0][2][:80]
        return job, ("ALARM" if bad else "quiet"), (bad or " ".join(und))
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    hdr = sys.argv[1]
    props = []
    for l in open(V + "/properties.jsonl"):
        x = json.loads(l)
        if any(f.endswith("xitren/" + hdr) for f in x["anchors"]["files"]) and x["id"] < "C90" and x["id"] not in SKIP: props.append(x["id"])
    s = open("/repo/include/xitren/" + hdr).read()
    jobs, seen = [], set()
    for k, i, e, new in edits(s):
        if new is None or KINDS and k not in KINDS: continue
        u = s[:i] + new + s[e:]
        if u in seen: continue
        seen.add(u)
        jobs.append((hdr, k, s[:i].count("\n") + 1, u, props))
    if "-n" in sys.argv:
        print(len(jobs), props); sys.exit()
    cnt = {}
    out = open(sys.argv[2], "w") if len(sys.argv) > 2 else sys.stdout
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for job, st, x in ex.map(run, jobs):
            cnt[st] = cnt.get(st, 0) + 1
            print(f"{st} {job[1]} {hdr}:{job[2]} {str(x)[:200]}", file=out, flush=True)
    print(hdr, cnt, file=out, flush=True)
