#!/usr/bin/env python3
"""Writes harness/gmsh_calls.inc: a stand-in and a generated call for every function that
both gmsh.h and the library's gmsh wrapper declare."""
import os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def decls(path, root):
    t = open(path).read()
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    t = re.sub(r"^\s*#[^\n]*(\\\n[^\n]*)*", "", t, flags=re.M)
    t = t.replace("GMSH_API", " ")
    out, ns, i = {}, [], 0
    tok = re.compile(r"\s*(?:namespace\s+(\w+)\s*\{|(\})|((?:typedef|using)[^;]*;)|((?:int|void|double)\s+(\w+)\s*\())")
    while i < len(t):
        m = tok.match(t, i)
        if not m:
            i += 1
            continue
        i = m.end()
        if m[1]:
            ns.append(m[1])
        elif m[2]:
            if ns:
                ns.pop()
        elif m[3]:
            pass
        else:
            depth, j = 1, i
            while depth:
                depth += {"(": 1, ")": -1}.get(t[j], 0)
                j += 1
            args, rest = t[i:j - 1], t[j:j + 40].strip()
            i = j
            if not rest.startswith(";"):
                continue
            name = "::".join(ns + [m[5]])
            assert name.startswith(root), name
            out.setdefault(name[len(root):], []).append((m[4].split()[0], split(args)))
    return out


def split(a):
    parts, depth, cur = [], 0, ""
    for ch in a:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        parts.append(cur)
    res = []
    for p in parts:
        p = " ".join(p.split())
        if "std::function" in p:
            head = p.split("=")[0].strip()
            res.append((head.rsplit(" ", 1)[0], False))
            continue
        p, _, d = p.partition("=")
        p = p.strip()
        m = re.match(r"(.*?)(\w+)$", p)
        ty = " ".join(m[1].replace("&", " & ").replace("> >", ">>").split())
        ty = re.sub(r"(?<!:)\b(?:um2::)?gmsh::vectorpair", "Pairs", ty)
        res.append((ty, bool(d)))
    return res


g = decls("/usr/include/gmsh.h", "gmsh::")
u = decls(os.path.join(os.environ.get("UM2_REPO", "/repo"), "include/um2/gmsh/base_gmsh_api.hpp"), "um2::gmsh::")
# Declared by the wrapper but left out of its source: a caller cannot link
ABSENT = {"model::geo::addSpline", "model::getAttribute", "model::getAttributeNames",
          "model::mesh::computeHomology", "model::mesh::removeDuplicateElements",
          "model::occ::addSpline", "model::occ::addThruSections", "model::removeAttribute",
          "model::setAttribute"}
ok, skipped = [], []
for n in u:
    if n in ABSENT:
        skipped.append(n + " (no definition)")
        continue
    if n not in g:
        skipped.append(n + " (not in gmsh.h)")
        continue
    if len(u[n]) != 1 or len(g[n]) != 1:
        skipped.append(n + " (overloaded)")
        continue
    (ru, au), (rg, ag) = u[n][0], g[n][0]
    k = len(au)
    if ru != rg or [a for a, _ in au] != [a for a, _ in ag[:k]] or not all(d for _, d in ag[k:]):
        skipped.append(f"{n} (declared differently: {au} / {ag})")
        continue
    req = max(sum(1 for _, d in au if not d), sum(1 for _, d in ag if not d))
    ok.append((n, ru, [a for a, _ in ag], req, k))

L = ["// Written by tools/make_gmsh_calls.py"]


def is_out(t):
    return t.endswith("&") and not t.startswith("const")


def base(t):
    t = re.sub(r"^const ", "", t)
    return t.removesuffix("&").strip()


for n, r, args, req, most in ok:
    *ns, f = n.split("::")
    L.append("namespace " + "::".join(["gmsh"] + ns) + "\n{")
    L.append(f"{r}\n{f}({', '.join(f'{t} a{i}' for i, t in enumerate(args))})\n{{")
    L.append(f'  rec::begin("{n}");')
    for i, t in enumerate(args):
        if not is_out(t):
            L.append(f"  rec::put(a{i});")
    L.append("  rec::mayThrow();")
    for i, t in enumerate(args):
        if is_out(t):
            L.append(f"  rec::make(a{i}, {i});")
    if r != "void":
        L.append(f"  return rec::result<{r}>();")
    L.append("}\n}")
L.append("namespace\n{")
for k, (n, r, args, req, most) in enumerate(ok):
    L.append(f"void\ncall{k}(pbt::Src & s, pbt::Case & c)\n{{")
    args = args[:most]
    for i, t in enumerate(args):
        if is_out(t):
            L.append(f"  {base(t)} a{i}{{}};")
        else:
            L.append(f"  auto a{i} = gen<{base(t)}>(s, c);")
    L.append(f"  int const k = {most} - s.irange(0, {most - req});")
    L.append(f'  compare(s, c, "{n}", k, [&](bool const wrapped) {{')
    for i, t in enumerate(args):
        if is_out(t):
            L.append(f"    a{i} = {{}};")
    L.append("    switch (k) {")
    for m in range(req, most + 1):
        a = ", ".join(f"a{i}" for i in range(m))
        e = f"wrapped ? um2::gmsh::{n}({a}) : ::gmsh::{n}({a})"
        L.append(f"    case {m}:")
        L.append(f"      {e};" if r == "void" else f"      rec::put({e});")
        L.append("      break;")
    L.append("    }")
    for i, t in enumerate(args):
        if is_out(t):
            L.append(f"    rec::put(a{i});")
    L.append("  });\n}")
L.append("using Call = void (*)(pbt::Src &, pbt::Case &);")
L.append("Call const CALLS[] = {" + ", ".join(f"call{k}" for k in range(len(ok))) + "};")
L.append("}")
open(os.path.join(HERE, "harness", "gmsh_calls.inc"), "w").write("\n".join(L) + "\n")
print(len(ok), "functions; skipped:")
print("\n".join(skipped))
print(sorted({base(t) for _, _, a, _, _ in ok for t in a}))
