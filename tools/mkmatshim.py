"""Writes shim/mat_part.h and hv/matfn.py from the declarations in the matrix
headers.  Run by hand when functions are added; the results are committed."""
import re, sys
V = __file__.rsplit("/", 2)[0]
R = sys.argv[1] if len(sys.argv) > 1 else "/repo"
SZ = {}
for n in (2, 3, 4):
    SZ[f"vec{n}"] = n
    SZ[f"mat{n}"] = n*n
    SZ[f"mat{n}i"] = 2*n*n+1
    SZ[f"vec{n}_minmax"] = 2*n
for n in (2, 3):
    SZ[f"mat{n}w"] = n*n+n
    SZ[f"mat{n}wi"] = 2*(n*n+n)+1
SKIP = {"cp_lex_cmp", "cp_circle_iter_step", "cp_f_get_int"}
EXTRA = ["mat.h"]
ALL = open(f"{R}/include/hob3lmat/mat_gen_inl.h").read()
out, tab, seen, values = [], [], set(), 0
for f in ["mat_gen_ext.h", "mat_gen_inl.h", "algo.h", "mat.h", "mat_is_rot.h"]:
    s = open(f"{R}/include/hob3lmat/{f}").read()
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    for m in re.finditer(r'(?:extern|static inline)\s+([\w ]+?)\s*\b(cp_\w+)\(([^)]*)\)\s*[;{]', s):
        ret, name, args = m[1].strip(), m[2], m[3]
        if name in SKIP or name in seen:
            continue
        seen.add(name)
        kinds, names = [], []
        ok = True
        for a in args.split(","):
            a = re.sub(r'\s+', ' ', a.strip()).replace("*", " * ")
            w = a.split()
            if "*" in w:
                t = w[0]
                t = re.sub(r'^cp_(.*)_t$', r'\1', t)
                if t not in SZ:
                    ok = False
                kinds.append((t, "const" not in w))
            elif w[0] in ("double", "cp_f_t", "cp_dim_t"):
                kinds.append(("d", False))
            elif w[0] in ("size_t",):
                kinds.append(("z", False))
            else:
                ok = False
        rt = {"void": "v", "bool": "b", "int": "i"}.get(ret, "d")
        if not ok:
            print("skip", name, args); continue
        op = len(tab)
        L = [f"case {op}: {{ /* {name} */"]
        call = []
        for k, (t, o) in enumerate(kinds):
            if t == "d":
                L.append(f"double a{k} = rd();"); call.append(f"a{k}")
            elif t == "z":
                L.append(f"size_t a{k} = r32();"); call.append(f"a{k}")
            else:
                L.append(f"cp_{t}_t *a{k} = in(sizeof(cp_{t}_t), p, {k});"); call.append(f"a{k}")
        c = f"{name}({', '.join(call)})"
        # the form that returns its result: must be the same
        m2 = re.search(r'static inline cp_(\w+)_t ' + name.upper() + r'_\(([^)]*)\)', ALL)
        val = None
        # cp_vecN_minmax() extends its first operand; the generated value form has nothing to extend and is not usable
        if m2 and not name.endswith("_minmax") and rt == "v" and kinds[0] == (m2[1], True) and len([x for x in m2[2].split(",") if x.strip() not in ("", "void")]) == len(kinds) - 1:
            val = name.upper()
            values += 1
            L.append(f"\n#ifdef {val}\n        cp_{m2[1]}_t w = {val}({', '.join(call[1:])});\n#endif\n       ")
        if rt == "v":
            L.append(c + ";")
        elif rt == "d":
            L.append(f"double r = {c}; wd(r);")
        else:
            L.append(f"int r = {c}; wi32(r);")
        if val:
            L.append(f"\n#ifdef {val}\n        if (memcmp(&w, a0, sizeof w)) {{ *a0 = w; }}\n#endif\n       ")
        for k, (t, o) in enumerate(kinds):
            if o:
                L.append(f"outd(a{k}, sizeof *a{k});")
        L.append("break; }")
        out.append("    " + " ".join(L).replace(" \n", "\n"))
        tab.append((name, rt, [(t, o) for t, o in kinds]))
open(V + "/shim/mat_part.h", "w").write("/* generated by tools/mkmatshim.py */\n" + "\n".join(out) + "\n")
with open(V + "/hv/matfn.py", "w") as g:
    g.write('"""Generated by tools/mkmatshim.py: the functions of the matrix library."""\n')
    g.write(f"SIZE = {SZ!r}\n")
    g.write("FN = {\n" + "".join(f"    {n!r}: ({i}, {r!r}, {k!r}),\n" for i, (n, r, k) in enumerate(tab)) + "}\n")
print(len(tab), values)
