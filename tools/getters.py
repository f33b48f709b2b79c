#!/usr/bin/env python3
"""writes specs/32_radix_getters.spec: one contract per typed getter (the families differ only in their type)."""
import os, sys
SC = {"String": ("seq", '""', "String"), "Bool": ("bool", "false", "Bool"), "Duration": ("time.Duration", "0", "Duration"),
      "Time": ("time.Time", None, "Time")}
for n in ("", "8", "16", "32", "64"):
    SC["Int" + n] = ("int" + n, "0", "Int")
    SC["Uint" + n] = ("uint" + n, "0", "Uint")
for n in ("Float64", "Float32", "Complex128", "Complex64"):
    SC[n] = (n.lower(), None, n)
out = ["package radix", "",
       "// generated by tools/getters.py",
       "def absent(s *trieS, K seq) := !stored(K) && !K_ends(s, K) && M[cat(K, unit(s.delimiter))] == 0",
       "def vof(K seq) := (hasdata(M[K]) ? M[K].data : nil)", ""]
fns = []
seen = set()
def conv(name, sort):
    if name in seen: return
    seen.add(name)
    if name == "String":  # its contract is in 52_store_load.spec
        out.append("fn cvString(any) seq\n")
        return
    out.append(f"fn cv{name}(any) {sort}")
    out.append(f"extern func evendeep::(*Cvt).{name}(c, v) (r)\n  ensures r == cv{name}(v)")
    out.append("")
def both(name, dfl, want, arg="defaultVal", inv=None, key="path"):
    for k in ("Get", "Must"):
        f = f"(*trieS).{k}{name}"
        fns.append(f)
        out.append(f"func {f}(s, path, dv) ({'ret, err' if k == 'Get' else 'ret'})")
        out.append("  option merge")
        out.append("  requires ask(s, path)")
        out.append("  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]")
        for i in inv or []:
            out.append("  inv " + i)
        e = " && err == nil" if k == "Get" else ""
        out.append(f"  ensures stored: stored(dec(fk(s, path))) ==> {want}{e}")
        e = " && err == notfound()" if k == "Get" else ""
        out.append(f"  ensures absent: absent(s, dec(fk(s, path))) ==> {dfl}{e}")
        out.append("")
W = {"int8": 8, "int16": 16, "int32": 32, "uint8": 8, "uint16": 16, "uint32": 32}
only = sys.argv[1:]
for n, (ty, zero, cv) in SC.items():
    if only and n not in only: continue
    conv(cv, {"Int": "int", "Uint": "int"}.get(cv, ty))
    v = f"cv{cv}(vof(dec(fk(s, path))))"
    if ty in W:
        v = f"wrap({v}, \"{ty}\")"
    both(n, f"ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))", f"ret == {v}",
         inv=[f"$i:int > 0 ==> $r:{ty} == dv[$i:int - 1]", f"$i:int == 0 ==> $r:{ty} == zero($r:{ty})", "0 <= $i:int && $i:int <= len(dv)"])
    conv(n + "Slice", "[]" + ty) if n != "String" else conv("StringSlice", "seqs")
    both(n + "Slice", "ret == dv", f"ret == cv{n}Slice(vof(dec(fk(s, path))))")
    conv(n + "Map", "gomap[string]" + ("string" if n == "String" else ty))
    ty = "gomap[string]" + ("string" if n == "String" else ty)
    both(n + "Map", f"ret == (len(dv) > 0 ? dv[len(dv)-1] : zero(ret))", f"ret == cv{n}Map(vof(dec(fk(s, path))))",
         inv=[f"$i:int > 0 ==> $r:{ty} == dv[$i:int - 1]", f"$i:int == 0 ==> $r:{ty} == zero($r:{ty})", "0 <= $i:int && $i:int <= len(dv)"])
for n in ("KibiBytes", "KiloBytes"):
    for k in ("Get", "Must"):
        fns.append(f"(*trieS).{k}{n}")
        out += [f"func (*trieS).{k}{n}(s, path, dv) ({'ret, err' if k == 'Get' else 'ret'})", "  option merge", "  requires ask(s, path)",
                "  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]",
                "  inv $i:int > 0 ==> $r:uint64 == dv[$i:int - 1]", "  inv $i:int == 0 ==> $r:uint64 == 0", "  inv 0 <= $i:int && $i:int <= len(dv)",
                f"  ensures absent: absent(s, dec(fk(s, path))) ==> ret == (len(dv) > 0 ? dv[len(dv)-1] : 0)" + (" && err == notfound()" if k == "Get" else "")]
        if k == "Get":
            out.append("  ensures stored: stored(dec(fk(s, path))) ==> err == nil")
        out.append("")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "32_radix_getters.spec")
open(p, "w").write("\n".join(out) + "\n")
print(", ".join(fns))
