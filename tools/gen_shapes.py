#!/usr/bin/env python3
"""Writes harness/src/shapes.rs: structures for the derive macros, with the column names
which the documentation of the macros gives for their fields (computed here, from the
attributes, independently of the macros). Deterministic; the result is committed."""
import random, sys

R = random.Random(20240607)
PRIMS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool"]
CT = {p: "P::" + p.upper() for p in PRIMS}
CT["bool"] = "P::Bool"
NS = [1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 31, 32]
# some collide with what a macro might use for its own variables
FIELDS = ["a", "b", "c", "x", "y", "z", "xi", "i", "v", "p", "it", "tree", "s", "func", "branch_name", "current", "channel", "value", "struct_instance",
          "next", "inner", "sender", "receiver", "energy", "time", "id", "nhits", "pos", "dir", "q", "flags", "data", "ret", "field_name", "type_name", "T1",
          "r#type", "r#match", "r#fn", "r#move", "r#loop", "_u", "long_field_name_to_be_stored_as_a_column", "x1", "x10", "x2"]
STRUCTS = ["Inner", "Point", "Channel", "Sender", "Receiver", "Hit", "Track", "Vertex", "Deep", "Slice3", "Event", "Cell2", "Iter", "Header", "Run", "Rect"]


def leaf(writable, copy=False):
    p = R.choice(PRIMS)
    k = R.randrange(10)
    if copy or k < 4:
        return p, f"Ct::Pr({CT[p]})"
    if k < 6:
        n = R.choice(NS)
        return f"[{p}; {n}]", f"Ct::Arr({CT[p]}, {n})"
    if k < 8:
        q = p
        while writable and q == "bool":
            q = R.choice(PRIMS)
        return f"Vec<{q}>", f"vec_of(Ct::Pr({CT[q]}))"
    if writable or k == 8:
        return "String", "Ct::S(Sk::Chars)" if writable else "Ct::S(Sk::%s)" % R.choice(["Chars", "Std", "TString"])
    return R.choice([
        ("Slice<%s>" % p, f"Ct::Sl({CT[p]})"),
        ("HashSet<i32>", "set_of(Ct::Pr(P::I32))"),
        ("HashMap<i32, f64>", "map_of(Ct::Pr(P::I32), Ct::Pr(P::F64))"),
        ("Vec<String>", "vec_of(Ct::S(Sk::Std))"),
        ("Vec<Vec<i16>>", "vec_of(vec_of(Ct::Pr(P::I16)))"),
    ])


class Struct:
    pass


def fields_n(wide):
    return 60 if wide else R.choice([1, 1, 2, 2, 3, 4, 5, 7])


def make(depth, read, names, wide=False, slicable=False):
    """A structure, with those of its fields before it in .deps"""
    s = Struct()
    s.name = names.pop()
    s.slicable = slicable
    s.gprefix = R.choice([None, None, "g_", "pre.", "P", "m_"]) if read else None
    s.deps = []
    s.fields = []
    n = fields_n(wide)
    pool = [f for f in FIELDS]
    R.shuffle(pool)
    if wide:
        pool = [f"f{i}" for i in range(n)]
    for _ in range(n):
        f = Struct()
        f.ident = pool.pop()
        f.rename = f.prefix = f.absolute = None
        f.kind = "leaf"
        if read and R.random() < 0.5:
            k = R.randrange(5)
            if k in (0, 3):
                f.rename = R.choice(["rn_", "Other.", "zzz", "fX"]) + str(R.randrange(100))
            if k in (1, 3):
                f.prefix = R.choice(["l_", "loc.", "L"])
            if k == 2:
                f.absolute = R.choice(["abs_", "Top.level", "Z"]) + str(R.randrange(1000))
        can = depth > 0 and names and not slicable
        if can and R.random() < 0.55:
            if read and R.random() < 0.35:
                f.kind = "slice"
                f.struct = make(0, read, names, slicable=True)
            else:
                f.kind = "struct"
                # a slicable structure can be a single member as well
                f.struct = make(depth - 1, read, names, slicable=read and R.random() < 0.2)
            s.deps += f.struct.deps + [f.struct]
        else:
            f.ty, f.ct = leaf(not read, copy=slicable)
        s.fields.append(f)
    return s


def base(f):
    i = f.ident[2:] if f.ident.startswith("r#") else f.ident
    return f.rename if f.rename is not None else i


GROUP = [0]


def columns(s, parent, sliced, out, decoys, group=0):
    for f in s.fields:
        if f.absolute is not None:
            full = (f.prefix or "") + f.absolute
        else:
            pre = f.prefix if f.prefix is not None else (s.gprefix or "")
            full = (parent + "." if parent else "") + pre + base(f)
        i = f.ident[2:] if f.ident.startswith("r#") else f.ident
        if f.kind == "leaf":
            ct = f.ct
            if sliced:
                ct = ct.replace("Ct::Pr(", "Ct::Sl(")
            out.append((full, ct, group))
            dot = parent + "." if parent else ""
            for d in [i, base(f), dot + i, dot + base(f), (s.gprefix or "") + i, dot + (s.gprefix or "") + i, (s.gprefix or "") + (f.absolute or i), dot + (f.absolute or i),
                      (s.gprefix or "") + (f.prefix or "") + base(f), f.ident, full + "x", "x." + full]:
                decoys.append((d, ct))
        else:
            GROUP[0] += 1
            columns(f.struct, full, f.kind == "slice", out, decoys, GROUP[0])
    return out


def depth_of(s):
    return 1 + max([depth_of(f.struct) for f in s.fields if f.kind != "leaf"], default=0)


def emit_struct(s, both, o):
    o.append("    #[derive(ReadFromTree%s)]" % (", WriteToTree" if both else ""))
    at = []
    if s.gprefix is not None:
        at.append(f'branch_prefix = "{s.gprefix}"')
    if s.slicable:
        at.append("slicable")
    if at:
        o.append(f"    #[oxyroot({', '.join(at)})]")
    o.append(f"    pub struct {s.name} {{")
    for f in s.fields:
        at = []
        if f.rename is not None:
            at.append(f'rename = "{f.rename}"')
        if f.prefix is not None:
            at.append(f'branch_prefix = "{f.prefix}"')
        if f.absolute is not None:
            at.append(f'absolute_name = "{f.absolute}"')
        if f.kind == "slice":
            at.append(f'slicable = "{f.struct.name}"')
        if at:
            o.append(f"        #[oxyroot({', '.join(at)})]")
        ty = f.ty if f.kind == "leaf" else f.struct.name if f.kind == "struct" else f"Vec<{f.struct.name}>"
        f.rty = ty
        o.append(f"        pub {f.ident}: {ty},")
    o.append("    }")
    o.append(f"    impl Node for {s.name} {{")
    o.append("        fn leaves(self, o: &mut Vec<V>) {")
    for f in s.fields:
        o.append(f"            self.{f.ident}.leaves(o);")
    o.append("        }\n    }")
    if s.slicable:
        o.append(f"    impl Node for Vec<{s.name}> {{")
        o.append("        fn leaves(self, o: &mut Vec<V>) {")
        o.append(f"            transpose(self.into_iter().map(|e| {{ let mut c = vec![]; e.leaves(&mut c); c }}).collect(), {len(s.fields)}, o)")
        o.append("        }\n    }")
    if both:
        o.append(f"    impl Build for {s.name} {{")
        o.append(f"        fn build(it: &mut dyn Iterator<Item = V>) -> Self {{\n            {s.name} {{")
        for f in s.fields:
            o.append(f"                {f.ident}: <{f.rty} as Build>::build(it),")
        o.append("            }\n        }\n    }")


def main():
    o = ["// Generated by tools/gen_shapes.py.", "#![allow(dead_code, non_snake_case)]",
         "use crate::cols::P;", "use crate::p_derive::*;", "use crate::val::*;", ""]
    table = []
    k = 0
    done = 0
    plan = [(False, d) for d in [0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]] + [(True, d) for d in [0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 6, 1, 2, 2]]
    for read, depth in plan:
        wide = (read, depth) == (False, 0) and done == 1
        for _ in range(100000):
            names = STRUCTS[:]
            R.shuffle(names)
            s = make(depth, read, names, wide)
            decoys = []
            GROUP[0] = 0
            cols = columns(s, None, False, [], decoys)
            cs = [c for c, _, _ in cols]
            if len(set(cs)) != len(cs) or len(cs) > (80 if wide else 30):
                continue
            # counters of jagged columns must not meet another column
            extra = ["n_" + c for c, t, _ in cols if "Sl(" in t]
            if set(extra) & set(cs):
                continue
            if depth_of(s) != depth + 1 and not (read and depth_of(s) >= min(depth, 3)):
                continue
            if not read and any(f.ident.startswith("_") and False for f in s.fields):
                continue
            break
        else:
            sys.exit("no shape")
        done += 1
        seen = set(cs) | set(extra)
        dec = []
        for d, t in decoys:
            if d and d not in seen and "r#" not in d and ("n_" + d) not in seen:
                seen.add(d)
                seen.add("n_" + d)
                dec.append((d, t))
        m = f"m{k}"
        o.append(f"pub mod {m} {{")
        o.append("    use crate::p_derive::*;\n    use crate::val::V;\n    #[allow(unused_imports)]\n    use oxyroot::{ReadFromTree, Slice, WriteToTree};\n    #[allow(unused_imports)]\n    use std::collections::{HashMap, HashSet};")
        for d in s.deps + [s]:
            emit_struct(d, not read, o)
        o.append("}\n")
        c = ", ".join(f'("{n}", {t}, {g})' for n, t, g in cols)
        d = ", ".join(f'("{n}", {t})' for n, t in dec)
        w = f"Some(write::<{m}::{s.name}>)" if not read else "None"
        table.append(f'        Shape {{ id: "{m}::{s.name}", depth: {depth_of(s)}, cols: vec![{c}], decoys: vec![{d}], read: read::<{m}::{s.name}>, read_at: read_at::<{m}::{s.name}>, write: {w} }},')
        k += 1
    o.append("#[rustfmt::skip]\npub fn shapes() -> Vec<Shape> {\n    vec![")
    o += table
    o.append("    ]\n}")
    open(sys.argv[1], "w").write("\n".join(o) + "\n")
    print(k, "shapes")


main()
