"""One-off aid used to transcribe the C declarations in /verif/spec/c from the pinned tree.

It is NOT run by any check: the committed headers are the frozen reference. Kept to document their origin.
"""
import ctypes, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
import atoparser

CT = {"c_uint": "unsigned int", "c_ushort": "unsigned short", "c_char": "char", "c_int": "int", "c_long": "count_t",
      "c_ulong": "unsigned long", "c_float": "float", "c_ubyte": "unsigned char", "c_short": "short"}

for mod in atoparser.utils._VERSIONS:
    ver = mod.__name__.split("atop_")[1]
    order, tags = [], {}

    def walk(c):
        if c in tags:
            return tags[c]
        name = next(re.search(r"C Name: (\w+)", b.__doc__).group(1) for b in c.__mro__ if b.__doc__ and "C Name" in b.__doc__)
        for f in c._fields_:
            t = f[1]
            while hasattr(t, "_length_"):
                t = t._type_
            if hasattr(t, "_fields_"):
                walk(t)
        while name in tags.values():
            name += "_"
        tags[c] = name
        order.append(c)
        return name

    top = [(n, getattr(mod, n, None)) for n in ("Header", "Record", "SStat", "TStat", "CStat")]
    top = [(n, c or (mod.PStat if n == "TStat" else None)) for n, c in top]
    out = [f"/* atop {ver.replace('_', '.')}: structures of a raw log file on Linux x86-64. */", "typedef long long count_t;", ""]
    for n, c in top:
        if c:
            walk(c)
    for c in order:
        out.append(f"struct {tags[c]} {{")
        for f in c._fields_:
            t, dims = f[1], ""
            while hasattr(t, "_length_"):
                dims += f"[{t._length_}]"
                t = t._type_
            out.append(f"    {'struct ' + tags[t] if t in tags else CT[t.__name__]} {f[0]}{dims};")
        out.append("};\n")
    for n, c in top:
        if c:
            out.append(f"/* top: {n} = struct {tags[c]} */")
    open(f"/verif/spec/c/atop_{ver}.h", "w").write("\n".join(out) + "\n")
