"""Reference layouts: the C declarations in /verif/spec/c laid out by gcc.

`compute()` compiles a generated program that prints offsetof/sizeof/signedness of every declared member;
`load()` returns the committed result (layouts.json).  C10 recomputes and compares.
"""
import json
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERSIONS = ["1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12"]
_MEMBER = re.compile(r"^\s+(struct \w+|[\w ]+?) (\w+)(?:\[(\d+)\])?;$")


def parse(version):
    path = os.path.join(HERE, "c", f"atop_{version.replace('.', '_')}.h")
    structs, tops, cur = {}, {}, None
    for line in open(path):
        m = re.match(r"^struct (\w+) \{", line)
        if m:
            cur = structs.setdefault(m.group(1), [])
            continue
        m = re.match(r"^/\* top: (\w+) = struct (\w+) \*/", line)
        if m:
            tops[m.group(1)] = m.group(2)
            continue
        m = _MEMBER.match(line)
        if m:
            cur.append((m.group(2), m.group(1), None if m.group(3) is None else int(m.group(3))))
    return path, structs, tops


def compute():
    out = {}
    with tempfile.TemporaryDirectory() as tmp:
        for version in VERSIONS:
            path, structs, tops = parse(version)
            src = ["#include <stdio.h>", "#include <stddef.h>", f'#include "{path}"', "int main(void){"]
            for tag, members in structs.items():
                src.append(f'printf("S {tag} %zu\\n", sizeof(struct {tag}));')
                for name, ctype, count in members:
                    acc = f"((struct {tag}*)0)->{name}" + ("" if count is None else "[0]")
                    if ctype.startswith("struct "):
                        kind = '"struct"'
                        sign = "0"
                    else:
                        kind = f'_Generic({acc}, float: "float", double: "float", char: "char", default: "int")'
                        sign = f"(int)((__typeof__({acc}))-1 < 0)"
                    src.append(f'printf("M {tag} {name} %zu %zu %s %d\\n", offsetof(struct {tag}, {name}), sizeof({acc}), {kind}, {sign});')
            src.append("return 0;}")
            c, exe = os.path.join(tmp, "l.c"), os.path.join(tmp, "l")
            open(c, "w").write("\n".join(src))
            subprocess.run(["gcc", "-w", "-o", exe, c], check=True)
            text = subprocess.run([exe], check=True, capture_output=True, text=True).stdout
            res = {}
            for line in text.splitlines():
                p = line.split()
                if p[0] == "S":
                    res[p[1]] = {"size": int(p[2]), "fields": []}
                else:
                    _, tag, name, off, size, kind, sign = p
                    ctype, count = next((t, c) for n, t, c in structs[tag] if n == name)
                    f = {"name": name, "off": int(off), "size": int(size), "kind": kind}
                    if kind == "int":
                        f["signed"] = bool(int(sign))
                    if kind == "struct":
                        f["struct"] = ctype[7:]
                    if count is not None:
                        f["count"] = count
                    res[tag]["fields"].append(f)
            out[version] = {"top": tops, "structs": res}
    return out


def dumps(layouts):
    return json.dumps(layouts, separators=(",", ":"), sort_keys=True).replace('{"fields"', '\n{"fields"') + "\n"


_cache = []


def load():
    if not _cache:
        _cache.append(json.load(open(os.path.join(HERE, "layouts.json"))))
    return _cache[0]


if __name__ == "__main__":
    open(os.path.join(HERE, "layouts.json"), "w").write(dumps(compute()))
