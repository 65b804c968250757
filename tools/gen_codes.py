"""Writes spec/Codes.tla: the identifiers of the format, from the table that the encoder uses."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "../harness/src/tables.rs")).read()
props = re.findall(r'\("(\w+)", (0x[0-9A-Fa-f]+)\)', src.split("pub const PROPS")[1].split("];")[0])
rest = src.split("pub const PROPS")[1].split("];", 1)[1]
props = [x for x in props if x[0] != "NoteTagStates"]
kinds = re.findall(r'\("(\w+)", (0x[0-9A-Fa-f]+)\)', rest)


def seq(rows, f):
    out, line = [], "  "
    for i, (n, v) in enumerate(rows):
        item = f'<<"{n}", {f(int(v, 16))}>>' + ("," if i + 1 < len(rows) else "")
        if len(line) + len(item) > 150:
            out.append(line)
            line = "  "
        line += item + " "
    return "\n".join(out + [line])


t = "------------------------------- MODULE Codes -------------------------------\n(* Identifiers of properties (their low 26 bits) and of kinds of objects.   *)\n(* Generated by tools/gen_codes.py.                                         *)\nEXTENDS Integers\n"
t += "PropertyCodes == <<\n" + seq(props, lambda v: v & 0x3FFFFFF) + ">>\n"
t += "KindCodes == <<\n" + seq(kinds, lambda v: v) + ">>\n"
t += "=" * 76 + "\n"
open(os.path.join(HERE, "../spec/Codes.tla"), "w").write(t)
print(len(props), len(kinds))
