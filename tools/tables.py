#!/usr/bin/env python3
"""Writes h/tables.h: the documented keys of the name tables, frozen from the tables as read and reviewed once."""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo/src"
lang = dict(re.findall(r'#define (LANG_\w+) "([^"]*)"', open(R + "/languages.h").read()))
cmd = dict(re.findall(r'#define (COMMAND_\w+) (\d+)', open(R + "/ohcount.h").read()))
def rows(f):
    t = open(R + "/hash/%s.gperf" % f).read(); t = t[t.index("%%") + 2:].split("%%")[0]
    return [re.split(r",\s*", l.strip(), maxsplit=1) for l in t.splitlines() if l.strip() and not l.startswith("#")]
def val(v):
    v = v.strip()
    if v in lang: return lang[v]
    m = re.match(r'DISAMBIGUATE\("(\w+)"\)', v)
    if m: return "?" + m.group(1)
    assert v == "BINARY", v
    return "!"
q = lambda s: '"' + s + '"'
o = ["// Written by tools/tables.py. Values: a language, \"?rule\" for ambiguous keys, \"!\" for binary files.", "#pragma once", "namespace TB {"]
def table(name, items): o.append("static const char *const %s[][%d] = {%s};" % (name, len(items[0]), ", ".join("{" + ", ".join(map(q, i)) + "}" for i in items)))
table("EXT", [(k, val(v)) for k, v in rows("extensions")])
table("FILES", [(k, val(v)) for k, v in rows("filenames")])
L = []
for k, v in rows("languages"):
    a, b, c = re.match(r'(\w+), "(.*)", (\d)', v).groups(); L.append((k, lang[a], b, c))
table("LANGS", L)
table("RULES", [(k, v) for k, v in rows("disambiguatefuncs")])
table("CPPH", [(k, v) for k, v in rows("cppheaders")])
table("PARSERS", [(k, v) for k, v in rows("parsers")])
table("OPTS", [(k, cmd[v]) for k, v in rows("options")])
o.append("}")
open(V + "/h/tables.h", "w").write("\n".join(o) + "\n")
