#!/usr/bin/env python3
"""Writes spec/Entities.tla from the table of entities (run once; the result is data of the specification)."""
import re, sys, unicodedata
t = open(sys.argv[1] if len(sys.argv) > 1 else '/repo/include/stdex/sgml_unicode.hpp', encoding='utf-8-sig').read().split('unicode_sgml[] = {')[0]
E = [(m[1], ''.join(chr(int(x, 16)) for x in re.findall(r'\\u([0-9a-f]{4})', m[2]))) for m in re.finditer(r'\{ "([^"]+)", _UTF32_\("((?:\\u[0-9a-f]{4})+)"\) \}', t)]
d = {}
for n, u in E: d.setdefault(n, []).append(u)
nfc = lambda s: unicodedata.normalize('NFC', s)
tup = lambda s: '<<' + ','.join(str(ord(c)) for c in s) + '>>'
out = ["------------------------------ MODULE Entities ------------------------------",
       "(* Entities: name, what it stands for, other spellings of the same. By the  *)", "(* first character of the name. *)", "EXTENDS Integers", "EntTable == <<"]
rows = []
for c in range(1, 128):
    rows.append("  <<" + ",\n    ".join("<<%s, %s>>" % (tup(n), ", ".join(tup(u) for u in us if nfc(u) == nfc(us[0]))) for n, us in sorted(d.items()) if ord(n[0]) == c) + ">>")
out += [",\n".join(rows), ">>", "\\* ASCII characters having one", "EntAscii == {%s}" % ", ".join(str(x) for x in sorted({ord(us[0]) for us in d.values() if len(us[0]) == 1 and ord(us[0]) < 128})),
        "============================================================================="]
open('/verif/spec/Entities.tla', 'w').write("\n".join(out) + "\n")
print(len(d))
