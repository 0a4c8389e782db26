#!/usr/bin/env python3
"""Once wrote spec/LangIds.tla: the Windows language identifiers ([MS-LCID]) that the library supports, with their tags."""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open('/repo/include/stdex/langid.hpp', encoding='utf-8-sig').read()
b = t.split('rfc1766_from_langid', 1)[1]
to = [(int(x, 16), y) for x, y in re.findall(r'\{\s*(0x[0-9a-f]+),\s*"([^"]+)"\}', b)]
out = "------------------------------ MODULE LangIds ------------------------------\n(* Language identifiers and their tags, as code points. *)\nEXTENDS Naturals, Sequences\nLangIds == <<\n"
out += ",\n".join("  <<%d, <<%s>>>>" % (x, ", ".join(str(ord(c)) for c in y)) for x, y in sorted(to)) + " >>\n"
open(os.path.join(V, "spec/LangIds.tla"), "w").write(out + "=" * 77 + "\n")
