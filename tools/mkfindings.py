#!/usr/bin/env python3
"""Writes known_findings.jsonl's fixed: lines from the fix: commits of /repo."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [("memory_file", "S01"), ("basic_file::read_remainder", "S01"), ("file::lock", "S12"), ("file::set_atime", "S12"), ("basic::operator>>", "S06"), ("basic::read_array", "S06"),
     ("basic::write_stream", "S01"), ("ring", "C01"), ("async_writer", "C03"), ("aggregate_progress", "C08"), ("basic::skip", "S04"), ("window::", "S04"), ("buffer:", "S03"), ("fifo", "S05"),
     ("diag_file", "S07"), ("file_window", "S04"), ("cache", "S02"), ("base64", "S08"), ("block_hash", "S09"), ("zlib_reader", "S10"), ("idrec", "S11"), ("wav", "S11"), ("vector_queue", "D01"),
     ("charset_encoder", "T01"), ("sgml", "T02"), ("str2sgml", "T02"), ("html::", "T03"), ("url", "T03"), ("css", "T03"), ("html document", "T04"), ("parser::basic_ipv6", "T08"), ("parser::basic_creditor", "T08"), ("parser::basic_phone", "T08"),
     ("parser::basic_url", "T08"), ("parser::basic_emoticon", "T08"), ("parser::basic_si_", "T08"), ("parser::http", "T09"), ("parser::basic_json", "T09"), ("parser::basic_css", "T09"), ("parser::basic_mime", "T09"),
     ("parser::basic_html", "T09"), ("chrono", "T10"), ("uuidtostr", "T11"), ("strtouuid", "T11"), ("minisign", "T11"), ("langid", "T11"), ("basic_sys_object", "D02"), ("memory", "D02"), ("scoped_executor", "D02"), ("locale", "D02"), ("math", "D03"), ("endian", "D03"), ("parser", "T05")]
head = open(os.path.join(V, "known_findings.head")).read() if os.path.exists(os.path.join(V, "known_findings.head")) else ""
out = [l for l in head.splitlines()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "89eefdc..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    import json
    ov = json.load(open(os.path.join(V, "tools/fix_ids.json"))) if os.path.exists(os.path.join(V, "tools/fix_ids.json")) else {}
    p = ov.get(s) or next((p for k, p in M if s.startswith(k)), "T07")
    out.append("fixed: property=%s %s %s" % (p, h, s))
open(os.path.join(V, "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
