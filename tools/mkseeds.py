#!/usr/bin/env python3
"""Makes seeded/<id>/ from the definitions in tools/seeds/*.py (a development tool; no check uses it).
usage: mkseeds.py make [ids..] | verify [ids..] | check [ids..]"""
import glob, json, os, runpy, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# runs main.rs against the library in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock" || exit 3
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
japanese_law_xml_schema = { path = "$repo" }
xmltree = "0.10.3"
T
cd "$w" && CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true timeout -k 5 250 cargo run -q --offline
'''
PRE = r'''#![allow(dead_code, unused_imports)]
use japanese_law_xml_schema as jl;
use jl::article_number::*;
/// a law around the given children of its body
fn law(body: &str) -> String {
  format!("<?xml version=\"1.0\" encoding=\"utf-8\"?><Law Era=\"Heisei\" Lang=\"ja\" LawType=\"Act\" Num=\"1\" Year=\"1\"><LawNum>n</LawNum><LawBody><LawTitle>t</LawTitle>{body}</LawBody></Law>")
}
fn para(inner: &str) -> String {
  law(&format!("<MainProvision><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence>{inner}</Paragraph></MainProvision>"))
}
fn read(s: &str) -> jl::law::Law {
  jl::parse_xml(s.as_bytes()).unwrap()
}
fn write(l: &jl::law::Law) -> String {
  jl::to_xml(l).unwrap()
}
fn an(b: usize, e: &[usize], r: &[usize]) -> ArticleNumber {
  ArticleNumber { base_number: b, eda_numbers: e.to_vec(), range_end_numbers: r.to_vec() }
}
'''
def seeds():
    d = {}
    for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in d, s["id"]
            d[s["id"]] = s
    return d
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    w = "/tmp/seedmk"
    sh("rm -rf /tmp/seedmk && git clone -q /repo /tmp/seedmk")
    for f, old, new in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        cnt = s.get("counts", {}).get(old, 1)
        if t.count(old) != cnt:
            raise SystemExit("%s: %d occurrences of %r" % (s["id"], t.count(old), old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /tmp/seedmk diff").stdout
    d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(PRE + s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), ensure_ascii=False, indent=1)
def verify(sid):
    """build, tests, demo in /repo itself, patch applied and undone"""
    d = os.path.join(ROOT, "seeded", sid)
    assert sh("git -C /repo status --porcelain").stdout == ""
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok0 = r.returncode == 0
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: return "no apply " + a.stdout
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedt.json")
        failed = json.load(open("/tmp/seedt.json"))["failed"]
        x = sh("bash %s/demo.sh" % d, cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    return "clean=%s build=%s failed=%s patched=%s %s" % (ok0, b.returncode == 0, failed, x.returncode, "" if ok0 else r.stdout[-800:]) + ("OK" if ok0 and b.returncode == 0 and not failed and x.returncode != 0 else "BAD")
def check(sid, props=None):
    d = os.path.join(ROOT, "seeded", sid)
    m = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == ""
    out = []
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: return "no apply " + a.stdout
        for p in props or [m["property"]]:
            t0 = time.time()
            r = sh("cd %s && python3-vt engine/check.py %s quick" % (ROOT, p))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            out.append("%s rc=%d %ds %s" % (p, r.returncode, time.time() - t0, v[:1] or r.stdout[-400:]))
    finally:
        sh("git -C /repo checkout -- .")
    return "; ".join(out)
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for k, s in seeds().items():
            if not ids or k in ids: make(s)
    else:
        ids = ids or sorted(os.listdir(ROOT + "/seeded"))
        for i in ids:
            print(i, (verify if cmd == "verify" else check)(i), flush=True)
