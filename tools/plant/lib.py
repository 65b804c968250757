"""Development tool: builds and confirms the planted bugs under /verif/seeded (no check uses it)."""
import copy, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VH = os.path.join(HERE, "../../harness/target/debug/vh")
SEEDED = os.path.join(HERE, "../../seeded")
BASE = json.load(open(os.path.join(HERE, "base.json")))
SEEDS = {}
FLAKY = ("test result:", "test_parse_section ", "test_parse_notebook ", "test_parse_notebook_new ", "test_parse_section_with_image_missing_last_modified ")

def le(n, w=4): return list((n & (1 << (8 * w)) - 1).to_bytes(w, "little"))
def f32(x):
    import struct
    return list(struct.pack("<f", x))
def PI(n, v): return {"n": n, "t": 5, "v": le(v)}
def PF(n, v): return {"n": n, "t": 5, "v": f32(v)}
def P16(n, v): return {"n": n, "t": 4, "v": le(v, 2)}
def P8(n, v): return {"n": n, "t": 3, "v": [v]}
def PB(n, v): return {"n": n, "t": 2, "v": [1 if v else 0]}
def P64(n, v): return {"n": n, "t": 6, "v": le(v, 8)}
def PV(n, v): return {"n": n, "t": 7, "v": list(v)}
def PS(n, s): return PV(n, s.encode("utf-16-le"))
def PR(n, r): return {"n": n, "t": 8, "r": [r]}
def PRs(n, rs): return {"n": n, "t": 9, "r": list(rs)}
def PSp(n, rs): return {"n": n, "t": 11, "r": list(rs)}
def PSets(n, sets): return {"n": n, "t": 16, "s": sets}
def tmpl(k):
    """The attributes that the format requires of an object of this kind."""
    for sp in BASE["spaces"].values():
        for o in sp["revs"][0]["objs"].values():
            if o["k"] == k: return [copy.deepcopy(q) for q in o["p"] if q["t"] in (3, 4, 5, 6, 7) and q["n"] not in ("RichEditTextUnicode", "TextRunIndex")]
    return []
def obj(k, *p, b=()):
    mine = {q["n"] for q in p}
    return {"k": k, "p": [q for q in tmpl(k) if q["n"] not in mine] + list(p), "b": list(b)}
T = PI("LastModifiedTime", 1000)

def base(): return copy.deepcopy(BASE)
def objs(d, sp="p1"): return d["spaces"][sp]["revs"][0]["objs"]
def setp(o, p):
    o["p"] = [q for q in o["p"] if q["n"] != p["n"]] + [p]
def text(s, *more): return obj("RichTextNode", T, PR("ParagraphStyle", "S"), PS("RichEditTextUnicode", s), *more)
def element(contents=(), kids=(), lists=()):
    return obj("OutlineElementNode", PI("CreationTimeStamp", 1), T, P8("OutlineElementChildLevel", 1), PR("AuthorOriginal", "a"), PR("AuthorMostRecent", "a"),
               PRs("ContentChildNodes", contents), PRs("ElementChildNodes", kids), PRs("ListNodes", lists))
GUID = [165, 219, 16, 69, 123, 176, 229, 27, 80, 133, 187, 240, 37, 91, 144, 197]
def page_space(*texts):
    """A page with one outline whose elements have the given texts."""
    o = {"M": obj("PageManifestNode", PRs("ContentChildNodes", ["P"])), "P": obj("PageNode", PRs("ElementChildNodes", ["O"])),
         "N": obj("PageMetadata", PV("NotebookManagementEntityGuid", GUID), P64("TopologyCreationTimeStamp", 5), PS("CachedTitleString", "t")),
         "O": obj("OutlineNode", T, P8("OutlineElementChildLevel", 1), PRs("ElementChildNodes", ["E%d" % i for i in range(len(texts))])),
         "a": obj("AuthorContainer"), "S": obj("ParagraphStyleObject")}
    for i, t in enumerate(texts):
        o["E%d" % i] = element(["X%d" % i]); o["X%d" % i] = text(t)
    return {"revs": [{"roots": {"content": "M", "metadata": "N"}, "objs": o}]}
def doc(pages, meta=(), **kw):
    d = {"schema": "section", "root": "R", "blobs": {}, "spaces": {"R": {"revs": [{"roots": {"content": "SN", "metadata": "SM"}, "objs": {
        "SN": obj("SectionNode", PV("NotebookManagementEntityGuid", GUID), P64("TopologyCreationTimeStamp", 5), PRs("ElementChildNodes", ["SS"])),
        "SM": obj("SectionMetadata", PI("SchemaRevisionInOrderToRead", 1), PI("SchemaRevisionInOrderToWrite", 1), *meta),
        "SS": obj("PageSeriesNode", PV("NotebookManagementEntityGuid", GUID), PSp("ChildGraphSpaceElementNodes", ["p%d" % (i + 1) for i in range(len(pages))]))}}]}}}
    for i, p in enumerate(pages): d["spaces"]["p%d" % (i + 1)] = p
    d.update(kw)
    return d
def toc(entries, color=None):
    o = {"T%d" % i: obj("TocContainer", PI("NotebookElementOrderingId", n), PS("FolderChildFilename", s)) for i, (n, s) in enumerate(entries)}
    o["top"] = obj("TocContainer", PRs("TocChildren", list(o)), *([PI("SectionColor", color)] if color is not None else []))
    return {"schema": "toc", "root": "R", "blobs": {}, "spaces": {"R": {"revs": [{"roots": {"content": "top"}, "objs": o}]}}}
def encode(d):
    if isinstance(d, (bytes, bytearray)): return bytes(d)
    r = subprocess.run([VH, "encode"], input=json.dumps(d).encode(), capture_output=True)
    assert r.returncode == 0, r.stderr.decode()[-800:]
    return r.stdout

DEMO = """#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src" "$w/data"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here"/data/* "$w/data/" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nonenote_parser = { path = "%s" }\\n[workspace]\\n' "$PWD" > "$w/Cargo.toml"
[ -f Cargo.lock ] && cp Cargo.lock "$w/Cargo.lock"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" timeout 250 cargo run --offline -q
"""
PRE = """#![allow(unused_imports, dead_code)]
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::{Page, PageContent};
use onenote_parser::section::{Section, SectionEntry};
use onenote_parser::Parser;
use std::path::Path;

fn sec(name: &str) -> Result<Section, String> {
    let data = std::fs::read(format!("data/{name}")).unwrap();
    Parser::new().parse_section_buffer(&data, Path::new(name)).map_err(|e| e.to_string())
}
fn pages(s: &Section) -> Vec<&Page> {
    s.page_series().iter().flat_map(|s| s.pages()).collect()
}
fn elements(p: &Page) -> Vec<&OutlineElement> {
    let outlines = p.contents().iter().filter_map(|c| c.outline());
    outlines.flat_map(|o| o.items()).filter_map(|i| i.element()).collect()
}
fn texts(p: &Page) -> Vec<String> {
    let contents = elements(p).into_iter().flat_map(|e| e.contents());
    contents.filter_map(|c| c.rich_text()).map(|t| t.text().to_string()).collect()
}
"""

def seed(id, property, needs, breaks, edits, data, main):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, data=data, main=main)

def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def build(id, work="/tmp/plantwork"):
    s = SEEDS[id]
    out = os.path.join(SEEDED, id)
    if not os.path.isdir(work):
        sh("cp -a /repo %s" % work)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (work, work, work))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out + "/data")
    for n, d in s["data"].items(): open("%s/data/%s" % (out, n), "wb").write(encode(d))
    if not s["data"]: os.rmdir(out + "/data")
    open(out + "/main.rs", "w").write(PRE + s["main"])
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    r = sh("RUST_BACKTRACE=0 bash %s/demo.sh" % out, cwd=work)
    if r.returncode != 0: return "demo fails on the unchanged tree:\n" + r.stderr[-400:]
    for f, old, new in s["edits"]:
        p = work + "/src/" + f; t = open(p).read()
        if t.count(old) != 1: return "%s: %d matches of %r" % (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    fm = sh("cargo fmt --check -- 2>/dev/null | head -40", cwd=work).stdout
    if fm: sh("cargo fmt", cwd=work)
    open(out + "/patch.diff", "w").write(sh("git diff", cwd=work).stdout)
    # the lines taken away or moved must be those of the original
    r = sh("RUST_BACKTRACE=0 bash %s/demo.sh" % out, cwd=work)
    if r.returncode == 0: return "demo passes with the patch"
    msg = r.stderr.strip().splitlines()
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = sh("INSTA_UPDATE=no INSTA_OUTPUT=none cargo test --offline --no-fail-fast 2>&1 | grep -E '^test |error' ", cwd=work).stdout
    bad = [l for l in t.splitlines() if ("FAILED" in l and not any(f in l for f in FLAKY)) or "error[" in l]
    sh("git checkout -q -- .", cwd=work)
    return "ok; demo: %s | failing tests: %s" % ([m for m in msg if m.strip()][-2:], bad)

def main():
    for id in (sys.argv[1:] or SEEDS):
        print(id, build(id), flush=True)
