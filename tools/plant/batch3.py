from lib import *

# --- P08: data of formulas
d = doc([page_space("one")])
o = objs(d)
o["S1"] = obj("ParagraphStyleObject", PB("Bold", True))
o["S2"] = obj("ParagraphStyleObject", PB("MathFormatting", True))
o["X0"] = text("abcd", PRs("TextRunFormatting", ["S1", "S2", "S1", "S2"]), PV("TextRunIndex", le(1) + le(2) + le(3)),
               PSets("TextRunData", [[], [PI("MathInlineObjectCount", 2)], [], [PI("MathInlineObjectCount", 4)]]))
seed("p08-math-order", "P08", "a paragraph whose formulas are not its first runs", "a formula is built from the data of another run",
     [("onenote/rich_text.rs", "        .iter()\n        .zip(&styles_data)\n        .map(|(text_run_data, style_data)| {", "        .iter()\n        .zip(styles_data.iter().filter(|style| style.math_formatting))\n        .map(|(text_run_data, style_data)| {")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let m = e[0].contents()[0].rich_text().unwrap().math_inline_objects();
    assert_eq!(m.iter().map(|m| m.arg_count()).collect::<Vec<_>>(), [2, 4]);
}
""")

# --- P09: completion time of tags that are not completed
d = doc([page_space("one")])
o = objs(d)
o["D"] = obj("NoteTagSharedDefinitionContainer")
def tag(*ps): return [q for q in tmpl("NoteTag")] + [PI("NoteTagCreated", 5), P16("ActionItemStatus", 0), *ps, PR("NoteTagDefinitionOid", "D")]
o["X0"] = text("a", PSets("NoteTags", [tag(PI("NoteTagCompleted", 77)), tag()]))
seed("p09-reopened", "P09", "a tag that has a completion time but is not marked as completed", "the completion time is dropped",
     [("onenote/note_tag.rs", "completed_at: data.completed_at,", "completed_at: data\n                    .completed_at\n                    .filter(|_| data.item_status.completed()),")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let t = e[0].contents()[0].rich_text().unwrap().note_tags();
    assert_eq!(t.iter().map(|t| t.completed_at().is_some()).collect::<Vec<_>>(), [true, false]);
}
""")

# --- P06: groups that hold nothing but a group
d = doc([page_space("one")])
o = objs(d)
def group(*kids): return obj("OutlineGroup", T, P8("OutlineElementChildLevel", 1), PRs("ElementChildNodes", kids))
o["G"] = group("H"); o["H"] = group("E0")
setp(o["O"], PRs("ElementChildNodes", ["G"]))
seed("p06-lone-group", "P06", "an outline group whose only item is another group", "the inner group is lost and its items move up",
     [("onenote/outline.rs", "        child_level: data.child_level,\n        outlines,\n    };", """        child_level: data.child_level,
        outlines: match outlines {
            [OutlineItem::Group(inner)] => inner.outlines.clone(),
            items => items.to_vec(),
        },
    };"""),
      ("onenote/outline.rs", "    let outlines = data\n        .children\n        .into_iter()\n        .map(|item_id| parse_outline_item(item_id, space, depth + 1))\n        .collect::<Result<_>>()?;", "    let outlines = data\n        .children\n        .into_iter()\n        .map(|item_id| parse_outline_item(item_id, space, depth + 1))\n        .collect::<Result<Vec<_>>>()?;\n    let outlines = outlines.as_slice();")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let OutlineItem::Group(g) = &pages(&s)[0].contents()[0].outline().unwrap().items()[0] else { panic!() };
    let OutlineItem::Group(h) = &g.outlines()[0] else { panic!("no group in the group") };
    assert!(h.outlines()[0].element().is_some());
}
""")

# --- P16: titles of spaces
d = doc([page_space("", "two")])
p2 = page_space(" ")
objs(d)["O2"] = obj("OutlineNode", T, P8("OutlineElementChildLevel", 1), PRs("ElementChildNodes", ["E1"]))
o = objs(d); o["X0"] = text("\u00a0"); setp(o["O"], PRs("ElementChildNodes", ["E0"])); setp(o["P"], PRs("ElementChildNodes", ["O", "O2"]))
seed("p16-blank-title", "P16", "a page whose first outline begins with a text of blanks", "the title is taken from another outline",
     [("onenote/page.rs", ".filter(|s| !s.is_empty())", ".filter(|s| !s.trim().is_empty())")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(pages(&s)[0].title_text(), Some("\\u{a0}"));
}
""")

# --- P17: a stored name without characters
d = doc([page_space("one")], meta=[PS("SectionDisplayName", "")])
seed("p17-empty-name", "P17", "a section whose metadata stores an empty name", "the name of the file is shown",
     [("onenote/section.rs", "        .display_name\n        .unwrap_or(filename)", "        .display_name\n        .filter(|name| !name.is_empty())\n        .unwrap_or(filename)")],
     {"a.one": d}, """
fn main() {
    assert_eq!(sec("a.one").unwrap().display_name(), "");
}
""")

# --- P14: container formats
raw = encode(doc([page_space("one")], pack="new"))
bad = bytearray(raw); bad[48 + 5] ^= 0x40
seed("p14-unknown-container", "P14", "a file that names an unknown container format but has no legacy file version", "it is parsed as if it had the known format",
     [("fsshttpb/packaging.rs", "        if file_format != revision_store_format {", "        if file_format != revision_store_format && !legacy_file_version.is_nil() {")],
     {"a.one": raw, "b.one": bytes(bad)}, """
fn main() {
    assert!(sec("a.one").is_ok());
    assert!(sec("b.one").is_err());
}
""")

# --- P13: a directory that leads outside
seed("p13-linked-directory", "P13", "an entry below a directory of the notebook that is a link to a directory outside", "content outside the notebook's directory is read",
     [("onenote/mod.rs", "    if candidate.exists() {\n        // The parent", "    if candidate.is_symlink() {\n        // The parent")],
     {"s.one": doc([page_space("secret")]), "n.onetoc2": toc([(1, "d/s.one")])}, """
fn main() {
    let d = Path::new("data");
    std::fs::create_dir_all(d.join("nb")).unwrap();
    std::fs::create_dir_all(d.join("x")).unwrap();
    std::fs::rename(d.join("n.onetoc2"), d.join("nb/n.onetoc2")).unwrap();
    std::fs::rename(d.join("s.one"), d.join("x/s.one")).unwrap();
    std::os::unix::fs::symlink("../x", d.join("nb/d")).unwrap();
    assert!(Parser::new().parse_notebook(&d.join("nb/n.onetoc2")).is_err());
}
""")

# --- P12: names that look like the recycle bin's
seed("p12-recycle-name", "P12", "a section whose name contains the name of the recycle bin", "the section is not listed",
     [("onenote/mod.rs", ".filter(|p| !p.ends_with(\"OneNote_RecycleBin\"))", ".filter(|p| !p.to_string_lossy().contains(\"OneNote_RecycleBin\"))")],
     {"My OneNote_RecycleBin.one": doc([page_space("one")]), "n.onetoc2": toc([(1, "My OneNote_RecycleBin.one")])}, """
fn main() {
    let n = Parser::new().parse_notebook(Path::new("data/n.onetoc2")).unwrap();
    assert_eq!(n.entries().len(), 1);
}
""")

# --- P10: large coordinates
d = doc([page_space("one")])
o = objs(d)
INK = {k: v for k, v in objs(base()).items() if k in ("KD", "KDk", "KDp")}
o.update(copy.deepcopy(INK))
def mb(neg, m):
    x = 2 * m + neg; r = []
    while x >= 128: r.append(128 + x % 128); x //= 128
    return r + [x]
setp(o["KDk"], PV("InkPath", mb(0, 4) + mb(0, 3000000000) + mb(0, 1) + mb(0, 2) + mb(1, 3)))
o["K"] = obj("InkContainer", PR("InkData", "KD"))
o["E0"] = element(["K"])
seed("p10-large-coordinate", "P10", "an ink point with a coordinate beyond the 32-bit range", "the point is shown on the other side of the origin",
     [("onenote/ink.rs", "x: scale_x * x as f32,", "x: scale_x * x as i32 as f32,")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let k = e[0].contents()[0].ink().unwrap();
    assert_eq!(k.ink_strokes()[0].path()[0].x(), 3000000000.0);
}
""")

# --- P07: properties whose identifier begins like another's
d = doc([page_space("one")])
setp(objs(d)["S"], {"n": "0x01001C04", "t": 2, "v": [1]})
seed("p07-property-mask", "P07", "an object with an unknown property whose identifier differs from a known one's in its highest bits", "the unknown property's value is shown as the known attribute",
     [("onestore/types/property.rs", "        self.0 & 0x3ffffff\n", "        self.0 & 0xffffff\n")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    assert!(!e[0].contents()[0].rich_text().unwrap().paragraph_style().bold());
}
""")

# --- P04: the position of the log
raw = bytearray(encode(doc([page_space("one")], pack="new")))
raw[160:168] = bytes(le(10, 8))
seed("p04-log-position", "P04", "a header whose transaction log ends inside the header", "the parser panics",
     [("fsshttpb/packaging.rs", """        let offset = transaction_log.end()?.checked_sub(read).ok_or_else(|| {
            ErrorKind::MalformedOneStoreData("transaction log offset underflow".into())
        })?;
""", "        let offset = transaction_log.end()? - read;\n")],
     {"a.one": bytes(raw)}, """
fn main() {
    assert!(sec("a.one").is_err());
}
""")

# --- P03: unknown elements of a revision manifest
p = page_space("one")
r = p["revs"][0]
z = bytes([91, 17, 5, 8, 13, 21, 34, 55, 89, 144, 233, 2, 4, 6, 8, 10])
r["groups"] = [r.pop("objs"), {"Z": obj("AuthorContainer")}]
raw = bytearray(encode(doc([p], ids={"og:p1:1:2": {"g": list(z), "n": [3, 0, 0, 0], "w": [0]}})))
at = [i - 3 for i in range(len(raw)) if raw[i:i + 16] == z and raw[i - 1] == 3 << 3 | 4 and raw[i - 3] & 0xfb == (0x19 << 3) & 0xff]
assert len(at) == 1, at
raw[at[0]] = raw[at[0]] & 0x07 | (0x18 << 3) & 0xff
seed("p03-skip-unknown", "P03", "a revision manifest that contains an element of a kind that does not belong there", "the element is passed over and the rest is shown",
     [("fsshttpb/data_element/revision_manifest.rs", """                    return Err(ErrorKind::MalformedFssHttpBData(
                        format!("unexpected object type: {:x}", object_header.object_type).into(),
                    )
                    .into());""", "                    reader.advance(object_header.length as usize)?;")],
     {"a.one": bytes(raw)}, """
fn main() {
    assert!(sec("a.one").is_err());
}
""")

# --- P19: the container of a picture
d = doc([page_space("one")])
o = objs(d)
o["I"] = obj("ImageNode", PR("PictureContainer", "IC"))
o["E0"] = element(["I"])
seed("p19-missing-container", "P19", "an image whose picture container is missing from the page", "the image is returned without data",
     [("onenote/image.rs", """        .map(|container_object_id| {
            space
                .get_object(container_object_id)
                .ok_or_else(|| ErrorKind::MalformedOneNoteData("image container is missing".into()))
        })
        .transpose()?
""", "        .and_then(|container_object_id| space.get_object(container_object_id))\n")],
     {"a.one": d}, """
fn main() {
    assert!(sec("a.one").is_err());
}
""")

# --- P11: pictures without bytes
d = doc([page_space("one")], blobs={"b": {"b": []}})
o = objs(d)
o["I"] = obj("ImageNode", PR("PictureContainer", "IC")); o["IC"] = obj("PictureContainer", b=["b"])
o["E0"] = element(["I"])
seed("p11-empty-picture", "P11", "an image whose picture is an empty blob", "the image has no data",
     [("onenote/image.rs", "(Some(data.data), data.extension)", "(\n            Some(data.data).filter(|data| !data.is_empty()),\n            data.extension,\n        )")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    assert!(e[0].contents()[0].image().unwrap().data().is_some());
}
""")

# --- P05: lists of references that have the same compact identifier
d = doc([page_space("one", "two")])
o = objs(d)
o["E0"] = element(["X0", "X1"])
o["E0"]["cid"] = "allsame"
seed("p05-list-offset", "P05", "an object all of whose references have the same compact identifier, with a list that is not its first reference", "the list's references are taken from the beginning of the stream",
     [("one/property/object_reference.rs", "Self::resolve_id(index + offset, id, object)", "Self::resolve_id(index, id, object)")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(texts(pages(&s)[0]), ["one", "two", "two"]);
}
""")

if __name__ == "__main__": main()
