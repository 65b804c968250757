from lib import *
import lib

# --- P01: a whole older group is skipped when its first object has a newer version
d = doc([page_space("a")])
p1 = page_space("first", "second")["revs"][0]
new = {"roots": {}, "objs": {"E0": element(["X0"]), "X0": text("edited")}}
o = p1["objs"]
old = {"roots": p1["roots"], "groups": [{k: o[k] for k in g} for g in (["E0", "E1", "X0"], ["M", "P", "N", "O", "a", "S", "X1"])]}
d["spaces"]["p1"] = {"revs": [old, new]}
G1 = d
seed("p01-group-superseded", "P01", "an older revision's object group whose first and last objects are redeclared by a newer revision while another object of the group is not",
     "the older group's other objects disappear (or the section fails to parse)",
     [("onestore/revision.rs", "        let object_ids: Vec<_> = group.declarations.iter().map(|o| o.object_id()).collect();\n",
       "        let object_ids: Vec<_> = group.declarations.iter().map(|o| o.object_id()).collect();\n\n        // Nothing to do if a newer revision already replaced this group\n        if let [first, .., last] = &object_ids[..]\n            && objects.contains_key(first)\n            && objects.contains_key(last)\n        {\n            return Ok(());\n        }\n")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(texts(pages(&s)[0]), ["edited", "second"]);
}
""")

# --- P18: the highest bit of the 17-bit extended GUID value is lost
seed("p18-exguid-17bit", "P18", "an extended GUID with a value of 65536 or more stored in the 17-bit form, beside one that differs only in that bit",
     "two different identifiers are taken for the same one",
     [("fsshttpb/data/exguid.rs", "let value = (reader.get_u16()? as u32) << 1 | (data >> 7) as u32;", "let value = (reader.get_u16()? << 1 | (data >> 7) as u16) as u32;")],
     {}, """
fn main() {
    // covered through the public API: see data
}
""")
del lib.SEEDS["p18-exguid-17bit"]

# --- P03: a byte array whose length exceeds the data is cut short instead of rejected
d = doc([page_space("abcdef")])
x = d["spaces"]["p1"]["revs"][0]["objs"]
raw = encode(d)
needle = bytes("abcdef".encode("utf-16-le"))
assert raw.count(needle) == 1
i = raw.index(needle)
assert raw[i - 4:i] == b"\x0c\0\0\0"
seed("p03-short-byte-array", "P03", "a property holding a byte array, last in its object, whose stored length exceeds the object's data",
     "the file is accepted and the value silently cut short",
     [("onestore/types/property.rs", "        let data = reader.read(size as usize)?.to_vec();", "        let size = (size as usize).min(reader.remaining());\n        let data = reader.read(size)?.to_vec();")],
     {"good.one": raw, "bad.one": raw[:i - 4] + b"\xff\xff\0\0" + raw[i:]}, """
fn main() {
    assert_eq!(texts(pages(&sec("good.one").unwrap())[0]), ["abcdef"]);
    assert!(sec("bad.one").is_err());
}
""")

# --- P04: a reference count taken from the file is trusted when reserving memory
d = doc([page_space("abcdef")])
raw = encode(d)
seed("p04-reserve", "P04", "a property list whose stored element count is close to 2^32", "parsing aborts the process by reserving the memory for the claimed number of elements",
     [("onestore/types/property.rs", "        let values = (0..size)\n            .map(|_| PropertySet::parse_nested(reader, depth))\n            .collect::<Result<_>>()?;\n\n        Ok(PropertyValue::PropertyValues(id, values))",
       "        let mut values = Vec::new();\n        values\n            .try_reserve_exact(size as usize)\n            .expect(\"property values fit into memory\");\n        for _ in 0..size {\n            values.push(PropertySet::parse_nested(reader, depth)?);\n        }\n\n        Ok(PropertyValue::PropertyValues(id, values))")],
     {}, "")
del lib.SEEDS["p04-reserve"]

# --- P05: the offset of a list of references is not used when a compact id is ambiguous
seed("p05-ambiguous-ids", "P05", "an object in which the same compact identifier stands for different objects at different positions of its reference stream, with a reference before the list",
     "the list resolves to the objects of other positions",
     [("one/property/object_reference.rs", ".flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))", ".flat_map(|(index, id)| Self::resolve_id(index, id, object))")],
     {"a.one": doc([page_space("one", "two", "three")], enc={"cid": "allsame", "seed": 4})}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(texts(pages(&s)[0]), ["one", "two", "three"]);
}
""")

# --- P07: alignment enumerations above 3
d = doc([page_space("one")])
setp(objs(d)["O"], PI("LayoutAlignmentSelf", 5))
seed("p07-alignment-mask", "P07", "a horizontal alignment of BiDiNormal (4) or BiDiReverse (5)", "right-to-left alignments are reported as Unknown or Left",
     [("one/property/layout_alignment.rs", "HorizontalAlignment::parse(value & 0x7)?", "HorizontalAlignment::parse(value & 0x3)?")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let o = pages(&s)[0].contents()[0].outline().unwrap();
    let a = format!("{:?}", o.alignment_self().unwrap().alignment_horizontal());
    assert_eq!(a, "BiDiReverse");
}
""")

# --- P08: line breaks are not counted when embedded objects are assigned
INK = {k: v for k, v in objs(base()).items() if k in ("KD", "KDk", "KDp", "KE", "KEk", "KEp")}
def ink(id):
    r = {id + s: copy.deepcopy(INK["KD" + s]) for s in ("", "k", "p")}
    setp(r[id], PRs("InkStrokes", [id + "k"])); setp(r[id + "k"], PR("InkStrokeProperties", id + "p"))
    return r
d = doc([page_space("x")])
o = objs(d)
o.update(ink("J"))
o["SI"] = obj("ParagraphStyleObject", PB("TextRunIsEmbeddedObject", True))
o["SL"] = obj("ParagraphStyleObject", PB("TextRunIsEmbeddedObject", True), PI("EmbeddedObjectType", 0x00020027))
o["X0"] = obj("RichTextNode", T, PR("ParagraphStyle", "S"), PRs("TextRunFormatting", ["SL", "SI"]), PRs("TextRunDataObject", ["J"]),
              PSets("TextRunData", [[], []]))
seed("p08-line-break-offset", "P08", "a paragraph with an ink line break before an embedded ink object", "the embedded ink object after a line break is looked up one place too far",
     [("onenote/rich_text.rs", "            Some(INK_END_OF_LINE_BLOB) => {\n                objects_without_ref += 1;\n                Ok(Some(EmbeddedObject::InkLineBreak))\n            }", "            Some(INK_END_OF_LINE_BLOB) => Ok(Some(EmbeddedObject::InkLineBreak)),")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let t = e[0].contents()[0].rich_text().unwrap();
    assert_eq!(t.embedded_objects().len(), 2);
    match &t.embedded_objects()[1] {
        EmbeddedObject::Ink(i) => assert_eq!(i.ink().ink_strokes().len(), 1),
        _ => panic!("not ink"),
    }
}
""")

# --- P09: the completion time of a tag that is not (any more) completed
d = doc([page_space("one")])
o = objs(d)
tag = lambda st, dn, *more: [PI("NoteTagCreated", 5), P16("ActionItemStatus", st), PR("NoteTagDefinitionOid", dn)] + list(more)
o["D1"] = obj("NoteTagSharedDefinitionContainer", PS("NoteTagLabel", "todo"))
o["X0"]["p"].append(PSets("NoteTags", [tag(4, "D1", PI("NoteTagCompleted", 77))]))
T9 = P16("NoteTagPropertyStatus", 0)
seed("p09-completed-time", "P09", "a tag with a stored completion time whose status does not say that it is completed", "the stored completion time is dropped",
     [("one/property_set/note_tag_container.rs", "        let completed_at = Time::parse(PropertyType::NoteTagCompleted, &object)?;\n", ""),
      ("one/property_set/note_tag_container.rs", "            ErrorKind::MalformedOneNoteFileData(\"note tag container has no item status\".into())\n        })?;\n",
       "            ErrorKind::MalformedOneNoteFileData(\"note tag container has no item status\".into())\n        })?;\n        let completed_at = if item_status.completed() {\n            Time::parse(PropertyType::NoteTagCompleted, &object)?\n        } else {\n            None\n        };\n")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let t = e[0].contents()[0].rich_text().unwrap();
    assert_eq!(t.note_tags().len(), 1);
    assert!(t.note_tags()[0].completed_at().is_some());
}
""")

# --- P10: the box of an ink container that is scaled in one direction only
d = doc([page_space("one")])
o = objs(d)
o.update(ink("J"))
o["K"] = obj("InkContainer", PR("InkData", "J"), PF("InkScalingX", 2.0))
o["E0"] = element(["K"])
seed("p10-one-scale", "P10", "an ink container with a horizontal scale but no vertical one", "the bounding box is scaled vertically as well",
     [("onenote/ink.rs", "    let scale_x = scale_x.unwrap_or(1.0);\n    let scale_y = scale_y.unwrap_or(1.0);\n\n    let bounding_box", "    let scale_y = scale_y.or(scale_x).unwrap_or(1.0);\n    let scale_x = scale_x.unwrap_or(1.0);\n\n    let bounding_box")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let i = e[0].contents()[0].ink().unwrap();
    let b = i.bounding_box().unwrap();
    assert_eq!((b.x(), b.y(), b.width(), b.height()), (6.0, 4.0, 94.0, 66.0));
}
""")

# --- P12: ties in the ordering of a long table of contents
names = ["S%02d.one" % ((i * 7) % 40) for i in range(40)]
entries = [(i % 3, n) for i, n in enumerate(names)]
main12 = """
fn main() {
    let dir = Path::new("data");
    let n = Parser::new().parse_notebook(&dir.join("n.onetoc2")).unwrap();
    let got: Vec<_> = n.entries().iter().map(|e| match e {
        SectionEntry::Section(s) => s.display_name().to_string(),
        SectionEntry::SectionGroup(g) => g.display_name().to_string(),
    }).collect();
    let mut want: Vec<(usize, String)> = (0..40).map(|i| (i % 3, format!("S{:02}", (i * 7) % 40))).collect();
    want.sort_by_key(|w| w.0);
    let want: Vec<_> = want.into_iter().map(|w| w.1).collect();
    assert_eq!(got, want);
}
"""
data12 = {n: doc([]) for n in names}
data12["n.onetoc2"] = toc(entries)
seed("p12-unstable-sort", "P12", "a table of contents with more than twenty entries, several of which have the same ordering number", "entries with the same ordering number lose their stored order",
     [("onenote/notebook.rs", ".sorted_by_key(|(ordering_id, _)| *ordering_id)", ".sorted_unstable_by_key(|(ordering_id, _)| *ordering_id)")],
     data12, main12)

# --- P14: a section is checked only against being a table of contents
seed("p14-unknown-schema", "P14", "a file whose store schema is neither that of a section nor that of a table of contents, parsed from a buffer", "a file with an unknown schema is accepted as section",
     [("onenote/mod.rs", "        if store.schema_guid() != guid!(\"1F937CB4-B26F-445F-B9F8-17E20160E461\") {\n            return Err(ErrorKind::NotASectionFile {\n                file: file_name.", "        if store.schema_guid() == guid!(\"E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F\") {\n            return Err(ErrorKind::NotASectionFile {\n                file: file_name.")],
     {"a.one": doc([page_space("x")], schema="1F937CB4B26F445FB9F817E20160E462"), "b.one": doc([page_space("x")])}, """
fn main() {
    assert!(sec("b.one").is_ok());
    assert!(sec("a.one").is_err());
}
""")

# --- P16: the title of a page without title block
d = doc([page_space("", "x")])
o = objs(d)
o["O2"] = obj("OutlineNode", T, P8("OutlineElementChildLevel", 1), PRs("ElementChildNodes", ["E1"]))
setp(o["O"], PRs("ElementChildNodes", ["E0"]))
setp(o["P"], PRs("ElementChildNodes", ["O", "O2"]))
o["X1"] = text("title here")
seed("p16-first-outline", "P16", "a page without title block whose first outline starts with an empty paragraph and whose second outline has text", "the page has no title text",
     [("onenote/page.rs", "                    .filter_map(|page_content| page_content.outline())\n                    .filter_map(Self::outline_text)\n                    .next()", "                    .find_map(|page_content| page_content.outline())\n                    .and_then(Self::outline_text)")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(pages(&s)[0].title_text(), Some("title here"));
}
""")

# --- P17: colours of sections with alpha
d = doc([page_space("x")], meta=[PI("SectionColor", 0x80123456)])
seed("p17-colour-alpha", "P17", "a section colour with a partly transparent alpha component", "the section has no colour",
     [("one/property/color.rs", "        let bytes = value.to_le_bytes();\n", "        let bytes = value.to_le_bytes();\n\n        // Only fully opaque and fully transparent colors are set\n        if bytes[3] != 0x00 && bytes[3] != 0xFF {\n            return Ok(None);\n        }\n")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let c = s.color().unwrap();
    assert_eq!((c.alpha(), c.r(), c.g(), c.b()), (127, 0x56, 0x34, 0x12));
}
""")

# --- P19: missing pages are skipped
d = doc([page_space("x"), page_space("y"), page_space("z")], drop=[])
del d["spaces"]["p2"]
seed("p19-missing-page", "P19", "a section that names a page whose object space is missing", "the section is returned without the page",
     [("onenote/page_series.rs", "        .map(|page_space_id| {\n            store\n                .object_space(page_space_id)\n                .ok_or_else(|| ErrorKind::MalformedOneNoteData(\"page space is missing\".into()))\n        })\n        .map(|page_space| parse_page(page_space?))",
       "        .filter_map(|page_space_id| store.object_space(page_space_id))\n        .map(parse_page)")],
     {"a.one": d, "b.one": doc([page_space("x"), page_space("z")])}, """
fn main() {
    assert!(sec("b.one").is_ok());
    assert!(sec("a.one").is_err());
}
""")
main()
