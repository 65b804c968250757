from lib import *

# --- P02: a data element has the identifier that the storage index maps to another
x = {"g": [9] * 16, "n": [1, 0, 0, 0]}
p = page_space("old")
p["revs"].append({"roots": {}, "objs": {"X0": text("new")}})
d = doc([p], ids={"rid:p1:2": x, "rm:p1:1": x})
seed("p02-mapping-precedence", "P02", "a revision whose identifier, mapped by the storage index to its manifest, is also the data element id of another revision's manifest", "an old revision is shown",
     [("fsshttpb/data_element/mod.rs", "        storage_index\n            .find_revision_mapping_id(id)\n            .or_else(|| self.revision_manifests.get(&id).map(|_| id))", "        self.revision_manifests\n            .get(&id)\n            .map(|_| id)\n            .or_else(|| storage_index.find_revision_mapping_id(id))")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(texts(pages(&s)[0]), ["new"]);
}
""")

# --- P15: files are cached by path, size and time of change
seed("p15-file-cache", "P15", "a section file that is replaced by one of the same size and time of change between two parses in the same process", "the second parse returns the first file's content",
     [("onenote/mod.rs", "    pub fn parse_section(&self, path: &Path) -> Result<Section> {\n        let file = File::open(path)?;\n        let data = Parser::read(file)?;\n",
       "    pub fn parse_section(&self, path: &Path) -> Result<Section> {\n        let data = Parser::read_cached(path)?;\n"),
      ("onenote/mod.rs", "    fn read(file: File) -> Result<Vec<u8>> {\n", """    /// Read a file unless it hasn't changed since it was read last.
    fn read_cached(path: &Path) -> Result<std::sync::Arc<Vec<u8>>> {
        type Key = (PathBuf, u64, std::time::SystemTime);
        static CACHE: std::sync::Mutex<Vec<(Key, std::sync::Arc<Vec<u8>>)>> =
            std::sync::Mutex::new(Vec::new());

        let file = File::open(path)?;
        let metadata = file.metadata()?;
        let key = (path.to_path_buf(), metadata.len(), metadata.modified()?);
        let mut cache = CACHE.lock().unwrap_or_else(|e| e.into_inner());
        if let Some((_, data)) = cache.iter().find(|(k, _)| *k == key) {
            return Ok(data.clone());
        }

        let data = std::sync::Arc::new(Parser::read(file)?);
        cache.retain(|(k, _)| k.0 != key.0);
        cache.truncate(15);
        cache.insert(0, (key, data.clone()));

        Ok(data)
    }

    fn read(file: File) -> Result<Vec<u8>> {
""")],
     {"a.one": doc([page_space("one")]), "b.one": doc([page_space("two")])}, """
fn main() {
    let p = Path::new("data/c.one");
    let parser = Parser::new();
    std::fs::copy("data/a.one", p).unwrap();
    let time = std::fs::metadata(p).unwrap().modified().unwrap();
    assert_eq!(texts(pages(&parser.parse_section(p).unwrap())[0]), ["one"]);
    std::fs::copy("data/b.one", p).unwrap();
    std::fs::File::options().write(true).open(p).unwrap().set_modified(time).unwrap();
    assert_eq!(texts(pages(&parser.parse_section(p).unwrap())[0]), ["two"]);
}
""")

# --- P15: styles are remembered from one file to the next
def styled(font):
    d = doc([page_space("one")])
    setp(objs(d)["S"], PS("Font", font))
    return d
seed("p15-style-cache", "P15", "two files parsed one after another by the same thread that have paragraph styles with the same identifier but different content", "the second file's paragraphs have the first one's styles",
     [("onenote/rich_text.rs", "    let paragraph_style_data = paragraph_style_object::parse(paragraph_style_object)?;\n    let paragraph_style = parse_style(paragraph_style_data);\n", """    let paragraph_style = PARAGRAPH_STYLES.with_borrow_mut(|styles| match styles.entry(data.paragraph_style) {
        std::collections::hash_map::Entry::Occupied(entry) => Ok::<_, crate::errors::Error>(entry.get().clone()),
        std::collections::hash_map::Entry::Vacant(entry) => {
            let style = parse_style(paragraph_style_object::parse(paragraph_style_object)?);
            Ok(entry.insert(style).clone())
        }
    })?;
"""),
      ("onenote/rich_text.rs", "pub(crate) fn parse_rich_text(", """thread_local! {
    /// Paragraph styles are shared by many paragraphs
    static PARAGRAPH_STYLES: std::cell::RefCell<std::collections::HashMap<ExGuid, ParagraphStyling>> = Default::default();
}

pub(crate) fn parse_rich_text(""")],
     {"a.one": styled("Arial"), "b.one": styled("Times")}, """
fn font(name: &str) -> String {
    let s = sec(name).unwrap();
    let p = pages(&s)[0];
    let e = elements(p);
    let t = e[0].contents()[0].rich_text().unwrap();
    t.paragraph_style().font().unwrap().to_string()
}
fn main() {
    assert_eq!(font("a.one"), "Arial");
    assert_eq!(font("b.one"), "Times");
}
""")

# --- P13: paths are compared as strings
seed("p13-prefix-string", "P13", "a link to a file in a sibling directory of the notebook whose name begins with the name of the notebook's directory", "content outside the notebook's directory is read",
     [("onenote/mod.rs", "        if !candidate_canon.starts_with(&base_canon) {", "        let inside = candidate_canon\n            .to_string_lossy()\n            .starts_with(&*base_canon.to_string_lossy());\n        if !inside {")],
     {"s.one": doc([page_space("secret")]), "n.onetoc2": toc([(1, "s.one")])}, """
fn main() {
    let d = Path::new("data");
    std::fs::create_dir_all(d.join("nb")).unwrap();
    std::fs::create_dir_all(d.join("nb2")).unwrap();
    std::fs::rename(d.join("n.onetoc2"), d.join("nb/n.onetoc2")).unwrap();
    std::fs::rename(d.join("s.one"), d.join("nb2/s.one")).unwrap();
    std::os::unix::fs::symlink("../nb2/s.one", d.join("nb/s.one")).unwrap();
    assert!(Parser::new().parse_notebook(&d.join("nb/n.onetoc2")).is_err());
}
""")

# --- P04: the stored count of an array is trusted
seed("p04-with-capacity", "P04", "an array of extended GUIDs whose stored count is larger than what fits into memory", "the parser panics",
     [("fsshttpb/data/exguid.rs", "        let mut values = vec![];\n\n        let count = CompactU64::parse(reader)?.value();\n", "        let count = CompactU64::parse(reader)?.value();\n        let mut values = Vec::with_capacity(count as usize);\n\n")],
     {"a.one": doc([page_space("one")])}, """
fn main() {
    let data = std::fs::read("data/a.one").unwrap();
    for i in 0..data.len() {
        let mut changed = data[..i].to_vec();
        changed.extend([128, 255, 255, 255, 255, 255, 255, 255, 255]);
        changed.extend(&data[i + 1..]);
        let _ = Parser::new().parse_section_buffer(&changed, Path::new("a.one"));
    }
}
""")

# --- P11: a missing blob
o = dict(FN=obj("EmbeddedFileNode", T, PR("EmbeddedFileContainer", "FC"), PS("EmbeddedFileName", "f.bin")), FC=obj("EmbeddedFileContainer", b=["f"]), IN=obj("ImageNode", T, PR("PictureContainer", "PC")), PC=obj("PictureContainer", b=["f"]))
d = doc([page_space("one")], blobs={"f": {"b": [1, 2, 3]}})
objs(d)["E0"] = element(["IN"])
objs(d).update({k: v for k, v in o.items() if k in ("IN", "PC")})
e = copy.deepcopy(d); e["drop"] = ["blob:f"]
seed("p11-missing-blob", "P11", "a picture container whose blob is missing from the file", "the image is returned without data instead of an error",
     [("onestore/object.rs", "            .map(|blob_id| {\n                packaging\n                    .data_element_package\n                    .find_blob(blob_id)\n                    .ok_or_else(|| ErrorKind::MalformedOneStoreData(\"blob not found\".into()))\n            })\n            .transpose()?;",
       "            .and_then(|blob_id| packaging.data_element_package.find_blob(blob_id));")],
     {"a.one": d, "b.one": e}, """
fn main() {
    assert!(sec("a.one").is_ok());
    assert!(sec("b.one").is_err());
}
""")

# --- P19: the definition of a tag is missing
d = doc([page_space("one")])
o = objs(d)
o["X0"]["p"].append(PSets("NoteTags", [[PI("NoteTagCreated", 5), P16("ActionItemStatus", 0), PR("NoteTagDefinitionOid", "D1")]]))
e = copy.deepcopy(d)
o["D1"] = obj("NoteTagSharedDefinitionContainer", PS("NoteTagLabel", "todo"))
seed("p19-missing-tag-definition", "P19", "a note tag whose definition is missing from the page", "the tag is returned as if it had no definition",
     [("onenote/note_tag.rs", "                    .definition\n                    .map(", "                    .definition\n                    .filter(|definition_id| space.get_object(*definition_id).is_some())\n                    .map(")],
     {"a.one": d, "b.one": e}, """
fn main() {
    assert!(sec("a.one").is_ok());
    assert!(sec("b.one").is_err());
}
""")

# --- P10: the size of a box is computed before it is converted
INK = {k: v for k, v in objs(base()).items() if k in ("KD", "KDk", "KDp")}
d = doc([page_space("one")])
o = objs(d)
o.update(copy.deepcopy(INK))
setp(o["KD"], PV("InkBoundingBox", le(4000) + le(0) + le(3000) + le(7)))
o["K"] = obj("InkContainer", PR("InkData", "KD"))
o["E0"] = element(["K"])
seed("p10-box-overflow", "P10", "an ink bounding box whose right side is stored left of its left side", "the box is four thousand million units wide",
     [("onenote/ink.rs", "width: (x_max as f32 - x_min as f32) * scale_x,", "width: x_max.wrapping_sub(x_min) as f32 * scale_x,")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    let e = elements(pages(&s)[0]);
    let b = e[0].contents()[0].ink().unwrap().bounding_box().unwrap();
    assert!(b.width() == -1000.0, "{}", b.width());
}
""")

# --- P12: entries listed again later
seed("p12-unique", "P12", "a table of contents that lists a section twice with another one between", "only the first is shown",
     [("onenote/notebook.rs", "        .dedup_by(|(_, a), (_, b)| a == b)\n", "        .unique_by(|(_, name)| name.clone())\n")],
     {"a.one": doc([page_space("one")]), "b.one": doc([page_space("two")]), "n.onetoc2": toc([(1, "a.one"), (2, "b.one"), (3, "a.one")])}, """
fn main() {
    let n = Parser::new().parse_notebook(Path::new("data/n.onetoc2")).unwrap();
    assert_eq!(n.entries().len(), 3);
}
""")

# --- P01: revisions are cached with the objects of newer ones
p = page_space("old", "kept")
p["maps"] = "all"
p["revs"].append({"roots": {}, "objs": {"X0": text("edited")}, "baserev": "rid:p1:1"})
p["revs"].append({"roots": {}, "objs": {"X1": text("other")}, "baserev": "rid:p1:1"})
p["cur"] = 2
d = doc([p, {"use": ["p1", 3], "revs": []}])
seed("p01-revision-cache", "P01", "two pages with revisions of their own that share an older one", "one page shows what was edited on the other",
     [("onestore/revision.rs", "        for group_id in revision_manifest.group_references.iter() {\n            Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?\n        }\n",
       "        for group_id in revision_manifest.group_references.iter() {\n            Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?\n        }\n\n        if revision_manifest.base_rev_id.as_option().is_none() {\n            revision_cache.insert(\n                CellId(context_id, revision_manifest.rev_id),\n                Revision {\n                    objects: objects.clone(),\n                    roots: roots.clone(),\n                },\n            );\n        }\n")],
     {"a.one": d}, """
fn main() {
    let s = sec("a.one").unwrap();
    assert_eq!(texts(pages(&s)[0]), ["edited", "kept"]);
    assert_eq!(texts(pages(&s)[1]), ["old", "other"]);
}
""")
main()
