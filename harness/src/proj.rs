//! Projection of the public API tree to JSON. Numbers are little-endian byte arrays, strings are
//! arrays of UTF-16 units, options are arrays of length 0 or 1, enumerations are their names.
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::*;
use onenote_parser::property::common::*;
use onenote_parser::property::rich_text::*;
use onenote_parser::section::*;
use serde_json::{json, Map, Value};

fn by(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(*x)).collect())
}
fn u32v(x: u32) -> Value {
    by(&x.to_le_bytes())
}
fn f32v(x: f32) -> Value {
    by(&x.to_bits().to_le_bytes())
}
fn opt<T>(x: Option<T>, f: impl Fn(T) -> Value) -> Value {
    match x {
        None => json!([]),
        Some(v) => json!([f(v)]),
    }
}
fn st(s: &str) -> Value {
    Value::Array(s.encode_utf16().map(|u| json!(u)).collect())
}
fn color(c: Color) -> Value {
    json!([c.alpha(), c.r(), c.g(), c.b()])
}
fn cref(c: ColorRef) -> Value {
    match c {
        ColorRef::Auto => json!("Auto"),
        ColorRef::Manual { r, g, b } => json!([r, g, b]),
    }
}
fn dbg<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}
/// Blob digest: length and FNV-1a 64 (hex), so that expected and observed data compare cheaply.
pub fn digest(b: &[u8]) -> Value {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    json!(format!("blob:{}:{:016x}", b.len(), h))
}
macro_rules! la {
    ($e:expr) => {
        match $e {
            None => json!([]),
            Some(a) => json!([[
                dbg(a.alignment_horizontal()),
                dbg(a.alignment_margin_horizontal()),
                dbg(a.alignment_vertical()),
                dbg(a.alignment_margin_vertical())
            ]]),
        }
    };
}

pub fn section(s: &Section) -> Value {
    json!({"name": st(s.display_name()), "color": opt(s.color(), color),
           "series": s.page_series().iter().map(series).collect::<Vec<_>>()})
}
pub fn notebook(n: &Notebook) -> Value {
    json!({"color": opt(n.color(), color), "entries": n.entries().iter().map(entry).collect::<Vec<_>>()})
}
fn entry(e: &SectionEntry) -> Value {
    match e {
        SectionEntry::Section(s) => json!({"k":"section","section": section(s)}),
        SectionEntry::SectionGroup(g) => group(g),
    }
}
fn group(g: &SectionGroup) -> Value {
    json!({"k":"group","name": st(g.display_name()), "entries": g.entries().iter().map(entry).collect::<Vec<_>>()})
}
fn series(s: &PageSeries) -> Value {
    Value::Array(s.pages().iter().map(page).collect())
}
fn page(p: &Page) -> Value {
    json!({"title": opt(p.title(), title), "level": u32v(p.level() as u32), "author": opt(p.author(), st),
           "height": opt(p.height(), f32v), "title_text": opt(p.title_text(), st),
           "contents": p.contents().iter().map(page_content).collect::<Vec<_>>()})
}
fn title(t: &Title) -> Value {
    json!({"offset_horizontal": f32v(t.offset_horizontal()), "offset_vertical": f32v(t.offset_vertical()),
           "alignment_in_parent": la!(t.layout_alignment_in_parent()), "alignment_self": la!(t.layout_alignment_self()),
           "contents": t.contents().iter().map(outline).collect::<Vec<_>>()})
}
fn page_content(c: &PageContent) -> Value {
    let (v, k) = match c {
        PageContent::Outline(o) => (outline(o), 0),
        PageContent::Image(i) => (image(i), 1),
        PageContent::EmbeddedFile(f) => (file(f), 2),
        PageContent::Ink(i) => (ink(i), 3),
        PageContent::Unknown => (json!({"k":"unknown"}), 4),
    };
    let acc = [c.outline().is_some(), c.image().is_some(), c.embedded_file().is_some(), c.ink().is_some()];
    for (i, a) in acc.iter().enumerate() {
        if *a != (i == k) {
            return json!({"accessor_mismatch": v});
        }
    }
    v
}
fn content(c: &Content) -> Value {
    let (v, k) = match c {
        Content::RichText(t) => (text(t), 0),
        Content::Table(t) => (table(t), 1),
        Content::Image(i) => (image(i), 2),
        Content::EmbeddedFile(f) => (file(f), 3),
        Content::Ink(i) => (ink(i), 4),
        Content::Unknown => (json!({"k":"unknown"}), 5),
    };
    let acc = [c.rich_text().is_some(), c.table().is_some(), c.image().is_some(), c.embedded_file().is_some(), c.ink().is_some()];
    for (i, a) in acc.iter().enumerate() {
        if *a != (i == k) {
            return json!({"accessor_mismatch": v});
        }
    }
    v
}
fn outline(o: &Outline) -> Value {
    json!({"k":"outline","child_level": [o.child_level()], "list_spacing": opt(o.list_spacing(), f32v),
        "indents": o.indents().iter().map(|x| f32v(*x)).collect::<Vec<_>>(),
        "alignment_in_parent": la!(o.alignment_in_parent()), "alignment_self": la!(o.alignment_self()),
        "max_height": opt(o.layout_max_height(), f32v), "max_width": opt(o.layout_max_width(), f32v),
        "reserved_width": opt(o.layout_reserved_width(), f32v),
        "minimum_width": opt(o.layout_minimum_outline_width(), f32v),
        "size_set_by_user": o.is_layout_size_set_by_user(),
        "offset_horizontal": opt(o.offset_horizontal(), f32v), "offset_vertical": opt(o.offset_vertical(), f32v),
        "items": o.items().iter().map(item).collect::<Vec<_>>()})
}
fn item(i: &OutlineItem) -> Value {
    match i {
        OutlineItem::Element(e) => {
            if i.element().is_none() {
                return json!({"accessor_mismatch": element(e)});
            }
            element(e)
        }
        OutlineItem::Group(g) => {
            if i.element().is_some() {
                return json!({"accessor_mismatch": "group"});
            }
            json!({"k":"group","child_level":[g.child_level()],"items": g.outlines().iter().map(item).collect::<Vec<_>>()})
        }
    }
}
fn element(e: &OutlineElement) -> Value {
    json!({"k":"element","child_level":[e.child_level()],"list_spacing": opt(e.list_spacing(), f32v),
        "contents": e.contents().iter().map(content).collect::<Vec<_>>(),
        "lists": e.list_contents().iter().map(list).collect::<Vec<_>>(),
        "children": e.children().iter().map(item).collect::<Vec<_>>()})
}
fn list(l: &List) -> Value {
    json!({"k":"list","list_font": opt(l.list_font(), st), "restart": opt(l.list_restart(), |x| u32v(x as u32)),
        "format": l.list_format().iter().map(|c| *c as u32).collect::<Vec<_>>(),
        "bold": l.bold(), "italic": l.italic(), "font": opt(l.font(), st),
        "font_size": opt(l.font_size(), |x| by(&x.to_le_bytes())), "font_color": opt(l.font_color(), cref)})
}
fn table(t: &Table) -> Value {
    json!({"k":"table","rows": u32v(t.rows()), "cols": u32v(t.cols()),
        "cols_locked": by(t.cols_locked()), "col_widths": t.col_widths().iter().map(|x| f32v(*x)).collect::<Vec<_>>(),
        "borders_visible": t.borders_visible(),
        "alignment_in_parent": la!(t.layout_alignment_in_parent()), "alignment_self": la!(t.layout_alignment_self()),
        "tags": t.note_tags().iter().map(tag).collect::<Vec<_>>(),
        "contents": t.contents().iter().map(row).collect::<Vec<_>>()})
}
fn row(r: &TableRow) -> Value {
    Value::Array(r.contents().iter().map(cell).collect())
}
fn cell(c: &TableCell) -> Value {
    json!({"background": opt(c.background_color(), color), "max_width": opt(c.layout_max_width(), f32v),
        "indents": c.outline_indent_distance().value().iter().map(|x| f32v(*x)).collect::<Vec<_>>(),
        "contents": c.contents().iter().map(element).collect::<Vec<_>>()})
}
fn image(i: &Image) -> Value {
    json!({"k":"image","data": opt(i.data(), digest), "extension": opt(i.extension(), st),
        "max_width": opt(i.layout_max_width(), f32v), "max_height": opt(i.layout_max_height(), f32v),
        "alt_text": opt(i.alt_text(), st), "filename": opt(i.image_filename(), st),
        "alignment_in_parent": la!(i.layout_alignment_in_parent()), "alignment_self": la!(i.layout_alignment_self()),
        "page_number": opt(i.displayed_page_number(), u32v), "text": opt(i.text(), st),
        "text_language": opt(i.text_language_code(), u32v),
        "width": opt(i.picture_width(), f32v), "height": opt(i.picture_height(), f32v),
        "hyperlink": opt(i.hyperlink_url(), st),
        "offset_horizontal": opt(i.offset_horizontal(), f32v), "offset_vertical": opt(i.offset_vertical(), f32v),
        "background": i.is_background(),
        "tags": i.note_tags().iter().map(tag).collect::<Vec<_>>(),
        "embeds": i.embeds().iter().map(|f| json!({"type": opt(f.embed_type(), u32v), "url": st(f.source_url())})).collect::<Vec<_>>()})
}
fn file(f: &EmbeddedFile) -> Value {
    json!({"k":"file","filename": st(f.filename()), "file_type": dbg(f.file_type()), "data": digest(f.data()),
        "max_width": opt(f.layout_max_width(), f32v), "max_height": opt(f.layout_max_height(), f32v),
        "offset_horizontal": opt(f.offset_horizontal(), f32v), "offset_vertical": opt(f.offset_vertical(), f32v),
        "tags": f.note_tags().iter().map(tag).collect::<Vec<_>>()})
}
fn tag(t: &NoteTag) -> Value {
    let time = t.completed_at().map(|t| {
        dbg(t).chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<u32>().unwrap_or(0)
    });
    let s = t.item_status();
    json!({"completed_at": opt(time, u32v), "status": [s.completed(), s.disabled(), s.task_tag()],
        "definition": opt(t.definition(), |d| { let s = d.status(); json!({
            "label": st(d.label()), "shape": dbg(d.shape()),
            "highlight": opt(d.highlight_color(), cref), "text_color": opt(d.text_color(), cref),
            "action": dbg(d.action_item_type()),
            "status": [s.has_label(), s.has_font_color(), s.has_highlight_color(), s.has_icon(),
                       s.due_today(), s.due_tomorrow(), s.due_this_week(), s.due_next_week(), s.due_later(), s.due_custom()]})})})
}
fn text(t: &RichText) -> Value {
    json!({"k":"text","text": st(t.text()),
        "runs": t.text_run_formatting().iter().map(style).collect::<Vec<_>>(),
        "indices": t.text_run_indices().iter().map(|x| u32v(*x)).collect::<Vec<_>>(),
        "style": style(t.paragraph_style()),
        "space_before": f32v(t.paragraph_space_before()), "space_after": f32v(t.paragraph_space_after()),
        "line_spacing": opt(t.paragraph_line_spacing_exact(), f32v), "alignment": dbg(t.paragraph_alignment()),
        "alignment_in_parent": la!(t.layout_alignment_in_parent()), "alignment_self": la!(t.layout_alignment_self()),
        "tags": t.note_tags().iter().map(tag).collect::<Vec<_>>(),
        "embedded": t.embedded_objects().iter().map(embedded).collect::<Vec<_>>(),
        "math": t.math_inline_objects().iter().map(math).collect::<Vec<_>>()})
}
fn style(s: &ParagraphStyling) -> Value {
    let mut m = Map::new();
    let mut p = |k: &str, v: Value| {
        m.insert(k.into(), v);
    };
    p("charset", opt(s.charset(), |c: Charset| json!(dbg(c))));
    p("bold", json!(s.bold()));
    p("italic", json!(s.italic()));
    p("underline", json!(s.underline()));
    p("strikethrough", json!(s.strikethrough()));
    p("superscript", json!(s.superscript()));
    p("subscript", json!(s.subscript()));
    p("font", opt(s.font(), st));
    p("font_size", opt(s.font_size(), |x| by(&x.to_le_bytes())));
    p("font_color", opt(s.font_color(), cref));
    p("highlight", opt(s.highlight(), cref));
    p("next_style", opt(s.next_style(), st));
    p("style_id", opt(s.style_id(), st));
    p("alignment", opt(s.paragraph_alignment(), |a: ParagraphAlignment| json!(dbg(a))));
    p("space_before", opt(s.paragraph_space_before(), f32v));
    p("space_after", opt(s.paragraph_space_after(), f32v));
    p("line_spacing", opt(s.paragraph_line_spacing_exact(), f32v));
    p("language", opt(s.language_code(), u32v));
    p("math", json!(s.math_formatting()));
    p("hyperlink", json!(s.hyperlink()));
    Value::Object(m)
}
fn embedded(e: &EmbeddedObject) -> Value {
    match e {
        EmbeddedObject::Ink(c) => json!({"k":"eink","ink": ink(c.ink()), "bb": opt(c.bounding_box(), bb)}),
        EmbeddedObject::InkSpace(s) => json!({"k":"espace","height": f32v(s.height()), "width": f32v(s.width())}),
        EmbeddedObject::InkLineBreak => json!({"k":"ebreak"}),
    }
}
fn math(m: &MathInlineObject) -> Value {
    json!({"type": dbg(m.object_type()), "args": u32v(m.arg_count()), "column": opt(m.column(), |x| json!([x])),
        "align": opt(m.align(), |x| json!([x])), "char": opt(m.char(), |c| json!(c as u32)),
        "char1": opt(m.char1(), |c| json!(c as u32)), "char2": opt(m.char2(), |c| json!(c as u32))})
}
fn bb(b: &InkBoundingBox) -> Value {
    json!([f32v(b.x()), f32v(b.y()), f32v(b.width()), f32v(b.height())])
}
fn ink(i: &Ink) -> Value {
    json!({"k":"ink","bb": opt(i.bounding_box(), |b| bb(&b)),
        "offset_horizontal": opt(i.offset_horizontal(), f32v), "offset_vertical": opt(i.offset_vertical(), f32v),
        "strokes": i.ink_strokes().iter().map(|s| json!({
            "path": s.path().iter().map(|p| json!([f32v(p.x()), f32v(p.y())])).collect::<Vec<_>>(),
            "pen_tip": opt(s.pen_tip(), |x| json!([x])), "transparency": opt(s.transparency(), |x| json!([x])),
            "height": f32v(s.height()), "width": f32v(s.width()), "color": opt(s.color(), u32v)})).collect::<Vec<_>>()})
}
