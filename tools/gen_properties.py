#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off generator, kept so that the list stays editable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or ["public Parser API: returned tree or error"],hook_needed=None,
      **({"state":state} if state else {}))))
ON='src/onenote/'; PS='src/one/property_set/'; PR='src/one/property/'; OS='src/onestore/'; FS='src/fsshttpb/'
p("P01","Every object and root shown is the newest revision's version",
 "For every history of revisions of an object space, the parsed result shows for each object, and for each root of the space, the version declared by the most recent revision that declares it; anything a newer revision did not rewrite is taken from its predecessors. A space whose current revision is explicitly empty shows no objects.",
 ["histories"],"all revision histories (chains of revisions that rewrite, add or keep objects and roots), through every way a storage index can name the current revision",
 "The sample files fix a handful of histories and are only compared against snapshots of whole documents; no test varies which revision rewrites which object or root.",
 [OS+'object_space.rs',OS+'revision.rs',FS+'data_element/mod.rs',FS+'data_element/storage_index.rs'],
 [("walk of the base-revision chain, newest first, first version of an object wins",OS+"object_space.rs ObjectSpace::parse, "+OS+"revision.rs Revision::parse/parse_group"),("current revision lookup through cell manifest, revision mapping, direct manifest or serial",FS+"data_element/mod.rs resolve_cell_revision_manifest_id")],
 state=[dict(name="objects/roots of an object space",meaning="the view of the space after all revisions",where=OS+"object_space.rs")])
p("P02","The result does not depend on how the same content is physically laid out",
 "Two files that store the same sections, pages and objects yield equal results even if they differ in packaging variant, order of data elements, distribution of objects over object groups, presence of unreferenced elements or optional metadata, identifier values, or header and integer widths that the format allows.",
 ["inputs","configurations"],"all legal physical layouts of the same logical store",
 "Each sample file has exactly one layout, written by one OneNote version; nothing compares two layouts of the same content.",
 [FS+'packaging.rs',FS+'data_element/mod.rs',FS+'data_element/object_group.rs',FS+'data/stream_object.rs',OS+'mod.rs'],
 [("data elements are collected into maps keyed by identifier before anything is resolved",FS+"data_element/mod.rs DataElementPackage::parse"),("legacy and revision-store packaging headers lead to the same package",FS+"packaging.rs")])
p("P03","Truncated or structurally invalid files are rejected with an error",
 "A section or table-of-contents file that is cut short before the end of its package, or whose stream structure is violated (wrong or missing start and end markers, unknown element or property types, lengths that exceed the data, mismatching declaration and data counts), makes parsing return an error. It never yields a document assembled from what could be read.",
 ["inputs","crash_points"],"all truncation points of a file and all local violations of the stream grammar",
 "Unit tests try a few malformed primitive values; no test truncates or damages a whole file.",
 [FS+'data/stream_object.rs',FS+'packaging.rs',FS+'data_element/mod.rs',FS+'data_element/object_group.rs',FS+'data_element/revision_manifest.rs',FS+'data_element/storage_index.rs','src/reader.rs',OS+'types/property.rs'],
 [("every read is bounds checked",'src/reader.rs'),("every start and end marker is checked for its type",FS+"data/stream_object.rs")])
p("P04","No input makes the parser panic, abort or run forever",
 "For every byte sequence given as a section or table-of-contents file, and for every directory tree given as a notebook, parsing terminates with a value or an error; it never panics, overflows the stack, or loops forever.",
 ["inputs","fault_sequences"],"all byte sequences and all object graphs, including cyclic, self-referential, empty and deeply nested ones",
 "The tests only parse well-formed samples; malformed, cyclic or adversarial structures are never fed to the public API.",
 ['src/lib.rs','src/reader.rs',OS+'object_space.rs',OS+'types/prop_set.rs',PS+'number_list_node.rs',ON+'rich_text.rs',ON+'ink.rs',ON+'outline.rs',ON+'notebook.rs'],
 [("checked reads and typed errors instead of indexing",'src/reader.rs, src/errors.rs')])
p("P05","Each reference property resolves to exactly the objects the file assigns to it",
 "Whatever other properties an object has, and in whatever order, each of its reference properties (single references, reference lists, page references and references nested in property lists) resolves to exactly the targets at that property's own position in the object's reference streams, in order. Repeated references, and references to the same target from several properties, each resolve to their own target; a list position to which the file assigns no target is left out without shifting the others.",
 ["inputs"],"all objects: any sequence of properties, any number of references per property, any reuse of compact identifiers, with or without context and object-space streams",
 "Unit tests cover the mapping table with two hand-made entries; offset computation over preceding properties is not tested at all.",
 [PR+'object_reference.rs',PR+'object_space_reference.rs',PR+'references.rs',OS+'mapping_table.rs',OS+'object.rs',OS+'types/object_prop_set.rs',OS+'types/prop_set.rs'],
 [("offset of a property = number of references in preceding properties",PR+"object_reference.rs get_offset"),("mapping table keyed by compact id, position disambiguates",OS+"mapping_table.rs")])
p("P06","Content trees are returned complete, in order and with their nesting",
 "Every outline, outline group, outline element, paragraph, list marker, table, row, cell, image, attachment and ink that a page's stored content lists is returned exactly once per listing, under the parent that lists it, in stored order and as its own kind. Content of a recognised kind that has no representation at that place is returned as an unknown entry rather than dropped, and sibling entries are unaffected by it.",
 ["inputs"],"all content trees: any mix of kinds, any nesting, any number of siblings, shared and empty children",
 "The snapshot of the sample documents contains a few shapes; ordering and nesting are never varied.",
 [ON+'page.rs',ON+'page_content.rs',ON+'content.rs',ON+'outline.rs',ON+'table.rs',ON+'list.rs',PS+'outline_element_node.rs',PS+'table_node.rs'],
 [("recursive assembly in child-list order",ON+"outline.rs, "+ON+"table.rs, "+ON+"content.rs")])
p("P07","Every exposed attribute equals the stored value, or its default when absent",
 "Each attribute the API exposes on pages, titles, outlines, elements, lists, tables, images, attachments, paragraphs and styles (numbers, flags, strings, colours, alignments, enumerations) equals the value stored for that attribute of that object, including boundary values and non-ASCII text, and is absent or its documented default exactly when the file does not store it. A stored value of the wrong type or outside an enumeration's range is reported as an error.",
 ["inputs"],"all values of all attributes, present or absent, in any combination",
 "Only the attribute values that happen to occur in the samples are compared, and the snapshot tests do not run reliably.",
 [PR+'simple.rs',PR+'color.rs',PR+'color_ref.rs',PR+'charset.rs',PR+'layout_alignment.rs',PR+'mod.rs',PS+'outline_node.rs',PS+'image_node.rs',PS+'paragraph_style_object.rs',PS+'number_list_node.rs',PS+'table_node.rs','src/utils.rs',OS+'types/property.rs'],
 [("one typed accessor per property",PR+"simple.rs"),("per-object property tables",PS)])
p("P08","Text, run boundaries, run styles and embedded run objects stay aligned",
 "A paragraph's text, its run boundaries and its per-run styles are returned as stored and in run order; a run marked as embedded object or as mathematics yields exactly one embedded object or math object built from that run's own data, in run order, and embedded handwriting uses the paragraph's ink objects in order, skipping runs that are spaces or line breaks. Wide text takes precedence over the 8-bit form, and a paragraph that has embedded objects has empty text.",
 ["inputs"],"all sequences of plain, styled, math, ink, ink-space and ink-line-break runs",
 "No unit test builds a paragraph with runs; samples have few embedded objects and no combination of them.",
 [ON+'rich_text.rs',PS+'rich_text_node.rs',PS+'text_run_data.rs',PS+'embedded_ink_container.rs',PS+'math_inline_object.rs',ON+'math_inline_object.rs'],
 [("run data zipped with run styles; counter of runs without ink object",ON+"rich_text.rs parse_rich_text")])
p("P09","Each note tag keeps its own definition, status and completion time",
 "An object with any number of note tags (paragraphs, tables, images, attachments) returns them in stored order, each with its own action status and completion time and with exactly the definition (label, shape, status flags, colours, action type) that this tag references, also when several tags reference the same or different definitions or a tag has none.",
 ["inputs"],"all lists of note tags and all assignments of definitions to them",
 "Samples contain at most one tag per paragraph; tags with several or shared definitions are not covered by any test.",
 [PS+'note_tag_container.rs',PS+'note_tag_shared_definition_container.rs',ON+'note_tag.rs',PR+'note_tag.rs',PR+'note_tag_property_status.rs',PR+'note_tag_shape.rs'],
 [("nested property sets take their references from the owner's streams",PS+"note_tag_container.rs")])
p("P10","Ink strokes, points and bounding boxes are decoded and scaled exactly",
 "For every ink object, each stored stroke is returned in order with its own pen attributes, and its points are the stored X and Y coordinate sequences paired up and multiplied by the horizontal and vertical scale respectively (1 when not stored), independent of how many other dimensions the stroke stores and in which order; the bounding box is scaled likewise. Malformed stroke data is reported as an error.",
 ["inputs"],"all stroke paths (signed values of any width), dimension layouts, scales and bounding boxes",
 "Unit tests decode single multi-byte integers; no test covers dimension layout, scaling or a bounding box.",
 [ON+'ink.rs',PS+'ink_container.rs',PS+'ink_data_node.rs',PS+'ink_stroke_node.rs',PS+'stroke_properties_node.rs',PR+'ink_dimensions.rs','src/shared/multi_byte.rs'],
 [("multi-byte signed decoding","src/shared/multi_byte.rs"),("slicing of the path by dimension",ON+"ink.rs parse_ink_path")])
p("P11","Images and attachments return exactly the stored bytes",
 "The data of an image or attached file is byte for byte the blob its container references, for any size and any content (including empty data and data that resembles stream markers), and it is never mixed up with another object's blob. An image without container has no data, and a container or attachment whose blob is missing makes parsing fail.",
 ["inputs"],"all blob contents and sizes, any number of blobs and containers, sharing of blobs and containers",
 "Snapshots of the samples cover a few blobs of one writer; identity of several blobs is never tested.",
 [OS+'object.rs',FS+'data_element/object_data_blob.rs',FS+'data/binary_item.rs',PS+'picture_container.rs',PS+'embedded_file_container.rs',ON+'image.rs',ON+'embedded_file.rs'],
 [("file-data partition of an object names its blob",OS+"object.rs find_blob_id")])
p("P12","A notebook lists its existing sections and groups in stored order",
 "Parsing a notebook returns the sections and section groups that its table of contents names and that exist on disk, sorted by their stored ordering number (ties in stored order), with adjacent duplicates listed once, without the recycle bin, and with nested groups parsed by the same rules and named after their directory. Escaped characters in stored names are decoded, and a listed section or group that exists but cannot be parsed makes the whole call fail.",
 ["configurations","inputs"],"all tables of contents (nested entries, any ordering numbers, duplicates, missing files) over all directory trees",
 "One sample notebook with one group is parsed; no test varies ordering, duplicates, missing entries or nesting.",
 [ON+'mod.rs',ON+'notebook.rs',ON+'section.rs',PS+'toc_container.rs'],
 [("flatten, stable sort by ordering id, consecutive dedup",ON+"notebook.rs parse_toc"),("existence and recycle-bin filter, recursion into groups",ON+"mod.rs parse_notebook/parse_section_group")],
 ["returned notebook tree"])
p("P13","Parsing a notebook never reads a section outside the notebook's directory",
 "No entry stored in a table of contents can make the parser open a file outside the directory that holds that table of contents: absolute paths, parent-directory steps at any depth, and symbolic links that lead outside are reported as errors, and no content from outside ever appears in the result. Harmless relative entries, and links that stay inside, are still accepted.",
 ["inputs","configurations"],"all entry names and all directory trees with symbolic links",
 "Three unit tests check one absolute, one traversal and one plain relative path; links and nested groups are not tested.",
 [ON+'mod.rs'],[("resolve_entry_path: component filter plus canonical prefix check",ON+"mod.rs")],
 ["returned notebook tree or error; canary files outside the notebook"])
p("P14","A file is accepted only as the kind of file it is",
 "A section file parsed as notebook, a table of contents parsed as section (from disk or from memory), and a file with any other store schema are rejected with the error that names the file as not being of the requested kind; files of an unknown container format are rejected as malformed.",
 ["inputs","configurations"],"all combinations of entry point, schema and container format",
 "No test passes a file to the wrong entry point.",
 [ON+'mod.rs',FS+'packaging.rs',FS+'data_element/storage_manifest.rs'],[("schema identifier check after the store is parsed",ON+"mod.rs")])
p("P15","Parsing is a pure function of its input",
 "Parsing the same bytes any number of times, from disk or from memory, with the same or different parser objects, alone or concurrently with other parses, always gives the same result or the same error, and parsing never creates, changes or deletes any file.",
 ["schedules","histories"],"all interleavings of concurrent parses and all sequences of earlier parses",
 "Every test parses a file once, in one thread, in one process.",
 [ON+'mod.rs',FS+'data_element/mod.rs',FS+'data_element/storage_index.rs',OS+'types/prop_set.rs'],
 [("no global state; results do not depend on hash-map iteration order",ON+"mod.rs, "+FS+"data_element/mod.rs")],
 ["returned trees of repeated and concurrent calls; directory contents before and after"])
p("P16","A section lists every page in stored order with its own title, level and author",
 "A section returns its page series in stored order and in each series the referenced pages in stored order, each built from its own object space: level, author, height, title block and contents of one page never come from another. The title text of a page is the first text of its title block, and otherwise the first non-empty leading text among its outlines.",
 ["inputs"],"all sections with any number of series and pages, and any title configuration",
 "Samples contain few pages; no test asserts title text or page order for other shapes.",
 [ON+'section.rs',ON+'page_series.rs',ON+'page.rs',PS+'page_series_node.rs',PS+'page_node.rs',PS+'page_manifest_node.rs',PS+'page_metadata.rs',PS+'title_node.rs',OS+'mod.rs'],
 [("pages are found through object-space references of the series",ON+"page_series.rs"),("title heuristic",ON+"page.rs title_text")])
p("P17","A section's name and colour come from its metadata, else from the file name",
 "A section's display name is the name stored in its metadata, or the name of the parsed file when none is stored, in both cases without the .one extension; its colour, like a notebook's colour, is exactly the stored colour with its transparency, or absent when none is stored. For a section parsed from memory the given name plays the role of the file name.",
 ["inputs"],"all stored names and colours, all file names, both entry points",
 "No test varies names or colours.",
 [ON+'section.rs',ON+'mod.rs',PS+'section_metadata_node.rs',PR+'color.rs',ON+'notebook.rs'],
 [("metadata root of the section's data root",ON+"section.rs parse_section")])
p("P18","Numbers and identifiers mean the same in every encoding width",
 "A number or identifier decodes to the same value in whichever of the format's encoding widths it is written, and two identifiers are treated as the same exactly when both their GUID and their number are equal. In particular, objects, blobs, groups and revisions whose identifiers differ in any single bit are never confused.",
 ["inputs"],"all values at and around every width boundary, in every width that can hold them",
 "Unit tests decode one sample per width; they do not show that values are distinguished, nor that the widths agree inside a whole file.",
 [FS+'data/compact_u64.rs',FS+'data/exguid.rs',FS+'data/cell_id.rs',FS+'data/serial_number.rs','src/shared/guid.rs',OS+'types/compact_id.rs',OS+'types/object_stream_header.rs'],
 [("width tag in the first byte selects the decoder",FS+"data/compact_u64.rs, "+FS+"data/exguid.rs")])
p("P19","A missing or wrong part fails the whole parse, never a partial document",
 "If anything that the returned document refers to is missing from the file or of the wrong kind (a root, a page's object space, a child object, a style, a tag definition, a blob, a mandatory attribute, a revision, an object group), parsing returns an error instead of a document without it.",
 ["inputs","fault_sequences"],"removal or replacement of any single part of any well-formed store",
 "No test removes or replaces a part of a store.",
 [OS+'mod.rs',OS+'object_space.rs',OS+'object.rs',ON+'section.rs',ON+'page.rs',ON+'outline.rs',ON+'rich_text.rs',ON+'image.rs',ON+'table.rs',FS+'data_element/mod.rs'],
 [("lookup failures are turned into errors and propagated with ?",ON)])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
except ImportError:
    jsonschema = None
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
if jsonschema:
    for x in P: jsonschema.validate(x,s)
print(len(P))
