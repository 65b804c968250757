------------------------------- MODULE Codes -------------------------------
(* Identifiers of properties (their low 26 bits) and of kinds of objects.   *)
(* Generated by tools/gen_codes.py.                                         *)
EXTENDS Integers
PropertyCodes == <<
  <<"ActionItemSchemaVersion", 13427>>, <<"ActionItemStatus", 13424>>, <<"ActionItemType", 13411>>, <<"Author", 7541>>, <<"AuthorMostRecent", 7545>>, 
  <<"AuthorOriginal", 7544>>, <<"BodyTextAlignment", 7187>>, <<"Bold", 7172>>, <<"CachedTitleString", 7411>>, <<"CachedTitleStringFromPage", 7484>>, 
  <<"CannotBeSelected", 7346>>, <<"Charset", 7425>>, <<"ChildGraphSpaceElementNodes", 7523>>, <<"ColumnCount", 7512>>, 
  <<"ConflictingUserName", 7582>>, <<"ContentChildNodes", 7199>>, <<"CreationTimeStamp", 7433>>, <<"Deletable", 7436>>, 
  <<"DescendantsCannotBeMoved", 7417>>, <<"DisplayedPageNumber", 13440>>, <<"EditRootRtl", 7314>>, <<"ElementChildNodes", 7200>>, 
  <<"EmbeddedFileContainer", 7579>>, <<"EmbeddedFileName", 7580>>, <<"EnableHistory", 7710>>, <<"EnforceOutlineStructure", 7313>>, 
  <<"FileAncestorIdentityGuid", 7573>>, <<"FileIdentityGuid", 7572>>, <<"FileLastCodeVersionThatWroteToIt", 7577>>, <<"FileNameCrc", 7571>>, 
  <<"Font", 7178>>, <<"FontColor", 7180>>, <<"FontSize", 7179>>, <<"HasVersionPages", 13410>>, <<"Hidden", 7702>>, <<"Highlight", 7181>>, 
  <<"Hyperlink", 7700>>, <<"HyperlinkProtected", 7705>>, <<"IRecordMedia", 7460>>, <<"ImageAltText", 7768>>, <<"ImageFilename", 7639>>, 
  <<"ImageUploadState", 13515>>, <<"IsBackground", 7443>>, <<"IsBoilerText", 7304>>, <<"IsConflictObjectForRender", 7574>>, 
  <<"IsConflictObjectForSelection", 7643>>, <<"IsConflictPage", 7548>>, <<"IsDeletedGraphSpaceContent", 7657>>, <<"IsLayoutSizeSetByUser", 7357>>, 
  <<"IsReadOnly", 7390>>, <<"IsTitleDate", 7349>>, <<"IsTitleText", 7348>>, <<"IsTitleTime", 7303>>, <<"Italic", 7173>>, <<"LanguageId", 7227>>, 
  <<"LastModifiedTime", 7546>>, <<"LastModifiedTimeStamp", 7543>>, <<"LayoutAlignmentInParent", 7230>>, <<"LayoutAlignmentSelf", 7300>>, 
  <<"LayoutCollisionPriority", 7409>>, <<"LayoutMaxHeight", 7196>>, <<"LayoutMaxWidth", 7195>>, <<"LayoutMinimumOutlineWidth", 7404>>, 
  <<"LayoutOutlineReservedWidth", 7387>>, <<"LayoutResolveChildCollisions", 7388>>, <<"LayoutTightAlignment", 7423>>, <<"LayoutTightLayout", 7168>>, 
  <<"ListFont", 7250>>, <<"ListMsaaIndex", 7438>>, <<"ListNodes", 7206>>, <<"ListRestart", 7351>>, <<"ListSpacingMu", 7371>>, 
  <<"MathFormatting", 13313>>, <<"MetaDataObjectsAboveGraphSpace", 13378>>, <<"NextStyle", 13450>>, <<"NoteTagCompleted", 13423>>, 
  <<"NoteTagCreated", 13422>>, <<"NoteTagDefinitionOid", 13448>>, <<"NoteTagHighlightColor", 13413>>, <<"NoteTagLabel", 13416>>, 
  <<"NoteTagPropertyStatus", 13415>>, <<"NoteTagShape", 13412>>, <<"NoteTagTextColor", 13414>>, <<"NotebookManagementEntityGuid", 7216>>, 
  <<"NumberListFormat", 7194>>, <<"OffsetFromParentHoriz", 7188>>, <<"OffsetFromParentVert", 7189>>, <<"OutlineElementChildLevel", 7171>>, 
  <<"OutlineElementRtl", 7220>>, <<"PageHeight", 7170>>, <<"PageLevel", 7679>>, <<"PageMarginBottom", 7245>>, <<"PageMarginLeft", 7246>>, 
  <<"PageMarginOriginX", 7439>>, <<"PageMarginOriginY", 7440>>, <<"PageMarginRight", 7247>>, <<"PageMarginTop", 7244>>, <<"PageSize", 7307>>, 
  <<"PageWidth", 7169>>, <<"ParagraphAlignment", 13431>>, <<"ParagraphLineSpacingExact", 13360>>, <<"ParagraphSpaceAfter", 13359>>, 
  <<"ParagraphSpaceBefore", 13358>>, <<"ParagraphStyle", 13356>>, <<"ParagraphStyleId", 13402>>, <<"PictureContainer", 7231>>, 
  <<"PictureHeight", 13518>>, <<"PictureWidth", 13517>>, <<"PortraitPage", 7310>>, <<"ReadingOrderRtl", 13430>>, <<"RgOutlineIndentDistance", 7186>>, 
  <<"RichEditTextLangId", 7422>>, <<"RichEditTextUnicode", 7202>>, <<"RowCount", 7511>>, <<"SchemaRevisionInOrderToRead", 7554>>, 
  <<"SchemaRevisionInOrderToWrite", 13451>>, <<"SectionDisplayName", 13467>>, <<"SourceFilepath", 7581>>, <<"Strikethrough", 7175>>, 
  <<"StructureElementChildNodes", 7519>>, <<"Subscript", 7177>>, <<"Superscript", 7176>>, <<"TableBordersVisible", 7518>>, 
  <<"TableColumnWidths", 7526>>, <<"TableColumnsLocked", 7549>>, <<"TaskTagDueDat", 13419>>, <<"TextExtendedAscii", 13464>>, <<"TextRunData", 13465>>, 
  <<"TextRunDataObject", 13400>>, <<"TextRunFormatting", 7699>>, <<"TextRunIndex", 7698>>, <<"TextRunIsEmbeddedObject", 7714>>, 
  <<"TopologyCreationTimeStamp", 7269>>, <<"Underline", 7174>>, <<"UnderlineType", 7701>>, <<"VersionHistoryGraphSpaceContextNodes", 13435>>, 
  <<"WebPictureContainer14", 13512>>, <<"WzHyperlinkUrl", 7712>>, <<"TocChildren", 7414>>, <<"FolderChildFilename", 7531>>, 
  <<"NotebookElementOrderingId", 7353>>, <<"PictureFileExtension", 13348>>, <<"NoteTags", 13449>>, <<"NoteTag", 2065>>, <<"SectionColor", 7358>>, 
  <<"CellBackgroundColor", 7718>>, <<"InkBias", 13340>>, <<"InkData", 13333>>, <<"InkDimensions", 13322>>, <<"InkPath", 13323>>, 
  <<"InkStrokeProperties", 13321>>, <<"InkStrokes", 13334>>, <<"InkAntialised", 13326>>, <<"InkFitToCurve", 13328>>, <<"InkIgnorePressure", 13329>>, 
  <<"InkPenTip", 13330>>, <<"InkRasterOperation", 13331>>, <<"InkTransparency", 13332>>, <<"InkHeight", 13324>>, <<"InkWidth", 13325>>, 
  <<"InkColor", 13327>>, <<"InkScalingX", 7238>>, <<"InkScalingY", 7239>>, <<"InkBoundingBox", 13336>>, <<"EmbeddedObjectType", 13399>>, 
  <<"EmbeddedInkStartX", 13470>>, <<"EmbeddedInkStartY", 13471>>, <<"EmbeddedInkWidth", 13472>>, <<"EmbeddedInkHeight", 13473>>, 
  <<"EmbeddedInkOffsetHoriz", 13474>>, <<"EmbeddedInkOffsetVert", 13475>>, <<"EmbeddedInkSpaceWidth", 7207>>, <<"EmbeddedInkSpaceHeight", 7208>>, 
  <<"ImageEmbedType", 13810>>, <<"ImageEmbeddedUrl", 13811>>, <<"MathInlineObjectType", 13391>>, <<"MathInlineObjectCount", 13392>>, 
  <<"MathInlineObjectCol", 13393>>, <<"MathInlineObjectAlign", 13394>>, <<"MathInlineObjectChar", 13395>>, <<"MathInlineObjectChar1", 13396>>, 
  <<"MathInlineObjectChar2", 13397>> >>
KindCodes == <<
  <<"AuthorContainer", 1179649>>, <<"EmbeddedFileContainer", 524342>>, <<"EmbeddedFileNode", 393269>>, <<"ImageNode", 393233>>, 
  <<"NoteTagSharedDefinitionContainer", 1179715>>, <<"NumberListNode", 393234>>, <<"OutlineElementNode", 393229>>, <<"OutlineGroup", 393241>>, 
  <<"OutlineNode", 393228>>, <<"PageManifestNode", 393271>>, <<"PageMetadata", 131120>>, <<"PageNode", 393227>>, <<"PageSeriesNode", 393224>>, 
  <<"ParagraphStyleObject", 1179725>>, <<"PictureContainer", 524345>>, <<"RevisionMetadata", 131140>>, <<"RichTextNode", 393230>>, 
  <<"SectionMetadata", 131121>>, <<"SectionNode", 393223>>, <<"TableCellNode", 393252>>, <<"TableNode", 393250>>, <<"TableRowNode", 393251>>, 
  <<"TitleNode", 393260>>, <<"TocContainer", 131073>>, <<"XpsContainer", 524346>>, <<"InkContainer", 393236>>, <<"InkDataNode", 131131>>, 
  <<"InkStrokeNode", 131143>>, <<"StrokePropertiesNode", 1179720>>, <<"IFrameNode", 393304>>, <<"UnknownKind", 393369>> >>
============================================================================
