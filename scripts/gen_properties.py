import json
def P(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return d
L=[]
L.append(P("C01","Flowed text keeps every word, once and in order",
"For every sequence of text blocks, paragraphs and explicit line breaks laid out left, centre or right aligned, what is written is exactly the words of the whitespace-normalised, placeholder-substituted text, each once, in document order and in the style of its own paragraph. Words sharing a line are separated by exactly one space, an explicit break ends the line exactly where it stands, and no blank line is produced except by an explicit break.",
["inputs"],"all instruction sequences, texts, widths, styles and font metrics",
"No existing test lays out any text; the claim ranges over unboundedly many words, widths and metrics.",
["text.go","text/text.go"],[("greedy line filling","text.go textLines"),("line writer","text.go writeText"),("placeholder substitution","process.go tr")],
["words handed to the PDF engine, per line, with the font in force"]))
L.append(P("C02","Justified text keeps every word up to inserted hyphens",
"For block-aligned text, removing the hyphens inserted at line ends and rejoining the split words gives exactly the words of the normalised text, each once, in order and in the style of its own paragraph. A word is split at most at a position the hyphenator offers, the head ending one line with a hyphen and the tail starting the next; no empty word and, except by an explicit break, no blank line is produced.",
["inputs"],"all instruction sequences, texts, widths, styles, font metrics and hyphenation results",
"No existing test lays out block-aligned text.",
["text-hyph.go"],[("line filling with hyphenation","text-hyph.go textLinesHyphenated"),("justified writer","text-hyph.go writeTextHyphenated")],
["words handed to the PDF engine, per line"]))
L.append(P("C03","Lines fit the available width and are aligned to it",
"In every alignment a laid-out line that holds more than one word has a measured width of at most the available width, and a line is ended early only because the next word (or any hyphenated head of it, when justified) did not fit. Left lines start at the left edge, right and centred lines are shifted by all or half of the remaining space, and a justified line spreads the remaining space evenly over its gaps unless it ends a paragraph (the last line, or one ended by an explicit break), which is written unstretched.",
["inputs"],"all texts, widths and font metrics",
"No existing test measures a line; the claim quantifies over metrics and widths.",
["text.go","text-hyph.go"],[("line filling","text.go textLines, text-hyph.go textLinesHyphenated"),("x placement","text.go writeText, text-hyph.go writeTextHyphenated")],
["x positions and words handed to the PDF engine"]))
L.append(P("C04","Measured text height is the height that writing takes",
"The height reserved for a text is never negative and is that of exactly the lines that writing it produces: no lines take no height, and n lines take n-1 line feeds of the style's line spacing plus one font height. Writing the same text with the same style and width issues exactly n line feeds of that spacing, one after each line.",
["inputs"],"all texts, widths, styles, both layout modes",
"No existing test measures or writes text.",
["text.go","text-hyph.go","process.go"],[("measuring","text.go textHeight, text-hyph.go textHeightHyphenated"),("writing","text.go writeText, text-hyph.go writeTextHyphenated"),("mode selection","process.go textHeightFnc, writeTextFnc")],
["line feeds issued to the PDF engine"]))
L.append(P("C05","Hyphenation never alters a word",
"For every pattern set and every word, the parts returned by the hyphenator concatenate to exactly the word that was passed in, in order. No part of a split word is empty or cuts through a character, words shorter than three bytes, longer than one hundred bytes or containing a space come back as one part, and no input makes it crash.",
["inputs"],"all words (any bytes) and all pattern sets",
"The tests log the result for one long text (which is not hyphenated at all, being over 100 bytes) and one word, and assert nothing.",
["hyphenation/hyphenation.go"],[("splitting","hyphenation/hyphenation.go Hyphenate")],["returned parts"]))
L.append(P("C06","Hyphenation points are those the patterns give",
"Inside a word eligible for hyphenation, a break is placed only between characters where the maximum weight, over all pattern matches in the dot-delimited lower-cased word, is odd, never before the second or after the last-but-one character position the patterns rule out, and every such odd position that leaves at least two bytes before it since the previous break is used unless it would leave a single byte at the end.",
["inputs"],"all words and all pattern sets",
"The tests do not assert any hyphenation result.",
["hyphenation/hyphenation.go"],[("weight maximisation","hyphenation/hyphenation.go Hyphenate")],["returned parts"]))
L.append(P("C07","Hyphenation patterns load exactly, and failures are reported",
"Parsing a pattern yields its letters in order with one weight before, between and after them, taken from the digits of the pattern and zero elsewhere, or an error; a digit that is not a decimal weight is an error. Loading a pattern source registers the pattern of every non-blank line, a later one replacing an earlier one with the same letters, and fails if any line is invalid or the source cannot be read to its end.",
["inputs","fault_sequences"],"all pattern texts and all read failures",
"One valid pattern is parsed and logged; no invalid pattern or failing reader is tried.",
["hyphenation/pattern.go","hyphenation/hyphenation.go"],[("pattern parser","hyphenation/pattern.go parsePattern"),("pattern loader","hyphenation/pattern.go parsePatterns")],["Load's result"]))
L.append(P("C08","Style cascade: inherited, then classes in order, then inline",
"The style of an element is the inherited style with the element's known classes applied in the order written and then its inline declarations, later ones winning; unknown classes are ignored. Where a selector applies and the class defines it, the selector's declarations are used instead of the class's own, and everything no declaration mentions is inherited unchanged; the inherited style and the style sheet themselves are never modified.",
["inputs"],"all style sheets, class lists, inline declarations and inherited styles",
"The tests cover single class lists and one selector with fixed values.",
["style/class.go","style/decode.go","xdoc/style.go"],[("class application","style/class.go Classes.Mutate, MutateWithSelector"),("element style","xdoc/style.go MutatedStyles, MutatedStylesWithSelector")],["resulting styles"]))
L.append(P("C09","Style sheet and colour parsing is total and exact",
"Parsing any text as a style sheet terminates without crashing and either reports an error or returns the classes for exactly the named blocks in it, later blocks of the same name replacing earlier ones and a named selector block being attached to its already defined class; a block without a name, an unclosed block or a selector without its class is an error. A colour is accepted exactly when it is six hexadecimal digits with an optional leading hash, and then yields the red, green and blue bytes written.",
["inputs"],"all byte strings",
"The tests parse two style sheets and no colour.",
["style/class.go","style/decode.go","style/color.go"],[("style sheet scanner","style/class.go DecodeClasses"),("colour parser","style/color.go UnmarshalStyle")],["parse results"]))
L.append(P("C10","Styling an element never leaks to what follows it",
"After any text, box, table, image or grid has been measured or rendered, the style that following elements inherit is the one that was in force before it, and the engine's font and text colour are restored to it. Only an explicit font instruction changes the inherited style, and it changes nothing but the font.",
["inputs","histories"],"all documents, all sequences of elements",
"No existing test renders two elements in sequence.",
["process.go","text.go","text-hyph.go","table.go","image.go"],[("style reset","process.go resetStyles, changeFont"),("font switching while laying out","text.go, text-hyph.go")],["fonts and colours set on the PDF engine"],
[("current styles","the style every element inherits","process.go Processor.currStyles")]))
L.append(P("C11","Tables become a rectangular grid without losing a cell",
"For every table, after spans have been worked out all rows have the same number of cells, every cell the document defines is still present exactly once in its own row with its neighbours in their original order, and everything added is a placeholder that renders nothing. A cell spanning n columns is followed immediately in its row by the n-1 placeholders it owns.",
["inputs"],"all tables: any number of rows and cells, any column and row spans",
"The test builds eleven small tables and only logs the result.",
["table.go"],[("column spans","table.go processColumnSpans"),("row spans","table.go processRowSpans"),("padding","table.go normalize")],["cells of the processed table"]))
L.append(P("C12","Row spans keep to their columns",
"A cell spanning n rows owns, in each of the n-1 rows below, a placeholder at exactly the grid column where the cell itself stands (and one under each further column it spans), so that cells pushed aside by a span are never rendered over it. Rows missing at the end of the table are added.",
["inputs"],"all tables, any combination of row and column spans that do not run into each other",
"The test builds eleven small tables and only logs the result.",
["table.go"],[("row spans","table.go processRowSpans")],["cells of the processed table"]))
L.append(P("C13","Column widths are consistent and fill the table",
"All cells of a grid column get the same width. A column for which some cell asks for a positive width gets the largest one asked for, the other columns share the remaining width equally, and whenever there is such a column the widths sum to the table's width; a cell spanning columns is as wide as those columns together.",
["inputs"],"all tables and widths",
"No existing test assigns column widths.",
["table.go","dim.go"],[("width distribution","table.go assignColumnWidths"),("spanned size","table.go dim"),("available width","dim.go EffectiveWidth")],["cell widths"]))
L.append(P("C14","Rows are as high as their tallest cell needs",
"All cells of a row get the row's height, which is the largest height any of its cells needs and at least zero. A cell needs the height its style asks for or else its text height plus padding, divided evenly over the rows it spans, so that the height a cell is finally drawn with is never less than it needs.",
["inputs"],"all tables and text heights",
"No existing test assigns heights.",
["table.go"],[("needed height","table.go assignCellMinHeight"),("row height","table.go assignHeights"),("spanned size","table.go dim")],["cell and row heights"]))
L.append(P("C15","Table rows are paginated in order, whole, with repeated headers",
"Rendering a table draws every row exactly once in order apart from header repetition, each at the height where the previous one ended or at the top of a new page. A new page is started before a row exactly when the row's tallest cell would not fit above the bottom of the printable area (and before the table when its header rows with the following row would not), the declared number of header rows is then drawn again above it unless it is the first row, and page breaks are never requested while page breaks are prevented.",
["inputs"],"all tables, row heights, header counts and start positions",
"No existing test renders a table.",
["table.go"],[("pagination","table.go renderTable")],["page breaks and cells drawn on the PDF engine"]))
L.append(P("C16","Boxes enclose their text and never cross the page bottom",
"A box is drawn at the cursor shifted by its offset, as wide as the effective width and as high as its fixed or measured height plus padding; its text starts inside the padding and is laid out in the inner width, and afterwards the cursor stands at the lower edge. Before a box that would reach the bottom margin a page break is requested unless page breaks are prevented, and never otherwise.",
["inputs"],"all boxes, styles, cursor positions, page sizes and text heights",
"No existing test renders a box.",
["process.go","dim.go"],[("box rendering","process.go renderTextBox")],["rectangles, cursor and page breaks on the PDF engine"]))
L.append(P("C17","Backgrounds and borders are drawn exactly as styled",
"Drawing a box fills, in its background colour, exactly the rectangle inset by half the line width, and strokes, in its foreground colour and line width, exactly those of its four edges whose border is positive, each along its full side. Nothing else is drawn.",
["inputs"],"all rectangles and styles",
"No existing test draws.",
["draw.go"],[("box drawing","draw.go drawBox")],["drawing operations on the PDF engine"]))
L.append(P("C18","Images fit the printable area and keep their proportions",
"An image is placed at the cursor shifted by its offset and never wider or higher than the printable area left by the offset. Its size is the styled one, a missing dimension following from the image's own proportions and both from its pixel size at 96 dpi; it is only ever scaled down, by the same factor in both directions.",
["inputs"],"all pixel sizes, styles, offsets and printable areas",
"No existing test places an image.",
["image.go"],[("image scaling","image.go renderImage"),("pixel to millimetre","image.go WidthMm, HeightMm")],["image placements on the PDF engine"]))
L.append(P("C19","Headers and footers leave the page flow untouched",
"Whatever a header or footer contains, rendering it requests no page break and leaves the cursor where it was, and page breaks are again allowed afterwards. Header and footer are registered before the first page is started.",
["inputs","histories"],"all header and footer contents, every page",
"No existing test processes a document.",
["process.go","table.go"],[("header and footer callbacks","process.go Process"),("page break guard","process.go processInstructions, renderTextBox; table.go renderTable")],["page breaks and cursor of the PDF engine"],
[("page break guard","true while a header or footer is being rendered","process.go Processor.preventPageBreak")]))
L.append(P("C20","Every instruction is carried out, once and in order",
"Processing a sequence of instructions carries out, for each one and in document order, exactly the operation it stands for with its own arguments: font change, line feed, cursor moves, page break, and rendering of boxes, texts, tables, images and grids within the printable area. Instructions of no such kind have no effect.",
["inputs"],"all instruction sequences",
"No existing test processes a document.",
["process.go"],[("dispatch","process.go processInstructions")],["operations on the PDF engine"]))
L.append(P("C21","A failed document is never reported as a success",
"Processing returns success only if the engine is free of errors after the whole body has been processed and the PDF was then written, once, to the given destination without error; any engine or write error is returned and after an engine error nothing is written. Loading a document fails if its XML or its style sheet is invalid.",
["inputs","fault_sequences"],"all documents and all engine and writer failures",
"No existing test processes or loads a document.",
["process.go","xdoc/doc.go"],[("error propagation","process.go Process; xdoc/doc.go Load, LoadFromFile")],["returned errors, writes"]))
L.append(P("C22","A grid layout is accepted exactly if its areas are rectangles",
"A grid's area map is accepted by layout exactly if every named area covers a full rectangle of grid positions. Decoding a grid succeeds only if it has rows, all of the same number of areas, and every part names one of these areas.",
["inputs"],"all grids: any number of rows, columns and area names",
"No existing test uses grids.",
["grid.go","xdoc/grid.go"],[("area collection","grid.go add, validate"),("grid validation","xdoc/grid.go Validate")],["validation results"]))
L.append(P("C23","Documents are decoded completely and in order",
"Decoding an element's content yields, in document order, one instruction per child element and one text block per non-empty run of character data, up to exactly its own end tag, table and row elements keeping their rows and cells; an undecodable child of the body, of a table or of a row makes decoding fail. Column spans, row spans and header counts are the integers written (a header count only within 0 to 10), anything else being an error.",
["inputs"],"all XML token streams and attribute lists",
"No existing test decodes a document.",
["xdoc/instructions.go","xdoc/table.go","xdoc/registry.go","xdoc/style.go"],[("content decoding","xdoc/instructions.go UnmarshalXML; xdoc/table.go UnmarshalXML"),("attribute decoding","xdoc/table.go DecodeAttrs; xdoc/style.go DecodeAttrs")],["decoded document"]))
L.append(P("C24","A description states the document's own values, completely",
"Describing a document reports its author, creator, subject, orientation, format and each of its four margins with the value the document gives, and for header, footer and body one entry per instruction in document order, with its value and nested entries.",
["inputs"],"all documents",
"No existing test describes a document.",
["xdoc/describe.go"],[("description","xdoc/describe.go")],["description items"]))
L.append(P("C25","The PDF engine adapter is faithful to its interface",
"Paper format, orientation, margins and font attributes asked for are the ones set on the PDF; moving the cursor vertically keeps its horizontal position, a line feed advances by the given number of font heights, and the printable area lies within the margins. Every registered font is loaded with its own name, style and file or an error is returned.",
["inputs","configurations"],"all page set-ups, fonts and cursor moves",
"No existing test uses the engine.",
["engine/fpdf.go","font/registry.go"],[("adapter","engine/fpdf.go"),("font enumeration","font/registry.go Each")],["calls to the PDF library"]))
L.append(P("C26","Whitespace normalisation keeps the text and nothing but the text",
"Normalising a text yields no line breaks, tabs, leading, trailing or repeated blanks and no blank next to a backslash, keeps every other character in order, puts a blank between two of them only where whitespace stood, and normalising again changes nothing. Removing doubled fragments terminates on every input and leaves no doubled fragment.",
["inputs"],"all byte strings and fragments",
"Eleven fixed strings are tested.",
["text/text.go"],[("normalisation","text/text.go WhitespaceRectified, RemoveTwins")],["returned strings"]))
L.append(P("C27","Font definitions are registered completely, with resolved paths",
"Loading a font definition file registers one font per defined style, in file order, with its name and style and with a path that is the given one if absolute and otherwise relative to the definition file's directory. Document resources with a relative name are looked up in the working directory, absolute ones where they are.",
["inputs","configurations"],"all definition files and names",
"No existing test loads fonts or resolves names.",
["font/definition.go","font/registry.go","process.go"],[("registration","font/definition.go LoadRegistryFromFile"),("resolution","process.go resolveFile")],["registry contents"]))
L.append(P("C28","Cell content is placed inside its cell as aligned",
"A table cell that is not a placeholder is drawn exactly once over the full rectangle of the columns and rows it spans; its text is laid out in the width inside its padding and starts at the padded left edge, at the top, middle or bottom of the padded height according to its vertical alignment, using the height of the very lines that are written. Placeholders draw nothing.",
["inputs"],"all cells, styles and dimensions",
"No existing test renders a cell.",
["table.go","dim.go"],[("cell rendering","table.go renderCell, renderTable"),("padding","dim.go WithPadding")],["rectangles and cursor positions on the PDF engine"]))
with open("/verif/properties.jsonl","w") as f:
    for d in L: f.write(json.dumps(d)+"\n")
print(len(L))
