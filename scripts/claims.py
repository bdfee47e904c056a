BASE = "Every obligation generated from the current source is discharged for all inputs; floats are treated as reals, ints as unbounded, nil dereference is not considered; "
CLAIMED = {
 "C01": BASE + "strings.Split is a function of its arguments whose parts joined by the separator are the text; the text handed to the layout is the rectified one (C26). A text width is an uninterpreted function of text and font.",
 "C02": BASE + "strings.Split as for C01, with no part holding the separator; the pattern tables of the hyphenation package are data, the breaks they allow are C05's.",
 "C03": BASE + "a text width is an uninterpreted, nonnegative function of text and font, the same for measuring and for drawing.",
 "C15": BASE + "composed of the contracts proved under C11 to C14 and C19; the engine interface is trusted to draw what it is asked to and to go to the next page only where asked.",
 "C28": BASE + "composed of the contracts proved under C11 to C14 (grid, widths, heights); the engine interface is trusted to draw what it is asked to.",
 "C04": BASE + "the engine interface is trusted to measure and advance as its contract says (a text width is an uninterpreted function of text and font).",
 "C05": BASE + "facts about UTF-8 (character counts and offsets, lower-casing) are axioms.",
 "C06": BASE + "facts about UTF-8 (character counts and offsets, lower-casing) are axioms.",
 "C08": BASE + "a declaration (reflection) is an abstract function on styles, whose effect on exactly its own field is covered by drawn cases only.",
 "C09": BASE + "what one declaration is made into works through reflection and is trusted (whether a value is understood is an uninterpreted function of key and value); strings.IndexByte/Index/Split/Replace/Trim and strconv.ParseUint are trusted to do what their documentation says.",
 "C10": BASE + "the engine interface is trusted to keep the font it is given; decoding is out of scope.",
 "C16": BASE + "the engine interface is trusted to draw what it is asked to.",
 "C17": BASE + "the engine interface is trusted to draw what it is asked to.",
 "C18": BASE + "reading the image's pixel size is trusted.",
 "C19": BASE + "the engine interface is trusted to call the registered header and footer functions once per page, and to go to the next page only where asked.",
 "C20": BASE + "the engine interface is trusted to draw what it is asked to.",
 "C21": BASE + "the engine interface is trusted to report its errors; encoding/xml is trusted to report invalid XML; the style sheet parser's errors are C09's.",
 "C22": BASE + "that a refused layout is reported (and nothing of it drawn) is what rendering does; encoding/xml is trusted to deliver the tokens.",
 "C23": BASE + "encoding/xml is trusted to deliver the tokens and to call the elements' own decoding functions; what reflection makes of a registered prototype is trusted to be new.",
 "C07": BASE + "bufio.Scanner, strconv.Atoi and strings.TrimSpace are trusted to do what their documentation says (a scanner ghost holds the lines and the read error).",
 "C11": BASE + "fmt, log and the engine are out of scope.",
 "C12": BASE + "claimed for the tables the property names: spans that do not run into each other.",
 "C13": BASE + "widths are real numbers.",
 "C14": BASE + "the text height is the one C04 is about, here an abstract function of text, style and width.",
 "C24": BASE + "fmt.Sprintf's renderings are uninterpreted functions of their arguments.",
 "C25": BASE + "the PDF library gofpdf is trusted; a ghost state records what it is asked for.",
 "C26": BASE + "facts about UTF-8 and strings.Replace/Trim are axioms in whitespace.spec.",
 "C27": BASE + "encoding/json, the file system and path/filepath are trusted.",
}
BOUNDED = {
}
NOT = {}
