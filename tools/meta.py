"""Writes properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, na=na, note=note))


prop('C01', 'String objects read back as the strings that were given',
     'Every Python string whose characters all fit in Latin-1 is written to the PDF as a literal string that a conforming PDF reader decodes to exactly the same characters, whatever parentheses, backslashes, line ends or control characters it contains. The text of the string never ends the object early or swallows what follows it.',
     ['inputs'], 'all Latin-1 strings up to a stated length, in every position a string object can appear',
     'The tests compare the serialisation of a few literals; escaping must be right for every combination of special characters, including a trailing backslash and bare carriage returns.',
     ['pdfme/parser.py'], [('string escaping', 'pdfme/parser.py parse_obj')])
prop('C02', 'Python values survive the round trip through PDF syntax',
     'Any nesting of dictionaries, lists, tuples, strings, numbers, booleans, names given as bytes, and references to other objects is written as PDF syntax that a conforming reader parses back to the same structure and values: adjacent items never run together, booleans are not confused with numbers, and numbers never use exponent notation.',
     ['inputs'], 'all numbers in a stated range, all nestings of value kinds up to a stated depth and width',
     'The tests serialise a handful of fixed values; token separation depends on every ordered pair of neighbouring kinds and number formatting on the magnitude.',
     ['pdfme/parser.py', 'pdfme/base.py'], [('value serialisation', 'pdfme/parser.py parse_obj, parse_dict, parse_list')])
prop('C03', 'Every written file has a correct skeleton: header, xref, trailer, offsets',
     'Whatever objects a document holds, in the written file each cross-reference entry is the exact byte offset of the object with that number, every object is listed once, startxref points at the cross-reference table, the trailer Size is the number of entries and the trailer carries Root and a file identifier, and every reference in the file resolves to an object of the file. This holds again when the same document is written a second time.',
     ['inputs', 'histories'], 'all sequences (up to a stated length) of objects of symbolic size and kind added through the public interface',
     'The tests compare a couple of complete outputs; offsets are sums over all earlier object sizes and only wrong in some digit or object position.',
     ['pdfme/base.py', 'pdfme/parser.py', 'pdfme/pdf.py'], [('offset accumulation while writing', 'pdfme/base.py PDFBase.output')])
prop('C04', 'Streams carry their exact data, with matching Length and Filter',
     'A stream object written to the file has a Length equal to the number of bytes between the stream and endstream keywords, and decoding those bytes through the declared Filter gives exactly the data that was put in: the concatenation, in order, of its parts if it was given in parts. Data marked as already encoded is copied untouched, and writing the stream again gives the same bytes.',
     ['inputs', 'histories'], 'all stream contents (symbolic bytes and opaque data of symbolic length), with and without filter, whole or in parts, written once or twice',
     'The tests look at one or two streams; length bookkeeping and single encoding have to hold for any data and any number of writes.',
     ['pdfme/parser.py', 'pdfme/encoders.py', 'pdfme/page.py'], [('stream serialisation', 'pdfme/parser.py parse_stream'), ('filter', 'pdfme/encoders.py encode_stream')])
prop('C05', 'The page tree lists every page once, in order, with its own size',
     'In the written file the page tree is consistent (types, parents and counts) and its leaves are exactly the added pages in the order they were added. Each page has a media box of the width and height requested for it: a page-specific size or orientation applies to that page only, and otherwise the current default size and rotation apply.',
     ['inputs', 'histories', 'configurations'], 'all sequences of page additions up to a stated length with symbolic sizes, rotations and margins, defaults changed in between',
     'Tests make documents with few pages and default sizes; grouping of the tree and per-page overrides interact with the number of pages and the history of setup calls.',
     ['pdfme/pdf.py', 'pdfme/page.py', 'pdfme/utils.py'], [('page tree', 'pdfme/pdf.py PDF._build_pages_tree'), ('page creation', 'pdfme/pdf.py PDF.add_page')])
prop('C06', 'Every label is a resolvable named destination at the right place',
     'Every label used in a document is found by a reader walking the destinations name tree by the rules of binary search: keys are in lexical order, limits of every node bound its keys, and no label is lost or duplicated however many there are. A label leads to the page on which its element was drawn and the position of that element, and an in-document reference to that label is resolvable.',
     ['inputs', 'histories'], 'all label texts from a symbolic alphabet and all label counts across the node-size boundaries of the tree, in any definition order',
     'The tests use up to a few labels in order; name-tree limits and node splitting only go wrong at particular counts and label orders.',
     ['pdfme/pdf.py', 'pdfme/utils.py', 'pdfme/text.py'], [('name tree', 'pdfme/pdf.py PDF._build_dests_tree')])
prop('C07', 'The outline tree mirrors the declared outlines',
     'The outlines of the written file form a well-linked tree (first, last, next, previous, parent) that contains every declared outline entry exactly once, in document order, nested according to its level, with its title text and a destination that exists in the document. Entry counts are consistent with the tree, with levels beyond the configured depth closed.',
     ['inputs', 'histories'], 'all sequences of outline entries up to a stated length, over all legal level sequences, with and without labels, all outline depths',
     'Tests contain at most a single outline arrangement; sibling linking and counts depend on the whole sequence of levels.',
     ['pdfme/pdf.py', 'pdfme/text.py'], [('outline tree', 'pdfme/pdf.py PDF._build_outlines')])
prop('C08', 'Drawn text is exactly the given text, character for character',
     'The text shown by the page content stream decodes to exactly the characters given, in order, for every combination of characters (including parentheses, backslashes, and list markers), styles, fragments and line breaks: nothing is dropped, duplicated, reordered or left as an escape. A run of spaces is drawn as a single space, and only the white space at the ends of lines may be absent.',
     ['inputs'], 'all texts up to a stated length over an alphabet with letters, spaces, newlines and special characters, split into styled fragments in every way within bounds',
     'Tests print fixed words; escaping, word splitting and fragment boundaries interact in ways only some character sequences show.',
     ['pdfme/text.py', 'pdfme/pdf.py'], [('word splitting and line output', 'pdfme/text.py PDFTextLine, PDFTextLinePart, PDFText')])
prop('C09', 'Graphics are drawn with the state each drawing asked for',
     'When a sequence of lines and filled rectangles is turned into page content, a reader that interprets the operators sees, in the same order, each line with its requested end points, width, color and dash style and each rectangle with its requested corner, size and fill color, no matter what was drawn before it. State left over from one drawing never affects another.',
     ['inputs', 'histories'], 'all sequences of drawings up to a stated length with symbolic coordinates, widths and colors and all line styles',
     'The tests draw one or two shapes; the operator stream omits state that is already set, so errors depend on the sequence.',
     ['pdfme/utils.py', 'pdfme/table.py', 'pdfme/content.py'], [('state caching', 'pdfme/utils.py create_graphics')])
prop('C10', 'Each text fragment is shown in its own font, size, color and rise',
     'Every fragment of a paragraph is shown with the font family, bold/italic mode, size, color and rise that its style (inherited from its surroundings and overridden by itself) asks for, wherever it is broken over lines, and nothing of its style leaks into its neighbours. Every font used on a page is declared in that page as the requested font, with the encoding of its text.',
     ['inputs', 'configurations'], 'all style combinations over nested fragments within bounds, symbolic sizes, colors and rises, all line break positions',
     'Tests use a few style combinations; the writer only emits changes of state, so errors depend on neighbouring fragments and on where lines break.',
     ['pdfme/text.py', 'pdfme/pdf.py', 'pdfme/color.py', 'pdfme/fonts.py'], [('text state emission', 'pdfme/text.py PDFText, PDFState')])
prop('C11', 'A paragraph split over rectangles loses and repeats nothing',
     'When a paragraph does not fit in its rectangle, printing the remainder in following rectangles or pages yields in total exactly the words of the paragraph, once each and in order, with the styles they have when the paragraph is printed whole. The paragraph reports itself finished exactly when all of it has been printed, and every rectangle that can hold a line gets at least one.',
     ['inputs', 'histories'], 'all rectangle widths and heights (symbolic) for the successive rectangles and all texts within bounds',
     'Tests split paragraphs at a few fixed sizes; the break position is a function of continuous widths and heights.',
     ['pdfme/text.py', 'pdfme/pdf.py'], [('resumable layout', 'pdfme/text.py PDFText.run')])
prop('C12', 'Paragraph text stays inside the rectangle it was given',
     'No line of a paragraph is drawn wider than its rectangle unless it is a single word that alone exceeds the width, none is drawn outside its left and right edges, and all lines, from the font size above the base line of the first to the base line of the last, lie between the top and the bottom of the rectangle. Raised text, too, stays below the top of the rectangle and below the base line before. Consecutive lines do not overlap: their base lines are apart by at least the line height times the largest font size of the lower line.',
     ['inputs', 'configurations'], 'all rectangle sizes, indents, line heights and font sizes (symbolic) and texts within bounds, for every alignment and for list paragraphs',
     'Tests print at fixed sizes and do not interpret the output; overflow shows only for particular width and text combinations.',
     ['pdfme/text.py'], [('line filling', 'pdfme/text.py PDFTextLine.add_word, PDFText.add_current_line')])
prop('C13', 'Text alignment and indentation are what was asked for',
     'Every line of a left aligned paragraph starts at the left edge, of a right aligned one ends at the right edge, of a centered one has equal space on both sides, and every line of a justified paragraph except the last line of the paragraph and lines ended by a line break spans the full width. The first line of a left aligned or justified paragraph is shifted by the indent and no other line is, and list markers hang to the left of the text that is indented equally on every line.',
     ['inputs', 'configurations'], 'all widths and indents (symbolic), texts and fragmentations within bounds, all four alignments, over one or several rectangles',
     'Tests never measure positions; the correction terms depend on trailing spaces, fragment boundaries and line numbers.',
     ['pdfme/text.py'], [('alignment', 'pdfme/text.py PDFText.build, PDFTextLine')])
prop('C14', 'Links, labels, underlines and backgrounds sit on their text',
     'For every line on which a fragment with a link, reference, label, underline or background appears, the clickable rectangle, underline or background rectangle spans horizontally exactly the text of that fragment on that line and vertically that line. Links carry the given address, and none is lost when the fragment is broken over lines, rectangles or pages.',
     ['inputs', 'configurations'], 'all widths, fragmentations and break positions within bounds, all alignments',
     'Tests only check that something was emitted; positions depend on alignment, indent and the fragments before it on the line.',
     ['pdfme/text.py', 'pdfme/pdf.py'], [('rectangles of parts', 'pdfme/text.py PDFText.build')])
prop('C15', 'A table prints every cell once, in order, over all its pages',
     'Whatever the row heights and the available space, the parts of a table printed on successive rectangles contain in total every cell content exactly once, in its column and in row order, and rows that continue on the next page continue with the rest of their content. A table that starts on a fresh page starts on that page. The table reports itself finished exactly when everything has been printed.',
     ['inputs', 'histories'], 'all available heights and column widths (symbolic) and tables up to a stated size with texts, images, nested contents and spans',
     'Tests print fixed tables; the break position and the resumption state depend on continuous heights.',
     ['pdfme/table.py', 'pdfme/pdf.py'], [('resumable rows', 'pdfme/table.py PDFTable.run, add_row, add_cell')])
prop('C16', 'Table cells lie on the grid their widths and rows define',
     'Column widths are proportional to the given weights and fill the table width, rows follow each other without gap or overlap and are as tall as their tallest cell, and the content of each cell lies inside its cell less the cell margins. On every page, cells that span rows included, the cells fill the area of the table without gaps or overlaps, and everything stays inside the rectangle of the table.',
     ['inputs', 'configurations'], 'all column weights, margins and rectangle sizes (symbolic), tables up to a stated size',
     'Tests never measure positions.',
     ['pdfme/table.py'], [('grid', 'pdfme/table.py PDFTable')])
prop('C17', 'Table borders, fills and spans are drawn where they are declared',
     'Each border segment declared by the table style or a border rule is drawn once on the corresponding grid edge with its width, color and dash style, cell fills cover exactly their cell, and a spanned cell occupies the whole of its rows and columns without borders or content inside it. Borders of one width that meet leave no gap. No border or fill is drawn that was not declared.',
     ['inputs', 'configurations'], 'all border and fill rule positions (ranges, steps, negative positions) for tables up to a stated size, all spans that fit',
     'Tests draw a few rule sets without interpreting the result.',
     ['pdfme/table.py', 'pdfme/utils.py'], [('border rules', 'pdfme/table.py setup'), ('range rules', 'pdfme/utils.py get_paragraph_stream')])
prop('C18', 'Content boxes print all their elements once, in order, over columns',
     'All elements of a content box, including nested boxes, appear exactly once and in order across its columns and pages: within a page each column is filled before the next one and the order of reading is the order of the elements. Nothing is lost or repeated when a box is resumed on a new page.',
     ['inputs', 'histories', 'configurations'], 'all box widths and heights (symbolic), numbers of columns and element sequences within bounds',
     'Tests print a few fixed boxes; column balancing retries the layout and its effects depend on continuous heights.',
     ['pdfme/content.py', 'pdfme/pdf.py'], [('column layout', 'pdfme/content.py PDFContentPart.run')])
prop('C19', 'Content boxes stay inside their rectangle and columns do not overlap',
     'Everything a content box draws lies inside the rectangle it was given, each column lies inside its share of the width with the declared gap to its neighbours, and elements in a column follow each other downwards without overlapping, separated by their margins.',
     ['inputs', 'configurations'], 'all box sizes, margins and gaps (symbolic), numbers of columns and element sequences within bounds',
     'Tests never measure positions.',
     ['pdfme/content.py'], [('geometry', 'pdfme/content.py PDFContentPart')])
prop('C20', 'Images keep their proportions and are placed inside their area; groups stay whole',
     'An image is drawn with its own aspect ratio, inside the area available, moved to the next column or page (or shrunk when asked) if it does not fit, and each page that shows an image declares it as a resource. The elements of a group are always on the same page and column, a group that fits where it stands is not moved, and an element is shrunk only to fit.',
     ['inputs', 'configurations'], 'all image pixel sizes and area sizes (symbolic), placements within bounds',
     'Tests place one image; fitting decisions depend on continuous sizes.',
     ['pdfme/content.py', 'pdfme/image.py', 'pdfme/pdf.py', 'pdfme/page.py'], [('image fitting', 'pdfme/content.py add_image_element'), ('image resources', 'pdfme/page.py add_image')])
prop('C21', 'Image headers are read correctly for every well-formed file',
     'For every well-formed JPEG, whatever marker segments precede the frame header and in whatever order, the image object declares the width, height and color space of the frame header and contains the file bytes unchanged. A file that ends or reaches its image data before a frame header, that does not start with a marker, or whose declared kind is not supported is rejected. The same file can be used any number of times, given by name, path or buffer, and the kind of a file is told by the extension at the end of its name.',
     ['inputs'], 'all sequences of JPEG segments up to a stated number with symbolic lengths, contents, dimensions and component counts',
     'Tests read a single image.',
     ['pdfme/image.py'], [('JPEG parsing', 'pdfme/image.py PDFImage.parse_jpg')])
prop('C22', 'Colors mean what their notation says',
     'Every accepted way of writing a color (a gray level, a list of components, a name, a hexadecimal code in short or long form, or already parsed) yields the fill and stroke operators of that color with components between 0 and 1, and writing the same color in two ways yields the same result.',
     ['inputs'], 'all component values and all hexadecimal digits (symbolic), all names',
     'Tests parse a few colors.',
     ['pdfme/color.py'], [('color parsing', 'pdfme/color.py parse_color, PDFColor')])
prop('C23', 'Page sizes and margins are understood in every accepted notation',
     'A page size given by name, by one number or by a pair, and a margin given as a number, a string, a sequence of one to four numbers or a dictionary of sides, are interpreted by the documented rules for every value, and sides that are not given keep their defaults.',
     ['inputs'], 'all numbers (symbolic) in every notation',
     'Tests use few notations.',
     ['pdfme/utils.py'], [('parsing', 'pdfme/utils.py get_page_size, parse_margin')])
prop('C24', 'Compact style strings and style dictionaries are equivalent',
     'A style written in the compact string notation, in any order of its attributes and with any spacing between them, yields the same style as the dictionary with the same attributes, and malformed attributes are rejected.',
     ['inputs'], 'all sequences of attributes up to a stated length with symbolic values and spacing',
     'Tests parse two strings.',
     ['pdfme/utils.py'], [('style strings', 'pdfme/utils.py parse_style_str')])
prop('C25', 'Page numbers and Roman numerals are right for every number',
     'The page number printed on a page is its position plus the numbering offset, written in Arabic or Roman numerals as configured at the time, and Roman numerals denote exactly their number under the standard subtractive rules.',
     ['inputs', 'histories'], 'all page numbers in a stated range, all offsets and style changes between pages',
     'Tests sample a few numbers.',
     ['pdfme/utils.py', 'pdfme/pdf.py', 'pdfme/document.py'], [('Roman numerals', 'pdfme/utils.py to_roman'), ('page number', 'pdfme/pdf.py PDF.get_page_number')])
prop('C26', 'Per-page rules and running sections reach exactly the pages selected',
     'A running section is printed on exactly the pages of the sections and page selections that ask for it, in a fixed order, at its place, and never changes where the page contents are laid out; per-page overrides of margins, style, rotation and running sections apply exactly to the pages their ranges select.',
     ['inputs', 'configurations'], 'all page selections (ranges, steps, open ends) and override combinations within bounds',
     'Tests use one document.',
     ['pdfme/document.py', 'pdfme/pdf.py', 'pdfme/utils.py'], [('page rules', 'pdfme/document.py PDFDocument'), ('ranges', 'pdfme/utils.py parse_range_string')])
prop('C27', 'Footnotes are numbered in order and printed on the page that cites them',
     'Every footnote is printed exactly once, on the page on which its reference appears, in the order of the references, with the number shown at the reference, and the page contents never run into the footnote area.',
     ['inputs', 'histories'], 'all contents within bounds with footnotes at symbolic positions, all page heights',
     'Tests have a fixed document.',
     ['pdfme/document.py'], [('footnotes', 'pdfme/document.py PDFDocument._process_footnotes')])
prop('C28', 'Embedded fonts encode text so that it can be shown and read back',
     'With a registered TrueType font, the codes in the content stream (text and list markers) select the glyphs of the given characters in the face of the asked mode (the missing glyph for characters the font lacks), the declared widths of those codes are the widths used for layout, so that lines are placed and justified as with other fonts, the embedded mapping to Unicode turns the codes back into the given characters (or one of those sharing the glyph), and the font can be used in any number of documents.',
     ['inputs', 'histories'], 'all texts over the characters of a font with symbolic glyph numbers and widths, in all alignments and modes',
     'Tests do not embed fonts.',
     ['pdfme/fonts.py', 'pdfme/text.py'], [('TrueType encoding', 'pdfme/fonts.py PDFTrueTypeFont')])
prop('C29', 'Saving and restoring a layout position resumes exactly there',
     'A paragraph, table or content box restored from a saved state continues exactly as the original would from that point, and saving a state does not disturb the layout in progress.',
     ['histories', 'inputs'], 'all save points over rectangles of symbolic sizes',
     'Tests do not compare resumed and uninterrupted runs.',
     ['pdfme/text.py', 'pdfme/table.py', 'pdfme/content.py'], [('states', 'get_state / set_state')])
prop('C30', 'Documents are independent and building them does not alter their inputs',
     'Building a document does not change the content, style and option objects the user passed, and building the same document twice in one process, or after any other document, gives the same pages.',
     ['histories', 'inputs'], 'all pairs of documents within bounds built in one process from shared inputs',
     'Tests build each document once from fresh inputs.',
     ['pdfme/pdf.py', 'pdfme/document.py', 'pdfme/content.py', 'pdfme/text.py', 'pdfme/fonts.py'], [('copying of inputs', 'pdfme/pdf.py PDF._init_text')])

prop('C31', 'Elements added to a page start at its current position and move it as asked',
     'Texts, lists, tables, content boxes and images added to a page start with their top left corner at the position given or, when none is given, at the current position of the page, and take the width given or what is left up to the right margin (images take their own width given, or the width between the margins). Afterwards the position of the page has moved to below the element, to its right end, or not at all, as was asked, and what is inside an element moves it no further. Each page keeps a position of its own, also when an earlier page is made current again, so that elements added one after another follow each other inside the margins without overlapping, on as many pages as they need and without empty pages.',
     ['inputs', 'histories'], 'all sequences of up to three elements of every kind, positions, widths, margins and moves, with symbolic numbers',
     'The tests add elements with the default position and compare nothing; the position is changed by nested elements, page changes and moves.',
     ['pdfme/pdf.py', 'pdfme/page.py'], [('page position', 'pdfme/pdf.py PDF._init_text, add_image, _add_parts; pdfme/page.py go_to_beginning')])

prop('C32', 'Styles of documents, boxes, tables and groups apply to what is inside',
     'The style of a document, section, content box, table, group or paragraph, and the defaults of a document, apply to everything inside that has no value of its own for the same attribute, at any depth and however given (as a dictionary, by name or as a compact key, over which the dictionary wins): the same is printed as if every paragraph inside had been given the merged style itself. What comes after the container is not touched by its style.',
     ['inputs'], 'all nestings up to five levels and all subsets of levels that give a value, with symbolic values',
     'Tests print nested boxes and compare nothing; which level wins depends on the combination of levels.',
     ['pdfme/content.py', 'pdfme/table.py', 'pdfme/text.py', 'pdfme/pdf.py', 'pdfme/document.py'], [('inherited styles', 'pdfme/content.py PDFContentPart.init, pdfme/table.py, pdfme/pdf.py PDF._create_text')])

NOT_YET = 'no check has been built for it yet'
CLAIMED = set(open(os.path.join(V, 'tools', 'claimed.txt')).read().split())
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]},
            }) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in CLAIMED:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check %s quick' % p['id'],
                'thorough_cmd': './check %s thorough' % p['id'],
                'technique': 'solver-based checking of the real code: symbolic execution of the pdfme sources (AST-rewritten on every run) with Z3 deciding every branch and assertion; counterexamples replayed on the unmodified code',
                'level': 'model_checking',
                'level_note': NOTES.get(p['id'], 'bounded: every path of the harness within the bounds written to the evidence file'),
            })
        else:
            na.append({'property': p['id'], 'reason': p['na'] or NOT_YET})
    m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
