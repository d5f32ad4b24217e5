"""Writes DESIGN.md (python3 tools/design.py): tools/design_head.md, a section for
each property from the harnesses (bounds) and the texts below, the planted bugs
from seeded/ and the defects from known_findings.txt."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what is compared with what (oracle); what is left out
HOW = {
    'C01': ('The text parse_obj returns is read by a strict reader of PDF syntax (verif_o/pdfread.py, written from ISO 32000-1 7.3) and its characters are compared with the given ones.', 'Characters outside Latin-1.'),
    'C02': ('As C01, for numbers, names, booleans, references and containers; the reader fails on joined or malformed tokens.', 'Names are concrete; floats are exact rationals (their shortest decimal text is opaque but known to denote them).'),
    'C03': ('The file is written to a stand-in sink (verif_o/sink.py) and read through startxref, cross-reference table and trailer. Data of symbolic length makes every offset symbolic: the solver shows that the number written equals the sum of the lengths before it.', 'Updates, encryption, cross-reference streams (pdfme writes none).'),
    'C04': ('Length and data of the stream as read; deflate is modelled as an invertible function, so the data must be the deflated concatenation and nothing else.', 'The compressed bytes themselves (zlib is trusted).'),
    'C05': ('Walk of the page tree: parents, counts, order, MediaBox and Rotate against the arguments given.', ''),
    'C06': ('The name tree is checked node by node and searched with its limits as a reader does; the destination is compared with the place where the labelled text is drawn (verif_o/draw.py).', ''),
    'C07': ('The tree that First, Next, Prev, Last, Parent and Count describe is compared with the one the levels describe; destinations as in C06.', 'Outlines that skip a level raise IndexError and are not claimed.'),
    'C08': ('The content streams are interpreted (verif_o/content.py) and the codes shown are compared with the text given, up to white space at line breaks.', 'Runs of blanks collapse at line breaks; line feeds inside `var`; characters outside Latin-1 in standard fonts.'),
    'C09': ('Every stroke and fill is drawn by the interpreter with its color, width and dash; the list must equal the list of drawings asked for.', ''),
    'C10': ('Font (resolved through the resources of the page, its BaseFont and Encoding), size, color and rise of every shown character against the cascade of styles computed by the harness.', ''),
    'C11': ('The words printed in the rectangles one after another are those of the text, in order, each once.', 'Rectangles too small for a line (documented precondition).'),
    'C12': ('Every glyph of every line lies inside the rectangle, by declared widths and the text state as interpreted (word spacing included).', 'Words wider than the rectangle; the descent of the last line may lie below it.'),
    'C13': ('Left and right ends of every line against the alignment: equal to the edges, centered, or unstretched, with a tolerance of 0.02.', 'Indent of right aligned and centered text.'),
    'C14': ('Annotation rectangles, underlines and backgrounds are compared with the places of the characters they belong to: they cover the run and nothing else.', ''),
    'C15': ('Every word of every cell is drawn once; words of one cell in order, rows in order over pages.', 'Rows with an image taller than the page.'),
    'C16': ('The grid is computed from weights, margins and border widths; words, images and fills of a cell must lie inside its grid area less its margins, and rows may not overlap.', 'Tightness of cells with nested tables; the heights of the parts of a spanned row on pages other than that they contain their content.'),
    'C17': ('Border segments are collected from the drawing and compared edge by edge with the declared look of that edge; fills likewise.', 'Own fills of finished cells in rows that continue.'),
    'C18': ('As C15 for content boxes; the order is the reading order of columns and pages.', 'The order of text across images and groups that flow to the next column.'),
    'C19': ('The grid of nested columns is computed; elements must lie in their column and start below one another with the margins given.', ''),
    'C20': ('Image matrices: proportions, area, position; groups on one column.', 'Images that never fit raise after 50 tries, as documented.'),
    'C21': ('The image object of a symbolic file built segment by segment has the numbers of its frame header; broken files raise ValueError.', 'PNG (decoded by PIL); TEM, JPG, JPGn markers; two components.'),
    'C22': ('Operator text read back by the content reader and compared with the components.', 'Alpha lists, lists of two.'),
    'C23': ('Sizes and margins observed through pages and the position of text.', 'Other separators than one comma or blank.'),
    'C24': ('The style a compact key denotes against the dictionary, by the values and by what is drawn.', 'Empty values except of c and bg.'),
    'C25': ('Roman numerals are read back by an independent reader; the numbers printed on every page against position plus offset.', ''),
    'C26': ('Which pages have the words of a running section, the margins and size of a page rule, against an independent reading of the selection.', 'Partial margin dicts in setup_page; negative bounds of ranges.'),
    'C27': ('Numbers of references in reading order, the footnotes printed on the same page below the text, in order, apart from it and inside the margins.', 'Footnotes in footnotes; footnotes of one page of text taller than the page.'),
    'C28': ('fontTools is replaced by a model of its interface with symbolic glyph numbers and widths; the Type 0 font written is read as a viewer does (verif_o/type0.py: CIDs, W, CIDToGIDMap, ToUnicode, FontFile2).', 'Subsetting and the font program itself; PDF.add_font.'),
    'C29': ('Two runs of the same object: uninterrupted and with the position saved, an attempt taken back and resumed; what is drawn must be the same.', 'New objects for list paragraphs and boxes; states taken before the first run of a box.'),
    'C30': ('Structures before and after are compared item by item; documents built from them once and again must draw the same.', ''),
    'C31': ('Where the first and last drawings of an element are against the position before and after.', 'PDF.image ignores margins, as documented.'),
    'C32': ('A document with styles on the containers draws the same as one where the merged style is given to every paragraph.', 'Margins (C19); borders and fills of tables (C17).'),
}


def bounds(i):
    t = ast.parse(open('%s/verif_h/%s.py' % (V, i.lower())).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            return ast.literal_eval(n.value)
    return {}


out = [open(V + '/tools/design_head.md').read().rstrip('\n'), '', '## Properties', '',
       'Every property is decided by `./check <id> quick|thorough` (`verif_h/cNN.py`); none is not applicable.',
       'Bounds are those of the harness file, from which this text is made.', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    how, no = HOW.get(p['id'], ('', ''))
    out += ['### %s %s' % (p['id'], p['title']), '', how, '']
    out += ['* %s: %s' % b for b in bounds(p['id']).items()]
    if no:
        out.append('* outside: ' + no)
    out.append('')
tail = V + '/tools/design_tail.md'
if os.path.exists(tail):
    out += [open(tail).read().rstrip('\n'), '']
out += ['## Planted bugs', '', 'All are caught by the quick check of their property unless it says otherwise.', '']
seeds = sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []
for s in seeds:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    out.append('* `%s` (%s): %s; needs %s%s' % (s, m['property'], m['what_it_breaks'], m['needs'], ' **missed**' if m.get('missed') else ''))
out += ['', '## Defects found and repaired', '', 'One "fix:" commit each in /repo; none is left open.', '']
for l in open(V + '/known_findings.txt'):
    if l.startswith('fixed:'):
        w = l.split(None, 3)
        out.append('* %s (%s): %s' % (w[1].split('=')[1], w[2], w[3].strip()))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
