#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
I = 'inputs'


def prop(id, title, statement, over, over_text, why, files, mech, state=(), observe=(), technique='', level='exploration', note='', claim=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, level=level, note=note, claim=claim, reason=reason))


PS = 'pdfmajor/parser/PSStackParser/'
DOC = 'pdfmajor/parser/PDFDocument/'
STR = 'pdfmajor/parser/PDFStream/'
CMD = 'pdfmajor/interpreter/commands/'
ST = CMD + 'state/'
LAY = ST + 'layout/'
TXT = ST + 'PDFTextState/'
GS = ST + 'PDFGraphicState/'
FONT = ST + 'PDFTextState/PDFFont/'
CONV = 'pdfmajor/converters/'

prop('C01', 'Every legal spelling of a PDF object reads back as the value it denotes',
     'Whatever legal syntax a file uses for an object - white space (NUL included), comments, literal strings with escapes, octal codes, line '
     'continuations and nested parentheses, hexadecimal strings of whole bytes, names with #xx escapes, signed and fractional numbers, nested arrays '
     'and dictionaries, indirect references - reading the object through the document yields exactly the value it denotes, with the right type. '
     'This holds for top-level objects and for objects kept in object streams.',
     [I], 'all finite nestings of null, booleans, integers, reals, strings, names, arrays, dictionaries and references, in all legal spellings',
     'tests tokenise one fixed sample and a few dozen literals; the space of spellings is unbounded and interacts (comments, escapes, tight delimiters)',
     [PS + 'PSBaseParser.py', PS + '__init__.py', 'pdfmajor/parser/PDFParser.py'],
     [('tokeniser state machine', PS + 'PSBaseParser.py'), ('operand stack parser', PS + '__init__.py')],
     observe=['value returned for an object number'],
     technique='runtime oracle: random object values in random legal spellings by an independent writer, returned value compared online with the model value',
     note='seeded exploration of values x spellings plus fixed extreme probes; trusts the independent writer')

prop('C02', 'Parsing does not depend on read-buffer boundaries or on file-object read sizes',
     'The objects, stream payloads and page contents read from a file do not depend on where its tokens fall relative to internal read blocks or on how long a token is: shifting the same '
     'bytes by any amount of leading white space or comment gives the same values. Nor do the values of objects other than streams depend on the underlying file object returning fewer bytes per read than asked for.',
     [I, 'configurations'], 'all token sequences, all alignments relative to the 4096-byte block, all read-size sequences of the file object',
     'tests read fixed files whose tokens meet a block boundary in one accidental place',
     [PS + 'PSBaseParser.py', PS + '__init__.py', 'pdfmajor/parser/PDFParser.py'],
     [('buffer refill and continuation of partial tokens', PS + 'PSBaseParser.py'), ('stream payload scan line by line', 'pdfmajor/parser/PDFParser.py')],
     state=[('buffer, position and partial token', 'the unread part of the current block', PS + 'PSBaseParser.py')],
     observe=['values of all objects under shifted alignment', 'values under a short-reading file object'],
     technique='metamorphic runtime monitor: the same objects at every alignment around the block size and through a fault-injecting short-read file object, values compared with the model',
     note='alignment sweep around the block boundary (all offsets for chosen tokens in thorough) and injected short reads')

prop('C03', 'Cross-reference data resolves every object to its newest definition',
     'In a file with any number of incremental updates, written with classic tables, cross-reference streams, hybrid sections and object streams in any '
     'mix, looking up an object number yields its newest definition, an object freed in the newest section that mentions it is reported as absent, and the trailer (root, info) is '
     'the newest one. The set of object numbers the document reports covers exactly the objects its sections list as in use.',
     [I, 'histories'], 'all update histories (define, redefine, free, re-use) and all mixes of table, stream, hybrid and compressed storage',
     'the sample files have a handful of fixed revisions; the history space is unbounded',
     [DOC + 'PDFXRef.py', DOC + '__init__.py'],
     [('startxref and Prev chain, newest section first', DOC + '__init__.py'), ('table and stream section decoding', DOC + 'PDFXRef.py')],
     observe=['object lookup result per number', 'catalog and info dictionaries', 'object numbers per section'],
     technique='runtime oracle: random update histories written by an independent multi-revision writer; every lookup checked against a replayed model of the history',
     note='model replay over random histories; generation numbers above zero appear only through free/re-use')

prop('C04', 'Files with a damaged cross-reference are still read from the objects in them',
     'When the startxref value of an otherwise intact file (tables, cross-reference streams or both, objects in the body or in object streams) is missing or points anywhere but at a section, or bytes of the newest table '
     'are overwritten with junk while the trailer dictionary stays intact, the document still opens, every object written in the file is found with its newest definition, and the pages are those of the intact file. '
     'Whatever other damage is done to the cross-reference part, or wherever the file is cut off, opening it and looking up objects succeeds or raises one of the documented PDF errors.',
     [I, 'fault_sequences'], 'all intact unencrypted files, all placements of the listed kinds of damage in the cross-reference part, all truncation points',
     'no test damages a cross-reference; the fault positions are as many as the bytes of the section',
     [DOC + '__init__.py', DOC + 'PDFXRef.py'],
     [('fallback scan for object headers and trailers', DOC + 'PDFXRef.py'), ('fallback selection when sections cannot be read', DOC + '__init__.py')],
     observe=['object lookups and page delivery after each injected fault'],
     technique='fault injection: enumerated damage to startxref, table and trailer bytes of generated files, lookups and pages compared with the intact model', level='fault_enumeration',
     note='enumerates the named damage kinds over sampled files; random byte damage is judged on the error contract only')

prop('C05', 'Stream payloads are delivered byte for byte',
     'The raw payload of a stream whose Length is correct is exactly the bytes between the end-of-line after "stream" and Length bytes later: binary data, '
     'data that ends in line breaks, and data containing the words stream, endstream, obj or endobj are returned unchanged. This holds for direct '
     'and indirect Length, for every legal end-of-line after the keyword, and for payloads of any size. Where the Length is missing or wrong, a payload without end marker is delivered up to the marker, with at most the line end before it.',
     [I], 'all payloads, direct or indirect Length, LF or CRLF after the keyword, all positions in the file',
     'sample streams never contain end markers and are compressed, so trailing bytes go unseen',
     ['pdfmajor/parser/PDFParser.py', STR + '__init__.py', DOC + '__init__.py'],
     [('payload read by Length with resynchronisation on endstream', 'pdfmajor/parser/PDFParser.py')],
     observe=['raw and decoded data of every stream object'],
     technique='runtime oracle: hostile payloads embedded by an independent writer, payload compared byte for byte',
     note='random and adversarial payloads around end markers and block sizes')

prop('C06', 'Decoding a filter chain inverts encoding',
     'For any data and any chain of Flate, LZW (both EarlyChange settings), ASCII85, ASCIIHex and RunLength filters, named in full or abbreviated, as a single filter or an array, with parameters and filter values direct or indirect, the decoded '
     'data of the stream equals the data that was encoded. Bytes after an end-of-data marker are ignored, and white space inside the ASCII filters is too.',
     [I, 'configurations'], 'all data, all chains of the listed filters, all encoder choices',
     'tests decode a few short vectors per filter and never a chain',
     [STR + '__init__.py', STR + 'util.py', 'pdfmajor/utils/ascii85.py', 'pdfmajor/utils/lzw.py'],
     [('filter loop over the chain', STR + '__init__.py'), ('LZW code-width growth', 'pdfmajor/utils/lzw.py')],
     observe=['decoded stream data'],
     technique='round-trip runtime oracle: independent encoders with random encoder choices, decoded bytes compared with the source',
     note='seeded exploration; DCT/JBIG2/JPX are pass-through by design and excluded')

prop('C07', 'Predictors are undone exactly',
     'Flate or LZW data written with any PNG predictor (each row choosing any of None, Sub, Up, Average and Paeth) for any number of colours, bits per component and columns decodes to '
     'the original samples, and the default predictor leaves the data alone. The same holds when a cross-reference stream is itself written with a predictor.',
     [I, 'configurations'], 'all sample data, colours 1-4, 1/2/4/8/16 bits, any columns, any row filter sequence',
     'tests meet predictor rows only through one sample file that uses Up',
     [STR + 'util.py', STR + '__init__.py'],
     [('row-filter reversal', STR + 'util.py')],
     observe=['decoded stream data', 'object lookup through a predicted cross-reference stream'],
     technique='round-trip runtime oracle: independent PNG row encoder over random geometry and row filters',
     note='seeded exploration of geometry x row-filter sequences')

prop('C08', 'Group 4 fax data decodes to the image that was encoded',
     'A stream compressed with CCITT Group 4 decodes to exactly the rows that were encoded, one padded row of bits per scan line with the polarity BlackIs1 '
     'asks for, for every width and every sequence of pass, horizontal and vertical modes, with or without byte alignment.',
     [I, 'configurations'], 'all bitmaps, all widths, EncodedByteAlign and BlackIs1 on or off, with and without an end-of-block code',
     'no test decodes fax data',
     [STR + 'ccitt.py'],
     [('mode and run-length code machine', STR + 'ccitt.py')],
     observe=['decoded stream data'],
     technique='round-trip runtime oracle: independent Group 4 encoder (validated against libtiff) over random bitmaps',
     note='seeded exploration; Group 3 (K>=0) is outside the property')

prop('C09', 'Opening an encrypted file with a right password is transparent',
     'A file protected by the standard security handler - RC4 with 40 to 128 bit keys, RC4 or AES-128 crypt filters, AES-256 revision 5, Identity - opened with its user or its owner '
     'password yields the same strings, stream data, pages and text as the same document unencrypted. The default password opens a file whose user password is empty.',
     [I, 'configurations'], 'all documents, algorithms, key lengths, user and owner passwords, permissions and identifiers',
     'tests open two encrypted samples with one password each and compare nothing with a plain original',
     [DOC + 'PDFSecurityHandler.py', DOC + '__init__.py', 'pdfmajor/parser/PDFParser.py'],
     [('key derivation and per-object decryption', DOC + 'PDFSecurityHandler.py'), ('decipher of parsed objects', DOC + '__init__.py')],
     observe=['canonical dump of every object', 'page text'],
     technique='differential runtime oracle: independent encryptor (ISO 32000-1 algorithms 1-7, revision 5) over random documents, decrypted objects compared with the plain model',
     note='seeded exploration; the encryptor is independent of the code under test and shares only the AES primitive of the crypto library')

prop('C10', 'Wrong passwords and unsupported protection are refused; permissions are honoured',
     'Opening an encrypted file with a password that is neither the user nor the owner password raises the documented incorrect-password error, and an unknown '
     'handler, algorithm or revision raises the documented encryption error; no object of the document is delivered in either case. The reported print, modify and extract permissions are the ones in the '
     'file, and extraction is refused with the documented error when asked to respect a file that forbids it.',
     [I, 'configurations'], 'all wrong passwords (near misses included), all handler parameters outside the supported set, all permission words',
     'tests never present a wrong password or a forbidden permission',
     [DOC + 'PDFSecurityHandler.py', DOC + '__init__.py', 'pdfmajor/parser/PDFPage.py', 'pdfmajor/execptions.py'],
     [('password authentication', DOC + 'PDFSecurityHandler.py'), ('extraction gate', 'pdfmajor/parser/PDFPage.py')],
     observe=['exception type at open', 'permission flags', 'gated page delivery'],
     technique='runtime monitor on the open outcome: near-miss passwords and perturbed security dictionaries, exception class and absence of delivered objects checked',
     note='seeded exploration')

prop('C11', 'Pages come in tree order with inherited attributes',
     'Every page of the page tree is delivered exactly once, in document order, whatever the shape of the tree; its media box, crop box, rotation and resources are '
     'the page\'s own or those of the nearest ancestor that has them, its width and height are those of the media box (any two opposite corners) after rotation, what is drawn on it is placed relative to the lower left corner of that rotated box, and a page without content is blank. Asking for a set of page indices or a maximum number of pages delivers exactly those pages.',
     [I], 'all tree shapes, all placements of inheritable attributes at every level, all page selections',
     'sample files have flat trees with one inheritance level',
     ['pdfmajor/parser/PDFPage.py', 'pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py'],
     [('depth-first walk with inherited dictionary', 'pdfmajor/parser/PDFPage.py')],
     observe=['delivered pages: identity, boxes, rotation, resources, text'],
     technique='runtime oracle: random page trees with unique page markers, delivered sequence compared with the model walk',
     note='seeded exploration; combining an index set with a maximum is outside the property')

prop('C12', 'Outlines and named destinations are complete and ordered',
     'The outline of a document is delivered completely, in document order, with the right nesting level, title (any legal text encoding) and destination or action of every '
     'entry that has one. Every named destination, in the name tree or in the older dictionary, resolves to its value, and an unknown one raises the documented not-found error.',
     [I], 'all outline trees, all name-tree shapes and all names, present or absent',
     'tests check outlines of no generated tree; the samples hold few entries',
     [DOC + '__init__.py', 'pdfmajor/utils/generic.py', 'pdfmajor/utils/text.py'],
     [('outline walk', DOC + '__init__.py'), ('name-tree descent by limits', DOC + '__init__.py')],
     observe=['outline sequence', 'destination lookups'],
     technique='runtime oracle: random outlines and balanced or skewed name trees, sequence and lookups compared with the model',
     note='seeded exploration')

prop('C13', 'Save and restore bring back the whole graphics state',
     'After any properly nested sequence of save, restore, transformation, line width, colour and colour-space operators, each painted object carries the line width, '
     'stroke and fill colour and position determined by the operators in force at that point; what is changed between a save and its restore has no effect after it.',
     ['programs'], 'all operator sequences over q, Q, cm, w, and the stroking and non-stroking colour operators, any nesting depth',
     'unit tests look at whole sample pages and assert nothing on state after restore',
     [CMD + 'commands.py', ST + '__init__.py', ST + 'PDFGraphicState/__init__.py'],
     [('state stack', CMD + 'commands.py')],
     state=[('graphics state and stack', 'current transformation, colours, width', ST + '__init__.py')],
     observe=['line width, colours and bounding box of each painted shape'],
     technique='model-based runtime oracle: random operator programs executed by an independent reference interpreter, every painted object compared',
     note='seeded exploration; the colour reported right after only choosing a colour space is outside the property; Q not bringing back line width and colours is a known finding')

prop('C14', 'Painted paths are reported with their true geometry',
     'Every painted path is reported once, in paint order, with the bounding box of its points under the transformation in force, the even-odd flag of its '
     'painting operator, and its segments in construction order; an unpainted path is not reported and leaves nothing behind. A path that is one line segment or one closed axis-aligned rectangle is reported as such.',
     ['programs'], 'all path constructions with m, l, c, v, y, h, re and all painting operators under any transformation',
     'sample pages contain few shapes and the tests compare none of them with a reference',
     [CMD + 'commands.py', CMD + 'utils.py', ST + 'Curves.py', ST + 'layout/LTCurves.py'],
     [('path accumulation and classification', CMD + 'utils.py')],
     observe=['type, bounding box, flags and segments of each reported shape'],
     technique='model-based runtime oracle: random path programs executed by an independent reference interpreter, reported shapes compared',
     note='seeded exploration; the box of a path with Bezier segments may be anything from the box of its end points to that of all its points')

prop('C15', 'Every shown character is placed where the text operators put it',
     'For any legal sequence of text operators each shown character code is reported once, in order, with the bounding box that the text and transformation matrices, font size, widths, '
     'character and word spacing, horizontal scaling, leading, rise and displacement adjustments determine, in horizontal and in vertical writing. Empty strings and pure adjustments are legal and only move the position.',
     ['programs'], 'all text-object operator sequences, matrices, fonts widths and strings',
     'tests compare the text of samples, not positions',
     [CMD + 'commands.py', ST + 'layout/utils/textdecoder.py', ST + 'layout/LTCharBlock.py', ST + 'layout/LTTextBlock.py', ST + 'PDFTextState/__init__.py', ST + 'layout/LTChar.py'],
     [('text matrix advance', ST + 'layout/utils/textdecoder.py'), ('operator implementations', CMD + 'commands.py')],
     observe=['text and bounding box of each character'],
     technique='model-based runtime oracle: random text programs executed by an independent reference interpreter, each character box compared within 1e-6 relative',
     note='seeded exploration; the box spans the font descent and the height of the font box (or ascent to descent)')

prop('C16', 'Simple fonts decode each byte by the font\'s declared encoding',
     'For a simple font each byte shown is reported with the character that the base encoding (where none is named: the one built into an embedded Type 1 font program, else StandardEncoding) and the Differences array assign to it (standard glyph names, uniXXXX and uXXXXX forms), and with the width the Widths '
     'array gives it, or the missing width outside its range.',
     [I], 'all base encodings, all Differences arrays, all width arrays, all byte strings',
     'tests cover the glyph name of a few entries and whole-page text',
     ['pdfmajor/parser/EncodingDB.py', 'pdfmajor/utils/encoding/latin_enc.py', 'pdfmajor/utils/encoding/glyphlist.py', FONT + 'fonts.py', FONT + 'PDFFont.py'],
     [('encoding tables and differences', 'pdfmajor/parser/EncodingDB.py')],
     observe=['text and advance of each character'],
     technique='runtime oracle: independent encoding tables (from Python codecs) and random Differences/Widths, reported text and advance compared',
     note='seeded exploration; all 256 codes of each base encoding are covered every run')

prop('C17', 'Composite fonts and ToUnicode maps decode codes completely',
     'Text shown with a composite font is split into codes as its character map says and each code is reported with the Unicode string its ToUnicode map (single, range, array forms, any length) '
     'gives it and with the width its W array or default width gives it; a ToUnicode map takes precedence in simple fonts too.',
     [I], 'all ToUnicode maps, all W arrays, identity and predefined character maps, all code strings',
     'tests cover a few bundled maps and no generated ones',
     ['pdfmajor/parser/cmapdb/__init__.py', FONT + 'fonts.py', FONT + 'util.py', FONT + 'PDFFont.py'],
     [('code-space walk', 'pdfmajor/parser/cmapdb/__init__.py'), ('width array expansion', FONT + 'util.py')],
     observe=['text and advance of each character'],
     technique='runtime oracle: random maps and widths, reported text and advance compared with the model',
     note='seeded exploration')

prop('C18', 'A form XObject paints what its content would paint inline',
     'Invoking a form gives the same objects, at the same positions, with the same text and colours, as if its content had been written in place inside a save/restore with the form matrix '
     'applied, using the form\'s resources or, failing that, those of the page; afterwards the caller\'s state is unchanged. This holds for forms within forms and for forms used repeatedly. A form starts with the text state of its caller; a form met again within itself is left out there.',
     ['programs'], 'all form contents, matrices, resource placements, nesting and repeated use',
     'few samples hold forms and tests check only that their text appears',
     [CMD + 'commands.py', CMD + '__init__.py', ST + 'layout/__init__.py'],
     [('form execution with its own state', CMD + 'commands.py')],
     observe=['flattened sequence of painted objects'],
     technique='model-based runtime oracle: random form trees, painted objects compared with an independent reference interpreter that runs form content in place',
     note='seeded exploration; depth up to 12')

prop('C19', 'Images are reported once with their true geometry and data, and exported intact',
     'Each image painted, external or inline, is reported once, in paint order, with the unit square under the transformation in force as its box, its declared size, bits and '
     'colour space, and its exact data (inline data ends at the first EI followed by white space, less one line end before it). An exported image file decodes to the same pixels: 8-bit grey and RGB and one-bit grey data as bitmaps, grey and RGB JPEG data unchanged, other data as raw bytes; exports do not overwrite one another.',
     [I, 'programs'], 'all image sizes, depths and data, external and inline with full or abbreviated keys, all transformations',
     'tests check only that files appear for a sample',
     [CMD + 'commands.py', 'pdfmajor/parser/PDFContentParser.py', ST + 'layout/LTImage.py', 'pdfmajor/BMPWriter/__init__.py', CMD + 'state/layout/LTImage.py'],
     [('inline image scan', 'pdfmajor/parser/PDFContentParser.py'), ('image export', ST + 'layout/LTImage.py')],
     observe=['reported image attributes and data', 'exported file decoded by an independent reader'],
     technique='runtime oracle: random images, reported attributes and independently decoded exports compared with the source samples',
     note='seeded exploration; exports read back with an independent BMP reader')

prop('C20', 'Splitting page content over several streams changes nothing',
     'A page whose content is divided at any token boundary into any number of content streams gives exactly the same output as the same content in one stream.',
     [I, 'programs'], 'all content programs and all divisions at token boundaries, including division next to strings, inline images and empty parts',
     'samples use one fixed division each',
     ['pdfmajor/parser/PDFContentParser.py', CMD + '__init__.py', PS + 'PSBaseParser.py'],
     [('content-stream concatenation', 'pdfmajor/parser/PDFContentParser.py')],
     observe=['sequence of painted objects'],
     technique='metamorphic runtime monitor: same content in one and in many streams, outputs compared',
     note='seeded exploration; every boundary of small programs is tried')

prop('C21', 'Reading again gives the same result, in any order and in every mode',
     'Iterating the same document or page again, abandoning an iteration midway and starting over, collecting all pages before reading any of them, preloading, and turning object caching on or off all '
     'give exactly the same pages and objects as a single straight pass.',
     ['histories', 'configurations'], 'all sequences of full, partial, repeated and interleaved iterations in all loading modes',
     'tests iterate each document once, straight through',
     ['pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py', DOC + '__init__.py', CMD + 'PDFCommands.py'],
     [('lazy page generator and preload list', 'pdfmajor/interpreter/__init__.py'), ('object cache', DOC + '__init__.py')],
     observe=['output of every pass'],
     technique='trace comparison: random access histories over generated and sample files, each pass compared with the straight pass',
     note='seeded exploration')

prop('C22', 'Documents do not influence one another, in sequence or in threads',
     'The result of reading a document does not depend on which documents were read before it in the process or are being read at the same time by other threads, each thread using its own '
     'interpreter.',
     ['histories', 'schedules'], 'all orders of documents and all thread interleavings',
     'each test reads one document in a single thread; shared caches and class attributes are never raced',
     ['pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/parser/PSStackParser/types.py', 'pdfmajor/parser/EncodingDB.py', CMD + 'commands.py', ST + '__init__.py', FONT + '__init__.py'],
     [('interned names, cached maps and encodings', 'pdfmajor/parser/PSStackParser/types.py')],
     state=[('process-wide tables', 'interned symbols, character maps, encodings', 'pdfmajor/parser/cmapdb/__init__.py')],
     observe=['output per document alone, after others, and under concurrent readers'],
     technique='concurrency stress with forced thread switches (tiny switch interval and injected yields on traced lines), outputs compared with the isolated reference',
     level='exploration', note='observed interleavings are counted; shared-table snapshots are compared before and after')

prop('C23', 'Ignoring bad characters removes or replaces only undecodable ones',
     'Text that decodes completely is the same whichever way undecodable characters are to be handled. Where a character cannot be decoded, reading the page raises the documented error (UnicodeNotDefined) by default; when asked to '
     'ignore bad characters, every other character is delivered unchanged and unmoved, on the page and in forms alike, and the undecodable one with empty text.',
     [I, 'configurations'], 'all mixes of decodable and undecodable codes in all font kinds, on pages and in forms',
     'tests never compare the two modes',
     [ST + 'layout/utils/textdecoder.py', ST + 'PDFTextState/__init__.py', CMD + 'commands.py', 'pdfmajor/interpreter/__init__.py', CONV + '__init__.py'],
     [('handling of undefined characters', ST + 'layout/utils/textdecoder.py')],
     observe=['characters and boxes in both modes'],
     technique='differential runtime monitor: both modes on the same generated page, compared with the model',
     note='seeded exploration')

prop('C24', 'Reading a document touches nothing but what it was told to',
     'Opening, interpreting and converting a document, whatever its bytes, opens for reading only the given input and the package\'s own data files, writes only to the given output and image '
     'folder, and starts no process and no network connection; no value in the document is used as a file path. All files it opened are closed once reading is done or has failed.',
     [I], 'all documents, hostile names of character maps, fonts, images and destinations included, and all failures midway',
     'no test watches file effects',
     ['pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/interpreter/__init__.py', CONV + '__init__.py', ST + 'layout/LTImage.py'],
     [('character-map file lookup', 'pdfmajor/parser/cmapdb/__init__.py')],
     observe=['interpreter audit events: open, import, subprocess, socket, pickle'],
     technique='runtime effect monitor: audit hook on open/exec/socket/unpickle events plus open-handle accounting under hostile inputs',
     note='audit events recorded for every case; hostile names exercised in every name-valued position')

_conv = [('writer', CONV + 'writers'), ('conversion', CONV)]
prop('C25', 'JSON output is valid and carries exactly the document\'s content',
     'For every document and encoding the JSON conversion is one valid JSON value that lists every page, and on it every text block with its characters, every shape with its path, every image and every form with its '
     'content, each once and in order, with the text, box, size, font with its descriptor entries, and colours the interpreter reports, whatever characters and numbers the text, names and descriptors contain; numbers '
     'JSON cannot hold become null.',
     [I], 'all documents, all text (quotes, backslashes, control and non-ASCII characters), all names',
     'tests compare sample output with stored files and parse none of it',
     [CONV + 'json.py', CONV + 'writers/json.py', CONV + '__init__.py'], [('writer', CONV + 'writers/json.py'), ('conversion', CONV + 'json.py')],
     observe=['converted file parsed by an independent JSON parser'],
     technique='runtime oracle: output parsed independently and compared with the interpreter\'s own item sequence',
     note='seeded exploration')
prop('C26', 'XML output is well-formed and carries exactly the document\'s content',
     'For every document and encoding the XML conversion is a well-formed XML document that holds every page, and on it every text block with its characters, every shape with its path, every image and every form with its content, each '
     'once and in order, with the text, box, size, font name, usual descriptor attributes and colours the interpreter reports; characters XML cannot carry are left out or replaced, never emitted raw.',
     [I], 'all documents, all text (markup characters, control characters, quotes), all names',
     'tests compare sample output with stored files and parse none of it',
     [CONV + 'xml.py', CONV + 'writers/xml.py', CONV + '__init__.py'], [('writer', CONV + 'writers/xml.py'), ('conversion', CONV + 'xml.py')],
     observe=['converted file parsed by an independent XML parser'],
     technique='runtime oracle: output parsed independently and compared with the interpreter\'s own item sequence',
     note='seeded exploration')
prop('C27', 'HTML output keeps the text and cannot be taken over by it',
     'For every document and encoding the HTML conversion is properly nested and shows every page with its characters, shapes (placed paths), images and forms, each once and in order, with the sizes, positions and '
     'gray or RGB colours the interpreter reports; document text and names appear only as text or quoted attribute values and never become markup.',
     [I], 'all documents, all text (markup, quotes, entities), all names',
     'tests compare sample output with stored files',
     [CONV + 'html.py', CONV + 'writers/html.py', CONV + '__init__.py'], [('writer', CONV + 'writers/html.py'), ('conversion', CONV + 'html.py')],
     observe=['converted file parsed by an independent HTML parser'],
     technique='runtime oracle: output parsed independently; element set and text compared with the model',
     note='seeded exploration')
prop('C28', 'YAML output is valid and carries exactly the document\'s content',
     'For every document and encoding the YAML conversion is one valid YAML document that lists every page, and on it every text block with its characters, every shape with its path, every image and every form with its '
     'content, each once and in order, with the text, box, size, font with its descriptor entries, and colours the interpreter reports, whatever characters and numbers the text, names and descriptors contain.',
     [I], 'all documents, all text (colons, quotes, indicators, control characters), all names',
     'tests compare sample output with stored files',
     [CONV + 'yaml.py', CONV + 'writers/yaml.py', CONV + '__init__.py'], [('writer', CONV + 'writers/yaml.py'), ('conversion', CONV + 'yaml.py')],
     observe=['converted file parsed by an independent YAML parser'],
     technique='runtime oracle: output parsed independently and compared with the interpreter\'s own item sequence',
     note='seeded exploration')
prop('C29', 'Text conversion is complete, and conversion writes where it was told',
     'The text conversion holds, under a header line per page, the text of every page and form in the sequence the interpreter reports, in the requested encoding. A conversion writes to the output path given, derives one from the input with the '
     'format\'s extension when none is given, never overwrites its input (also when reached by another name for the same file), and rejects an unknown format or an output name that does not match the format with the documented error without touching any file.',
     [I, 'configurations'], 'all documents, output formats, output paths and encodings',
     'tests convert samples to one fixed place',
     [CONV + 'text.py', CONV + '__init__.py'], [('output naming and dispatch', CONV + '__init__.py')],
     observe=['output file content', 'files created or changed in the folder'],
     technique='runtime oracle: folder snapshots before and after plus text compared with the interpreter\'s own sequence',
     note='seeded exploration')

prop('C30', 'Hostile structure cannot make reading run away',
     'Reading any document takes work bounded by its size (decoded data, character codes a table covers and forms as often as they are painted count as size): cycles and sharing anywhere - object references, page tree, '
     'previous sections, object streams, outline and name-tree links, forms that invoke themselves, lengths and filters that refer to themselves - cost at most quadratic work, deep nesting does not exhaust recursion, and '
     'every reading of corrupted or truncated bytes ends in a result or a documented error.',
     [I, 'fault_sequences'], 'all cyclic object graphs and all mutations of valid files',
     'no test holds a cycle; the mutation space is unbounded',
     [STR + 'util.py', STR + 'PDFObjRef.py', DOC + '__init__.py', 'pdfmajor/parser/PDFPage.py', CMD + 'commands.py', 'pdfmajor/parser/cmapdb/__init__.py'],
     [('reference resolution', STR + 'PDFObjRef.py'), ('visited set in the section walk', DOC + '__init__.py')],
     observe=['deterministic step count of the code under test', 'recursion errors'],
     technique='runtime step-budget monitor (interpreter event counts, not wall clock) over enumerated cycles and mutated files', level='exploration',
     note='every link kind in the cycle catalogue is exercised each run; mutated files are sampled')

prop('C31', 'Malformed input fails only with the documented errors',
     'Whatever bytes it is given, opening and reading a document - objects, streams, outlines, destinations, pages, text and items - either succeeds or raises one of the library\'s documented error classes; internal errors of the language runtime - undefined names, wrong types, bad indexes, '
     'conversion failures - never reach the caller.',
     [I, 'fault_sequences'], 'all mutations of valid files: byte flips, cuts, splices, type confusions of every dictionary entry',
     'tests read valid files only',
     ['pdfmajor/execptions.py', PS + '__init__.py', DOC + '__init__.py', STR + '__init__.py', CMD + '__init__.py', FONT + '__init__.py'],
     [('error hierarchy', 'pdfmajor/execptions.py')],
     observe=['class of every exception that leaves the library'],
     technique='fault-injecting runtime monitor: structural type confusion and byte mutation, escaping exception classes checked',
     note='sampled mutations; see DESIGN.md for the exact scope')

prop('C32', 'The command line converts like the library does',
     'The command-line converter gives, for every format and option, byte for byte what the corresponding library conversion gives, to the named file, and exits non-zero with nothing written on a usage error.',
     ['configurations', I], 'all formats, page selections, passwords and options',
     'no test runs the command',
     ['tools/pdfconvert.py', CONV + '__init__.py'], [('argument handling', 'tools/pdfconvert.py')],
     observe=['exit status and output file'],
     technique='differential runtime monitor: command run as a process, output compared with the library conversion',
     note='seeded exploration of options')

prop('C33', 'Values given by reference mean the same as values in place',
     'A document reads the same whether the values in its dictionaries and arrays - of pages, page tree, resources, fonts and descriptors, forms, images, colour spaces, outlines, destinations and stream dictionaries - stand in '
     'place or are references to objects holding them: same pages, items, fonts, outlines, destinations, stream data and conversions. (Trailers and cross-reference streams, whose values must be direct, are not meant.)',
     [I], 'all documents and all choices of values moved to objects of their own',
     'the samples refer to what their producers happened to refer to; the choices are a power set',
     [STR + 'util.py', STR + '__init__.py', 'pdfmajor/parser/PDFPage.py', DOC + '__init__.py', CMD + 'commands.py', CMD + 'utils.py', FONT + '__init__.py', FONT + 'PDFFont.py', FONT + 'fonts.py'],
     [('following of references', STR + 'util.py')],
     observe=['pages, items, fonts, outlines, destinations, stream data and converted files of two writings of one document'],
     technique='metamorphic runtime monitor: the same document written with values in place and by reference, everything observable compared', level='exploration',
     note='every entry name the generator knows is moved alone in turn; the rest is sampled')


prop('C34', 'Strict reading refuses, it does not read differently',
     'With settings.STRICT on, a well-formed document reads as it does with it off - objects, stream data, outlines, destinations, pages, items and conversions are the same -, and what leaves the library '
     'for a file of any other kind is a documented error.',
     [I, 'configurations'], 'all files, with and without the setting',
     'the setting is off in all tests: no strict branch is executed by any of them',
     ['pdfmajor/utils/__init__.py', STR + 'util.py', 'pdfmajor/parser/cmapdb/__init__.py', DOC + '__init__.py', 'pdfmajor/parser/PDFPage.py', CMD + 'commands.py', FONT + 'fonts.py', 'pdfmajor/parser/PDFStream/__init__.py'],
     [('strict checks of types', STR + 'util.py')],
     observe=['objects, stream data, outlines, destinations, pages, items, converted files and errors of a lenient and a strict reading'],
     technique='differential runtime monitor: every document read with the setting off and on, part by part', level='exploration',
     note='seeded generation of well-formed and faulty documents')


prop('C35', 'What a page delivers can be printed, measured and asked',
     'Everything read from a well-formed document - pages, items, characters, fonts, colours, states, paths, objects - can be printed, which shows its kind, box, text, size or number; sizes, emptiness, overlap and distance '
     'agree with the boxes; blocks cover their parts and have their number and text; fonts answer for weight, heights and widths of strings as their descriptors say; printing, measuring and debug messages change nothing.',
     [I], 'all well-formed documents and all objects they deliver',
     'the example of the README prints every item, no test prints or measures one',
     ['pdfmajor/utils/types.py', LAY + '_base.py', LAY + 'LTChar.py', LAY + 'LTCharBlock.py', LAY + 'LTTextBlock.py', LAY + 'LTCurves.py', FONT + 'PDFFont.py', TXT + '__init__.py', GS + 'PDFColor.py'],
     [('boxes', 'pdfmajor/utils/types.py'), ('measures', LAY + '_base.py')],
     observe=['printed forms, boxes, measures, relations of pairs, answers of fonts, debug messages'],
     technique='runtime monitor: every delivered object printed and measured, invariants asserted, items compared before and after and with messages on', level='exploration',
     note='seeded generation of documents; overlap lengths only where neither extent holds the other')


def built(id):
    return os.path.exists(os.path.join(HERE, 'checks', id.lower() + '.py'))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = {'files': sorted(set(p['files'])), 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            for x in a['files'] + [w for _, w in p['mech']]:
                assert os.path.exists('/repo/' + x), x
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            a['observe_at'] = list(p['observe'])
            a['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['over_text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B run.py selftest', 'checks': [], 'not_applicable': [],
         'notes': 'Runtime monitoring only. Every check runs /repo as it stands (no build products, no hooks in the source); '
                  'run.py replay <path> repeats a reported violation.'}
    for p in P:
        if p['claim'] and built(p['id']):
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'],
                                'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                                'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['reason'] or 'check not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def consts(id):
    """The declared constants of a check, without importing the package."""
    import ast
    out = {}
    tree = ast.parse(open(os.path.join(HERE, 'checks', id.lower() + '.py')).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def design():
    """Rewrite the generated part of DESIGN.md."""
    from notes import NOTES
    path = os.path.join(HERE, 'DESIGN.md')
    head = open(path).read().split('<!-- generated -->')[0]
    t = [head, '<!-- generated -->\n\n## Per property\n\n']
    for p in P:
        c = consts(p['id'])
        t.append('### %s %s\n\n' % (p['id'], p['title']))
        t.append('* Quantified over: %s.\n' % p['over_text'])
        t.append('* Why the tests cannot settle it: %s.\n' % p['why'])
        if not (p['claim'] and built(p['id'])):
            t.append('* Not applicable: %s\n\n' % p['reason'])
            continue
        t.append('* Method: %s.\n' % p['technique'])
        t.append('* Observed at: %s.\n' % '; '.join(p['observe']))
        if 'RULE' in c:
            t.append('* Workload and what counts: %s.\n' % c['RULE'])
        if NOTES.get(p['id']):
            t.append('* %s\n' % NOTES[p['id']])
        if c.get('ASSUMPTIONS'):
            t.append('* Assumptions: %s.\n' % '; '.join(c['ASSUMPTIONS']))
        if isinstance(c.get('CASES'), dict):
            t.append('* Bounds: %d cases quick, %d thorough' % (c['CASES']['quick'], c['CASES']['thorough']))
            t.append('; level %s.\n' % p['level'])
        if isinstance(c.get('MIN'), dict):
            t.append('* The run is inconclusive below: %s.\n' % ', '.join('%s %s' % (k.lstrip('#'), v) for k, v in c['MIN'].items() if v))
        t.append('\n')
    t.append('## Planted bugs and the checks that catch them\n\n')
    t.append('All were written from the statements and the code, pass the existing tests, and are caught by the quick check of their property '
             '(tried with three seeds).\n\n| bug | check | what it breaks | needs |\n|---|---|---|---|\n')
    sd = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        t.append('| %s | %s | %s | %s |\n' % (b, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
    with open(path, 'w') as f:
        f.write(''.join(t))


if __name__ == '__main__':
    main()
    design()
