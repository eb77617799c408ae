"""Remarks of DESIGN.md, per property."""
NOTES = {
 'C01': 'Oracle: the model value the writer started from; bool/int/float/bytes/name types are compared too. Reach: spellings interact (a comment inside an array '
        'next to a name escape, tight delimiters), so values and spellings are drawn independently. Excluded: odd hexadecimal strings, whose (deviating) value an existing test fixes.',
 'C02': 'Oracle: the same model at every alignment. Short reads are injected by a wrapper around the file object.',
 'C03': 'Oracle: a replayed model of the history. Every revision prefix of the file is a document of its own and is opened too, numbers are looked up in random order, and the '
        'numbers the sections list are compared with the model. Second-chance lookups (freed and re-used, hybrid sections with XRefStm, several subsections) are counted.',
 'C04': 'Faults are enumerated by kind and place; only the kinds named in the statement are judged on content, all others on the error contract. Not claimed: objects whose header is not at a line start.',
 'C05': 'Oracle: the payload bytes written. Payloads hold the parser\'s own keywords, line ends at both ends and lengths around the block size.',
 'C06': 'Oracle: the source data. Encoders are independent of the package (codecs.py) and are themselves checked by `run.py selftest` against zlib, base64, Pillow.',
 'C07': 'Oracle: the source samples; the PNG filters are computed per row by the writer.',
 'C08': 'Oracle: the bitmap; the T.6 encoder is checked against libtiff by the selftest. The coding modes and code words used are counted and have minimum counts.',
 'C09': 'Oracle: the unencrypted model. The encryptor (crypt.py) shares only the AES block primitive with the library. Objects that must not be deciphered (the encryption dictionary, '
        'cross-reference streams, members of object streams) are part of the file and compared.',
 'C10': 'Oracle: what the file says. Wrong passwords are near misses of the right one; dictionaries are perturbed one entry at a time.',
 'C11': 'Oracle: a walk of the model tree. Both public readers and both page-selection parameters are used.',
 'C12': 'Oracle: the model outline and destination table; name trees are written with random fan-out, limits and depth.',
 'C13': 'Oracle: refint.py, an interpreter of content programs written from the standard. Known finding `q-restore`: Q does not bring back line width and colours (an existing '
        'test demands the colour left by the inner level, so it cannot be repaired). A difference is put down to it only if the reference interpreter with exactly this defect '
        'switched on reproduces every object of the page; anything else is a violation.',
 'C14': 'Oracle: refint.py. Boxes of Bezier segments may lie anywhere between the end-point box and the control-point box. Coordinates up to 2**70 are drawn.',
 'C15': 'Oracle: refint.py; positions are compared to 1e-6 of their magnitude.',
 'C16': 'Oracle: encoding tables written down independently (encs.py). Glyph names outside the glyph list keep the character of the base encoding: that is upstream behaviour, not claimed.',
 'C17': 'Oracle: the model of the character map. Text is compared character by character, boxes to 1e-6.',
 'C18': 'Oracle: refint.py running the form content in place. Forms that refer to themselves or to a form around them are part of the trees.',
 'C19': 'Oracle: source pixels; exported bitmaps are decoded by an independent reader, JPEG data compared byte for byte (or, for 4 components, by size).',
 'C20': 'Metamorphic oracle: the single-stream page.',
 'C21': 'Metamorphic oracle: one straight pass by a fresh reader.',
 'C22': 'Oracle: the output of a forked process that read nothing else. Threads run under a 20 us switch interval with yields injected at call and return events of the package; '
        'the number of switches observed is in the evidence.',
 'C23': 'Oracle: refint.py with undecodable codes marked.',
 'C24': 'Monitor: sys.addaudithook, wrapped os.stat family, descriptor table before and after. Forbidden actions are recorded and refused before they happen, so that a broken '
        'tree cannot harm the sandbox.',
 'C25': 'Oracle: the items of the interpreter, read through Python\'s strict JSON parser.',
 'C26': 'Oracle: the items of the interpreter, read through expat.',
 'C27': 'Oracle: the items of the interpreter, read through html.parser with a strict element stack and an element/attribute whitelist.',
 'C28': 'Oracle: the items of the interpreter, read through libyaml (PyYAML).',
 'C29': 'Oracle: the items and a snapshot of the scratch folder before and after.',
 'C30': 'Monitor: sys.monitoring counts branches, jumps, calls and resumptions in package code. Every pattern of the catalogue is built at two sizes and must not grow faster '
        'than quadratically; the odd-token catalogue is run at several sizes because a token pattern may hit every other size only. Each run also has an absolute step budget.',
 'C31': 'Monitor: the class of every exception that leaves the library. faulty.py knows which entry is of which type and puts every other type in its place.',
 'C32': 'Oracle: the library conversion in a process of its own with the same options, byte for byte.',
 'C33': 'Metamorphic oracle: the same document with values in place. mutate.freeze moves values to objects.',
 'C34': 'Differential oracle: the lenient reading. For faulty files only "a documented error or a result" is required: strict refusal of one part legitimately sends the reader to its fallback.',
 'C35': 'Invariants between what is printed, measured and reported, and freezing of all items before and after.',
}
