"""Malformed input fails only with the documented errors."""
import traceback

from vlib import faulty, harness
from vlib.harness import Violation

ID = 'C31'
LEVEL = 'exploration'
RULE = ('complete documents (all font kinds, forms, images, filters, outlines, name trees, encryption, all section layouts) with one or more faults: values of other '
        'types in any entry (every key in turn), removed and added entries, faulty operands and operators, faulty stream data, faulty section and object-stream '
        'dictionaries, faulty encryption entries, byte flips, cuts, splices; every object, stream, outline, destination, page, item and one conversion is used and the '
        'class of every exception that leaves the library is checked; non-trivial when a documented error was raised, counted by distinct file')
ASSUMPTIONS = ['documented errors are the subclasses of PDFMajorException', 'saving images (PIL) and asking an item without a box for its size are outside']
CASES = {'quick': 4500, 'thorough': 90000}
MIN = {'errors': 8000, 'item': 10000, 'getobj': 40000, 'convert': 1500, 'convert-err': 300, '#documented': 10, '#keys': 120, 'kind-file': 150, 'kind-crypt': 150, 'kind-data': 300}


def case(r, i, tier, obs):
    pdf, pw, kind = faulty.make(r, obs, turn=i)
    obs.artifact('pdf', pdf)
    before = obs.counts.get('errors', 0) - obs.counts.get('dest-err', 0) - obs.counts.get('outlines-err', 0)

    def bad(name, e):
        fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(harness.PKG)]
        raise Violation('%s (%s fault): %s left the library' % (name, kind, harness.short_tb(e) if fr else repr(e)[:200]))
    faulty.use(r, obs, pdf, pw, bad)
    if obs.counts.get('errors', 0) - obs.counts.get('dest-err', 0) - obs.counts.get('outlines-err', 0) > before:
        obs.nontrivial(pdf)
