"""Writes DESIGN.md from the registered checks and the text below"""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import core  # noqa

# oracle; bounds and what is left unspecified
ORACLE = {
 'V01': ('A reference parser of numerals written from the text of the property (exact for integers, the nearest double for decimals) and the closed range; the validator is called directly.', 'Texts up to 12 characters or built from numerals; unicode digits and Python long suffixes excluded (Python-2 spellings nobody documents).'),
 'V02': ('Explicit membership tests for each language, written without regular expressions where possible (character sets, word lists).', 'Generated regular expressions are anchored alternatives and repetitions small enough for an independent matcher.'),
 'V03': ('A hand-written recogniser of the grammar and the triple of its parts.', 'Only plain decimal periods; exponents are junk.'),
 'R01': ('What each field validator says alone (called directly on the text) determines the tuple, the error list, the printed form and every validity query. For families of types the declared constraints are interpreted in Python.', 'Whether constraints declared on a base type also bind its subclasses is not specified, and accepted either way.'),
 'R02': ('A Python list of texts, with the per-field verdicts as the condition for writes.', 'Deleting a column is not specified.'),
 'R03': ('Declarations are generated as specifications; the expected fields, positions, keys and refusals follow from the specification.', 'Python field names; namedtuple forbids a leading underscore under Jython.'),
 'R04': ('The rows whose fields are refused by their validators; a counting generator observes how much input each answer took.', 'At most 12 rows.'),
 'R05': ('A table of the domains of every column written from the format, with generators of texts inside and outside each domain.', 'nan and inf are generated only where their refusal is specified; the IMT column of continuous fragility sets and the coordinates of ground motion values are plain texts or numbers in the code, so only texts inside their domain are generated.'),
 'T01': ('A model table (list of rows and its keys) run in step with the real one: answers, contents and lookups of every key ever mentioned are compared after every operation.', 'Reversing in place may be refused. Replacing or deleting slices is not specified.'),
 'T02': ('A model database checking foreign keys by scanning; contents, order and lookups compared after every operation. Half of the histories circle around one key: parent, children, parent removed or replaced, children again.', 'Deleting a referenced record is allowed, as in the code (no cascade).'),
 'T03': ('A table of the keys and parents of every record type; a model set of tables is updated by scanning.', ''),
 'T04': ('The list of rows, asked the same questions in Python; the nodes against the node of each record.', 'Nodes only of valid records of the types that have them.'),
 'G01': ('A model of lists of (item, weight) pairs, operands re-read after every operation so that aliasing shows.', 'Deleting items is left out: the code leaves the weight as it is and does not say otherwise.'),
 'G02': ('The property itself checked on the output (nothing lost, order, homogeneous, greedy, lazy), not a reimplementation; weights are integers or dyadic fractions, so sums are exact.', 'At most 25 items.'),
 'G03': ('Differential: split_in_blocks against block_splitter at the rounded-up quotient, plus conservation.', ''),
 'G04': ('A structural comparison in Python over the generated descriptions of the values; the second value is the first with known changes.', 'Values of differing container kinds only where the statement decides; cyclic values excluded.'),
 'G05': ('Order-preserving de-duplication; exact rational ceiling (fractions); a word list; the file system.', 'Dividends and divisors that are integers or dyadic fractions.'),
 'C01': ('A model description in Python is both rendered to NRML and turned into expected tables and the expected model; round trips in both directions, with permuted tables.', 'Texts on file paths are ASCII or UTF-8 of a small alphabet; asset counts up to 6.'),
 'C02': ('As C01.', ''), 'C03': ('As C01.', 'Duplicate taxonomies and discrete/continuous mixtures excluded.'), 'C05': ('As C01.', ''),
 'C04': ('A consistent model is generated and one contradiction from a catalogue of 31 is put at a drawn place; one case in ten is left as it is and must be converted.', 'A function without any data, and rows of a fragility function in separate places, are not specified.'),
 'C06': ('The expected files of the archive are computed from the model; the way back is compared with the model. The command line program runs in-process with scratch paths.', 'An empty zip cannot be read back by Jython.'),
 'A01': ('A dictionary from names to texts, with pending writers, run in step with each kind of archive.', 'Simultaneous writers of the same file are not specified.'),
 'A02': ('The cells damaged by the generator and the validators of their fields tell the errors expected.', ''),
 'A04': ('The model from which the files were written, and the one file that was damaged.', 'Files in which a record is refused must give the same outcome again, whatever it was.'),
 'A03': ('The models the generator wrote, by prefix.', ''),
 'L01': ('Trees are generated as data structures (pbt/trees.py); their paths are enumerated by an independent recursion with exact rational weights.', 'At most 4 levels and 4 branches per branchset.'),
 'L02': ('A valid tree and one mistake from a catalogue of 30; the class, file and line are known from where the generator put it.', 'One mistake at a time.'),
 'L03': ('Paths valid in the tree; for the draws, a stand-in random source that hands out chosen numbers; frequencies within 7 standard deviations.', 'The outcome for a number exactly at the border between two intervals is either neighbour; weight-zero branches are left out at 0.0.'),
 'L04': ('Stand-in magnitude distributions record which modifications they get, in order; the filters are interpreted from the statement.', 'The arithmetic of the modifications belongs to hazardlib.'),
 'L05': ('As L01-L03 for GMPE trees restricted to the known types.', ''), 'L06': ('itertools.product over the kept branches of the description.', ''),
 'S01': ('The generated description of the model: which source goes where, extremes of magnitude after the uncertainties.', ''),
 'S02': ('Conservation laws on the output (rates, magnitudes, attributes, identifiers).', 'Relative tolerance 1e-9 for sums of rates.'),
 'S03': ('Conservation and the limit computed from the statement; the filter counts its calls.', ''),
 'S04': ('The description of the source, value by value, against the constructor arguments recorded by the hazardlib stand-in.', ''),
 'P01': ('The multiset (in process, the sequence) of aggregated results; a stand-in executor completes tasks in a generated order on pickled copies.', 'No real celery: schedules are completion orders of the stand-in. BaseException and the state of a manager after a failed aggregation are not specified.'),
 'P02': ('Value equality that tells types apart; counters of pickling.', 'Reuse of object identities cannot be provoked under Jython.'),
 'P03': ('The list of integer percentages, allowing for the rounding of the code by one step at borders.', ''),
 'P04': ('Scripted processes whose memory and access are known.', ''),
 'I01': ('The sections and parameters the generator wrote; os.path on the scratch directory.', 'Duplicate parameters in different sections, DEFAULT section and % interpolation excluded.'),
 'I02': ('The set of names of the generated tree.', ''),
 'K01': ('The generated vulnerability models.', ''), 'K02': ('The generated fragility models.', ''),
}
HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()


def main():
    reg = core.load_prop('*')
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    fixes = {}
    for l in open(os.path.join(HERE, 'known_findings.jsonl')):
        d = json.loads(l)
        fixes.setdefault(d['property'], []).append(d)
    bugs = {}
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        d['id'] = os.path.basename(os.path.dirname(m))
        bugs.setdefault(d['property'], []).append(d)
    out = [HEAD, '\n## Properties and how each is decided\n']
    for d in props:
        pid = d['id']
        r = reg[pid]
        oracle, bounds = ORACLE[pid]
        out.append('### %s %s\n' % (pid, d['title']))
        out.append('*Anchored in* %s.\n' % ', '.join(d['anchors']['files']))
        out.append('*Generated:* %s.\n' % ' '.join(r.rule.split()))
        out.append('*Oracle:* %s\n' % oracle)
        if bounds:
            out.append('*Bounds and what is left unspecified:* %s\n' % bounds)
        out.append('*Why tests do not settle it:* %s\n' % d['why_tests_cant'])
        out.append('*Checks* (quick / thorough cases):\n')
        for t in r.targets:
            out.append('- `%s` (%d / %d): %s' % (
                t.name, t.quick, t.thorough, ' '.join(t.doc.split())))
        out.append('')
        if pid in fixes:
            out.append('*Defects found and repaired:*\n')
            for f in fixes[pid]:
                out.append('- %s' % f['entry'])
            out.append('')
        if pid in bugs:
            out.append('*Planted bugs:*\n')
            for b in bugs[pid]:
                out.append('- `%s` (%s): needs %s' % (
                    b['id'], caught.get(b['id'], 'not tried'), b['needs']))
            out.append('')
    out.append(TAIL)
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))
    missing = [d['id'] for d in props if d['id'] not in ORACLE]
    print('DESIGN.md written', missing)


main()
