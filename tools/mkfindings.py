"""Writes known_findings.jsonl: the repaired defects, from the table below
(subject of the fix commit in /repo -> property, what failed)"""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('V02', 'an identifier followed by a newline is not a valid name', "valid.name('a\\n') was accepted"),
 ('V01', 'reject NaN in the numeric range validators', "longitude('nan'), probability('nan') and positivefloat('nan') were accepted"),
 ('V01', "positivefloat('-inf') raises ValueError", "positivefloat('-inf') raised OverflowError while writing the message"),
 ('V03', 'IMTstr rejects text after a valid', "IMTstr('PGAxyz') and IMTstr('SA(1)x') were accepted"),
 ('R02', 'records and tables of different lengths', 'comparing a record with a sequence of another length raised AssertionError'),
 ('T01', 'a refused insertion leaves no trace', 'a record refused because of its second unique constraint stayed registered under the first'),
 ('T01', 'replacing a record of a table checks', 'table[i] = rec accepted a duplicated key'),
 ('T02', 'an empty slice of a TableSet', 'an empty slice of a TableSet had all the tables'),
 ('R03', 'the error for repeated names in a Unique', "Unique('a', 'a') raised TypeError while writing the message"),
 ('G01', 'weighted sequences of different lengths', 'WeightedSequence == and != were wrong: a prefix was equal to the longer sequence, != was identity'),
 ('G02', 'block_splitter ignores the kind', 'an item of zero weight and another kind ended the block'),
 ('G03', 'split_in_blocks of items without weight', 'split_in_blocks([], n) raised ValueError'),
 ('G04', 'deep_eq finds missing keys', 'dictionaries with different keys and missing excluded attributes raised KeyError; exclude was not honored in depth'),
 ('G04', 'deep_eq of values of different kinds', 'deep_eq([1], 1) raised TypeError'),
 ('G04', 'deep_eq finds the keys missing on either', 'a key missing on one side and excluded on the other was not reported'),
 ('G04', 'deep_eq can report the difference of non-ASCII', 'deep_eq of non-ASCII texts raised UnicodeEncodeError'),
 ('C01', 'the optional conversions of an exposure', 'deductible without insuranceLimit (or the reverse) was lost or mixed up'),
 ('C01', 'the occupancies of all the assets', 'only the periods of the occupancies of the first asset were converted'),
 ('C05', 'the investigation time of a scenario', 'the GmfSet record of a scenario was invalid'),
 ('C05', 'the Gmf records of a scenario', 'the Gmf records of a scenario had a ses id which is not the one of their GmfSet'),
 ('C01', 'the area of an exposure which is not', 'the area conversion of a population exposure was lost'),
 ('A01', 'a file missing from a directory or zip', 'a missing file raised IOError or KeyError, not NotInArchive; groups with optional files could not be converted (C06)'),
 ('A01', 'reading twice a file of a MemArchive', 'the second reading of a file of a MemArchive was empty'),
 ('C06', 'NRMLconvert accepts a .zip', "NRMLconvert of a .zip archive failed because 'r+' is not a mode of zipfile"),
 ('A03', 'the csv files written with a prefix containing __', 'files written with a prefix such as a__b could not be read back'),
 ('A03', 'csv files which are not named after', 'a file x__y.csv whose y is not a record type raised AttributeError'),
 ('A03', 'all the groups of files in an archive', 'with several groups of files convert_to_nrml raised MultipleManagerError'),
]
EXTRA = os.path.join(HERE, 'tools', 'findings_extra.json')
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True)
log = [l.split(' ', 1) for l in log.splitlines()]
fixes = [(h, s) for h, s in log if s.startswith('fix:')]
used = set()
out = []
for prop, subj, what in FIXED + (json.load(open(EXTRA)) if os.path.exists(EXTRA) else []):
    [h] = [h for h, s in fixes if s[5:].startswith(subj)]
    used.add(h)
    out.append({'status': 'fixed', 'property': prop, 'commit': h, 'entry': 'fixed: property=%s %s %s' % (prop, h, what)})
KNOWN = os.path.join(HERE, 'tools', 'findings_known.json')
if os.path.exists(KNOWN):
    out += json.load(open(KNOWN))
left = [f for f in fixes if f[0] not in used]
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as f:
    for d in out:
        f.write(json.dumps(d) + '\n')
print(len(out), 'entries; commits without entry:', left)
