"""Writes known_findings.jsonl from the list below and the 'fix:' commits in /repo (run by hand after a fix commit)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROP = [  # (substring of the commit subject, property)
 ('treat only root-level files as special', 'C01'), ('honor paths reserved', 'C02'), ('support any iterator', 'C01'),
 ('naming iterator provides no names', 'C01'), ("do not write over a source head bag's", 'C05'), ('support extra info fields', 'C09'),
 ('load the existing deleted paths', 'C10'), ('ignore spaces next to the tab', 'C09'), ('remove the deleted.txt file', 'C10'),
 ('accept exclude as a single string', 'C08'), ('use the last Multibag-Tag-Directory', 'C09'), ("confine a bag's path-based", 'C11'),
 ('detect as unsafe listed paths', 'C11'), ('report a failure to copy', 'C03'), ('compare Versions built', 'C12'),
 ('report BagErrors as validation', 'C14'), ('accept absolute URLs as the URL', 'C14'), ('choke on a bag lacking', 'C14'),
 ('only warn about a Multibag-Version', 'C14'), ("ValidationIssue's tuple and JSON", 'C13'), ("do not update the amendee's", 'C05'),
 ('keep files deleted from an aggregation', 'C08'), ('set the right member name when converting', 'C08'),
 ('let replicate() be repeated', 'C03'), ("merge member bags' manifests", 'C06'), ("merge member bags' fetch", 'C06'),
 ('non-default multibag tag directory', 'C06'), ('remove deleted files that come from the head', 'C06'),
 ('retain checksums of files listed for fetching', 'C06'), ('never remove the restored bag itself', 'C06'),
 ('raise RuntimeError when applying an empty', 'C03'), ('spaces in the file paths listed in a fetch', 'C06'),
 ('no bag-info.txt file', 'C03'), ("get a bag's name right", 'C08'), ('write the file-lookup.tsv file even', 'C08'),
 ('outside of a read-only bag as not existing', 'C14'), ('outside of a ReadOnlyBag as not existing', 'C14'),
 ('fall back on the default tag directory', 'C14'), ('choke on URLs that cannot be parsed', 'C14'),
 ('a comment but no URL', 'C14')]
out = [{'property': 'C14', 'status': 'known', 'id': 'C14-1', 'match': 'rules reported by validate()',
        'what': "MemberBagValidator.validate(), called without a results object, drops the failures found by validate_bagname() and "
                "validate_as_nonhead() (it hands them `results`, which is None, instead of the object it returns); a repository test fixes "
                "the resulting number of tests applied, so it cannot be repaired without editing that test",
        'case': {'kind': 'member', 'name': 'bag ', 'ver': '0.4', 'info': [['Multibag-Version', '0.4'], ['Multibag-Tag-Directory', 'x']],
                 'td': ['x'], 'files': ['data/a'], 'mem': None, 'lu': None, 'agg': None, 'want': 7, 'mktd': False, 'zip': False,
                 'known': True}}]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = [q for k, q in PROP if k in s]
        if len(p) != 1:
            print('NO PROPERTY FOR', l, p)
            continue
        out.append({'property': p[0], 'status': 'fixed', 'entry': 'fixed: property=%s %s %s' % (p[0], h, s[5:])})
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as fd:
    for r in out:
        fd.write(json.dumps(r) + '\n')
print(len(out))
