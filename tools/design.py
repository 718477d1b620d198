#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (everything after its marker line)
from the property texts, the harness comments, meta.json, known_findings.json
and the notes below."""
import json, os, re, glob
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
MARK = '<!-- generated by tools/design.py from here on -->\n'
N = {
'C01': ('a map per layer written in the harness', ['The first version of the per-step oracle treated a set that repeats the visible value as a write; the code may skip it. The check now allows both where no reader can tell.']),
'C02': ('the pairs that were set, compared with the pairs a fresh environment has after loading', ['Keys and values over raw bytes. The two findings are limits of the line format (KF-C02-1, KF-C02-2).']),
'C03': ('the list of runtime keys, collected from the program itself by running its start-up', ['KF-C03-1 is a prefix match that also takes user keys away.']),
'C04': ('old content or new content, whole', ['Every file-system mutation is a decision variable of the executor (vnd.Crash), and every write may stop half way; the native replay stops at the same call through an overlay of package os.']),
'C05': ('a splitter written from the documentation', []),
'C06': ('no runtime error, no endless loop (step limit), an error recorded on the command it belongs to', []),
'C07': ('the pairs and values the text was made from', []),
'C08': ('longest-match walk over the declared tree with abbreviations', []),
'C09': ('the declared abbreviations', []),
'C10': ('the flow that was typed, compared after save and reload', ['KF-C10-1: the saved form of a bracket in a value.']),
'C11': ('the entries that were written', ['KF-C11-1..3: the text format has no escape for these lines. Comment or blank lines before the first mark of a combined file are no flow, and are outside.']),
'C12': ('order of the commands as the marks define it', ['GlobalCmdIdx when two marked commands are moved is not part of the property.']),
'C13': ('an interpreter of nested flows in the harness', ['Recursion is reported at depth 100.']),
'C14': ('a layered environment in the harness', ['A setting that repeats the visible value is not kept apart from what it repeats, and {k=--} deletes from all layers: both by design, so the oracle says so. KF-C14-1 is recorded.']),
'C15': ('a walk over the declared reads and writes', []),
'C16': ('the call graph', ['A recursive graph is reported at depth 100. Programs named no-such-* are missing in the executor, as they are natively.']),
'C17': ('substitution done on the text by the harness', ['Values are put in verbatim; the items of a list value are template text; an empty argument counts as missing; macros of nothing are left open.']),
'C18': ('what the harness saw run, cut at the same place', ['Keys with the reserved prefixes are not recorded by design. A flow that succeeded over a tolerated error is shown as ERR, which is accepted.']),
'C19': ('the list that was saved', ['Separators and line breaks in help texts become blanks; addresses that are prefixes of each other are outside.']),
'C20': ('the tasks the harness started', ['Goroutine schedules are decisions of the executor: every switch at a blocking operation, and a bounded number of switches at any lock, channel operation or goroutine start. Native replays of a schedule put random delays around the synchronisation of the code under test (an overlay) and are repeated; the time for this is limited.']),
'C21': ('replacement done on a list', ['Only flow.replace and flow.replace.all can be reached from a command line. Whether the first of two that match wins or both apply is open.']),
'C22': ('the value does not occur in what is shown', ['Narrowed after a false alarm: boolean words are shown by design, files keep the values, and the command line is shown as typed.']),
'C23': ('the table of all combinations', ['An empty list value counts as not given; downward ranges may be refused.']),
'C24': ('the argument list taken apart by the harness', ['Lists that name one argument by two names and ** are outside; whether an abbreviation that precedes a later listed name wins is open.']),
'C25': ('which outcomes are errors, and which are tolerated', ['A first reading, that quiet-error lets the run go on, was wrong (the documentation says the error is not shown); the check was corrected.']),
'C26': ('the files under the hub directory', ['git is replaced by a stand-in given to the executor; natively a script of that name.']),
'C27': ('the set of flow files', ['The first version exited 2 because it asked every harness for every witness; witnesses are now shared. Saving under the name of a directory of commands may be refused or done.']),
'C28': ('the pairs that were visible when saving', ['A value equal to the visible one is not stored twice.']),
'C29': ('the ends of the commands', ['Runs the whole program; os.Exit ends the path and is observed (vnd.OnExit). Single builtin commands run without a session and without hooks, by design.']),
'C30': ('no runtime error, no text of one on the screen', ['Commands that sleep, start shells or talk to the terminal are left out.']),
'C31': ('files, stand-ins for programs, and the commands themselves: nothing may have run; descriptions are compared with a run', ['A first version compared values written by commands with what the description shows: the description uses stand-in values by design, so this was a false alarm and was removed. cmds.tree is no looking command.']),
'C32': ('the sessions the harness made', ['Processes are stand-ins in the executor (kill with signal 0), and real processes of the check natively.']),
'C34': ('the record of the run, read from its file, and the run itself', ['Which records are right is C18. A marked (^) flow is folded by design, and a directory without a command is not shown.']),
'C35': ('an own model of the frames, from the line, the flows and the settings', ['What runs and in which order is C01 and C13; the record of it is C34.']),
'C33': ('an interpreter of break points and choices', ['The interactive mode (i) is outside.']),
}
def harnesses(d):
    out = []
    for f in sorted(glob.glob(os.path.join(d, '*.go'))):
        s = open(f).read()
        for m in re.finditer(r'((?:^//[^\n]*\n)*)^func (H[A-Z]\w*)\(\)', s, re.M):
            text = ' '.join(l[2:].strip() for l in m.group(1).splitlines())
            text = re.sub(r'^%s:? ?' % m.group(2), '', text)
            out.append('`%s`%s' % (m.group(2), ' ' + text if text else ''))
    return out
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    kf = known['findings']
    seeds = {}
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        x = json.load(open(m)); seeds.setdefault(x['property'], []).append(os.path.basename(os.path.dirname(m)))
    o = []
    for p in props:
        id = p['id']; d = os.path.join(ROOT, 'harness', id.lower())
        meta = json.load(open(os.path.join(d, 'meta.json')))
        o.append('### %s %s\n' % (id, p['title']))
        oracle, notes = N.get(id, ('', []))
        hs = harnesses(d)
        o.append('Decided by symbolic execution of: %s.\n' % ', '.join('%s (%s)' % (m['name'], m['where']) for m in p['anchors']['mechanism']))
        if oracle: o.append('Oracle: %s.\n' % oracle)
        o.append('Harnesses:\n' + '\n'.join('- ' + h for h in hs) + '\n')
        o.append('Bounds: %s.\n' % meta['bounds'].rstrip('.'))
        o.append('Outside: %s.\n' % meta['outside'].rstrip('.'))
        a = [x for x in meta.get('assumptions', []) if x]
        if a: o.append('Assumptions: %s.\n' % '; '.join(x.rstrip('.') for x in a))
        o.append('Why tests cannot settle it: %s\n' % p['why_tests_cant'])
        for n in notes: o.append(n + '\n')
        list_ = ['- known finding %s: %s' % (k['id'], k['what']) for k in kf if k['property'] == id]
        for x in known['fixed']:
            m = re.match(r'fixed: property=(\w+) (\w+) (.*)', x, re.S)
            if m.group(1) == id: list_.append('- fixed in %s: %s' % (m.group(2), m.group(3)))
        if list_: o.append('Defects found:\n' + '\n'.join(list_) + '\n')
        if id in seeds: o.append('Planted bugs kept under seeded/ and caught by this check: %s.\n' % ', '.join(seeds[id]))
    f = os.path.join(ROOT, 'DESIGN.md')
    s = open(f).read().split(MARK)[0]
    open(f, 'w').write(s + MARK + '\n' + '\n'.join(o))
if __name__ == '__main__': main()
