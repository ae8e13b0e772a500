#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose below, each check's rule as registered in the checker, the planted bugs and
the result of the last full run of tools/runseed.sh -a (tools/seedresults.txt)."""
import json, os, re, subprocess
R = '/verif'
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
rules = json.loads(subprocess.run([R + '/bin/checker', 'rules'], capture_output=True, text=True).stdout)
na = {x['property']: x['reason'] for x in json.load(open(R + '/MANIFEST.json'))['not_applicable']}

# why a test cannot settle it, and within what bounds the analysis decides it
WHY = {
'C01': ('acceptance is a statement over all certificates and all states of the validator; tests add a handful of certificates in one order', 'all paths of AddCert and of every exit that reports an embedded certificate valid; loops by fixpoint, no bound on the number of objects'),
'C02': ('the bounds of a window are single instants, and a clock read anywhere below the entry points makes a result irreproducible', 'all functions reachable from the entry points; comparisons of time.Time by their documented meaning'),
'C03': ('containment ranges over all resource lists and all lengths of an inheritance chain', 'the chain by induction over the loop (fixpoint); addresses and AS numbers as order facts, so boundaries are exact'),
'C04': ('the flag is a boolean that any of the functions which make files could set', 'all writes of the flag and of the table of TALs in the module, all paths of AddResource'),
'C05': ('a signature check that is skipped on one path accepts every forged object and no valid one shows it', 'all success exits; the primitives are trusted'),
'C06': ('there are as many payloads as objects; a wrong pairing of two fields shows only for particular lists', 'all paths of the ROA and list code, elements as symbolic members of their lists'),
'C07': ('names are arbitrary bytes', 'all functions that make or change files in the module'),
'C08': ('it combines four switches with the state of the disk', 'all rounds of Explore, as a loop invariant'),
'C09': ('it is about the order of two histories: objects accepted before and after the list', 'all exits of AddCRL and writes of the table; the loops over serials and children are analysed as complete iterations'),
'C10': ('trees of any depth and width', 'one arbitrary round of the work list, plus the invariants of the tables it relies on'),
'C11': ('names from the network are adversarial', 'every call of the file system and of os/exec in the module, arguments followed back to their origins'),
'C12': ('URIs are adversarial', 'all callbacks handed to the RRDP client, all writes of the binding table'),
'C13': ('it speaks of every failure point of a sequence of downloads', 'all paths through the fetch, its loop over deltas as an arbitrary round'),
'C14': ('the attacker chooses documents', 'as C13'),
'C15': ('a request that hangs is not seen in tests', 'all HTTP clients, requests and processes of the module'),
'C16': ('every outcome of the worker for every repository', 'all paths of a worker for one arbitrary job, and of the round'),
'C17': ('schedules', 'structure of the worker pool (typestate of queue, wait group, workers), independent of the schedule'),
'C18': ('schedules; the race detector sees only those which happen', 'lock sets over the call graph from every goroutine root and handler; identified by type and field'),
'C19': ('all combinations of two flags and an option at the time of a request', 'all paths of every registered handler'),
'C20': ('needs the values at two points of each path', 'all paths of the list generation; all writes through aliases of a list'),
'C21': ('all lists', 'the filter loops as one arbitrary round with a set as ghost state'),
'C22': ('termination for every repository', 'every loop and recursion reachable from a validation has a ranking argument of a fixed form'),
'C23': ('all byte strings', 'every crash obligation in 300 and more functions, under inferred non-nil statements (greatest fixpoint)'),
'C24': ('every combination of missing files', 'all callers of a store'),
'C25': ('all routes and tables', 'one arbitrary round of build and search, outcome as a symbolic value'),
'C26': ('all mappings and file types', 'all paths of the store'),
'C27': ('one run has one configuration', 'definition, reads and effect of each option, on all paths'),
'C28': ('needs two instances and an interleaving', 'points-to from package variables over the library packages'),
'C29': ('every failure of every call', 'each of about 180 call sites, all paths after it (states of the error up to 200,000 steps, more is a failure)'),
'C30': ('histories of rounds', 'one arbitrary round with the flags before it as unknowns'),
'C31': ('all objects', 'one arbitrary entry of each table and one arbitrary element of each list'),
}

def wrap(s, ind=''):
    import textwrap
    return textwrap.fill(s, 118, initial_indent=ind, subsequent_indent=ind, break_long_words=False, break_on_hyphens=False)

out = []
p = out.append
p(open(R + '/tools/design_head.md').read().rstrip())
p('')
p('## 3. The properties, one by one')
p('')
p('*Rule* is what the check enforces, as registered in the checker (the same text is in its evidence); *not judged* is what it leaves to others or takes as given.')
p('')
for d in props:
    i = d['id']
    if i in na: continue
    r = rules[i]
    p('### %s %s' % (i, d['title']))
    p('')
    p(wrap('*Statement.* ' + d['statement'])); p('')
    p(wrap('*Technique.* ' + r['technique'] + '.')); p('')
    p(wrap('*Rule.* ' + r['rule'])); p('')
    if r['note']: p(wrap('*Not judged, or taken as given.* ' + r['note'])); p('')
    w = WHY[i]
    p(wrap('*Why not by tests:* %s. *Bounds:* %s.' % w)); p('')
p('## 4. Not applicable')
p('')
for d in props:
    if d['id'] in na:
        p(wrap('* **%s %s**: %s.' % (d['id'], d['title'], na[d['id']])))
p('')
p('## 5. Planted bugs')
p('')
p('Each was written from the statement of the property, with a demonstration that fails with the change only. '
  '"own" is the check of the property it breaks; "also" lists the other checks that report it.')
p('')
res = {}
f = R + '/tools/seedresults.txt'
if os.path.exists(f):
    for l in open(f):
        m = re.match(r'(C\d\d-\S+): (.*)', l)
        if m: res[m[1]] = [x.split('=')[0] for x in m[2].split() if x.endswith('=1')]
p('| bug | needs | own | also |')
p('|---|---|---|---|')
for n in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, n)))
    c = res.get(n)
    own = '?' if c is None else 'caught' if m['property'] in c else '**missed**'
    p('| %s | %s | %s | %s |' % (n, m['needs'].replace('|', '/'), own, ' '.join(x for x in (c or []) if x != m['property'])))
p('')
p(open(R + '/tools/design_tail.md').read().rstrip())
p('')
p('## 8. Defects repaired in the repository')
p('')
for l in open(R + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: p('* %s `%s` %s' % (m[1], m[2], m[3]))
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
