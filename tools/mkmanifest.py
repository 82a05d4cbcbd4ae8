#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
X, F, M = 'exploration', 'fault_enumeration', 'model_checking'
C = {
'C01': (X, 'exhaustive enumeration of near-miss passwords and single-fault key material on the real code', 'Every enumerated attempt is executed by the real facade, services and file repositories on vaults written by an independent encoder. Trusts Go crypto; bounded to the listed password neighbourhoods and corruptions.'),
'C02': (X, 'exhaustive enumeration of single-bit, truncation and block faults of sealed item data on the real code', 'Every bit of every sealed part of the sample items is flipped once and decoded by the real code. Trusts HMAC for multi-bit changes.'),
'C03': (X, 'bounded-exhaustive enumeration of item documents, compared with a reference decoder', 'All combinations of the listed building blocks are decoded by the real code and compared with an independent reference; bounded number of fields and sections.'),
'C04': (X, 'bounded-exhaustive enumeration of vault directories', 'All band spreads of three items, all sets of occupied and empty bands, bystander files and path names over an alphabet, opened by the real code.'),
'C05': (X, 'bounded-exhaustive enumeration of vaults and queries against a reference', 'All vaults of up to three items out of the kinds listed and all queries, on the real code; the list command as a process.'),
'C06': (M, 'explicit exploration of all operation histories up to a depth, real code in lockstep with a model', 'Every history up to the bound is executed on the real facade and compared with the model after every operation.'),
'C07': (M, 'exhaustive enumeration of commands, outcomes and key sequences with all file-system mutations recorded', 'Every mutation of the file system made through the Go os package is recorded and compared with the allowed set, and the trees are compared before and after. Writes bypassing package os are caught by the tree comparison only.'),
'C08': (X, 'enumeration of item shapes x commands x passwords, attributed by unique texts', 'Every run is a process with a terminal; every text of every item is unique, so each byte of output is attributed.'),
'C09': (X, 'bounded-exhaustive enumeration of settings, path texts and save histories', 'All settings and all path texts of up to three hostile symbols go through the real repository and a restart.'),
'C10': (F, 'exhaustive fault and kill-point enumeration at every file-system operation of a save', 'Every mutation of every save is hit by every fault kind, in single and double fault histories, and the result is read by a fresh process. Power loss is not modelled.'),
'C11': (X, 'exhaustive enumeration of answer combinations of the dialogue against a reference', 'The product of answer classes over all questions and previous configurations, executed by processes of the real application.'),
'C12': (X, 'bounded-exhaustive enumeration of release answers against a reference comparison', 'All version tuples over a number set, release lists and asset orders, served to processes of the real application.'),
'C13': (M, 'explicit-state search over configuration directory and clock, every transition executed by the real application', 'Breadth-first search with deduplication; every transition runs the real binary under a frozen clock against a controlled server.'),
'C14': (F, 'exhaustive fault, kill-point and corruption enumeration of an update', 'Every file-system mutation x fault kind, double faults, every single-byte corruption class of archive and checksum, server faults, answers, leftovers. Assumes atomic rename.'),
'C15': (X, 'bounded-exhaustive enumeration of archives', 'All entry names over an alphabet, entry types and pairs, unpacked by an unprivileged process whose writes outside its root are refused and recorded.'),
'C16': (F, 'exhaustive enumeration of release documents one mutation away and of transport faults', 'Every JSON node of the release document replaced by every type, every truncation, every transport fault, for every command.'),
'C17': (M, 'explicit-state search of the interactive session, real code in lockstep with a reference model of the view', 'The real main() runs on a virtual terminal; every reachable widget state within the depth is visited and its screen compared with the model. The terminal library is replaced.'),
'C18': (M, 'explicit-state search of the interactive session with right and wrong passwords and every batching', 'As C17; every screen while locked is searched for every text of the vault.'),
'C19': (M, 'explicit-state search of the interactive session over items of every shape', 'As C17; details pane compared line by line and column by column with the reference in every state.'),
'C20': (M, 'explicit-state search of the interactive session over all keys, batches, resizes and vault classes', 'As C17; every visited state is checked to be alive, responsive and to end on the quit key.'),
'C21': (M, 'enumeration of all interleavings of the update result with the key sequence, and race-detector runs', 'The completion of the check is released by the scheduler at every step; the same schedules run under the race detector.'),
'C23': (M, 'exhaustive enumeration of the interleavings of two real processes at file-system operations, up to a preemption bound, with kill points', 'Two processes of the real application run under a controlled scheduler; every schedule within the bound is executed once (stateless search) and the configuration and the binary are checked after every operation. File-system operations are taken as atomic.'),
'C24': (X, 'bounded-exhaustive enumeration of command lines against a reference parser', 'Every command line of the space is run as a process of the real application and its effect compared with a reference of the option rules and of what the command shows; help texts are not compared.'),
'C25': (X, 'exhaustive enumeration of ways to end a run x terminal attributes x commands, and of key sequences of the interactive mode with the real terminal library', 'Every run happens on a pseudo terminal that outlives it; attributes compared bit by bit. Interrupts are placed at observable points (prompt, partly typed, opening), not at every instruction.'),
'C26': (X, 'exhaustive enumeration of the runtime\'s map iteration orders, of storage orders and of environments, each run compared with the plain run', 'All orders of maps of up to five entries; of larger maps only orders the runtime itself can produce for 16 hash seeds. Environments are a list.'),
'C22': (X, 'enumeration of file-system objects x defaults x commands', 'All kinds of objects at each step of the path, for the facade, every command and the interactive mode.'),
}
have = set()
for f in os.listdir(V + '/mc'):
    if f.endswith('.go'):
        t = open(V + '/mc/' + f).read()
        for k in C:
            if 'checks["%s"]' % k in t: have.add(k)
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none: /repo has no hooks', enable='tools/mkoverlay.py generates build overlays (go build -overlay) for the Go packages os, net and time, the terminal library termbox and gocui, and adds a driver file to package main; /repo itself is compiled as it is', source_commits=[]),
  checks=[dict(property=k, quick_cmd='bash check.sh ' + k, thorough_cmd='VERIF_TIER=thorough bash check.sh ' + k, evidence_file='evidence/%s.json' % k, technique='model checking: ' + C[k][1], level=C[k][0], level_note=C[k][2]) for k in sorted(C) if k in have],
  not_applicable=[dict(property=k, reason='check under construction') for k in sorted(C) if k not in have],
  notes='Checks build from /repo into a scratch directory and remove it. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
