#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the checks that exist.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {
 'C01': ('stateful property-based testing: generated request graphs and schedules against an execution model', 'Graphs of up to about 20 targets, several phases and concurrent requesters per case; schedules are those the Go scheduler produces, not enumerated.'),
 'C02': ('property-based testing with rendezvous targets: generated trees against an ordering, concurrency and error model', 'Serialised starts are detected as deadlocks of a rendezvous, not by timing.'),
 'C03': ('model-based stateful testing of runs, edits and injected database faults', 'The model of what is recorded is computed from the file system by independent code.'),
 'C04': ('metamorphic property-based testing: generated rules and trees with one relevant or irrelevant mutation at a time', 'Relevance is decided by construction of the mutation.'),
 'C05': ('differential stateful testing: incremental builds over edit histories against a reference evaluator', 'Rules are deterministic functions of their inputs.'),
 'C06': ('metamorphic property-based testing: dry run then real run against real run only, with snapshots', 'Snapshots include content, mode and modification time.'),
 'C07': ('model-based stateful testing with a mock clock', 'Expiry is judged with the one-second resolution of the stored time.'),
 'C08': ('generated concurrent and killed workloads with acknowledged operations checked against a set model', 'Interleavings are sampled; kills strike at generated moments.'),
 'C09': ('differential property-based testing with a reporting helper program', 'The helper reports what it was given; destinations are compared with a reference.'),
 'C10': ('grammar-based generation of YAML commands against a reference interpretation', 'Reference interpretation written from the documentation.'),
 'C11': ('differential property-based testing: the same generated tree built in YAML and in Go', 'YAML text is rendered by independent code in several styles.'),
 'C12': ('property-based testing of generated sets of mutually referring YAML files against a resolution model', 'Execution is observed through files appended to by commands.'),
 'C13': ('fuzzing: random, mutated and grammar-generated YAML', 'Not coverage guided; crashes, hangs and side effects are the oracle, plus consistency of the registry.'),
 'C14': ('model-based property-based testing of chunked writes', 'The model sees the whole stream at once.'),
 'C15': ('property-based testing against reference path and glob functions', 'Reference functions are written independently.'),
 'C16': ('model-based stateful testing of the registry and of command-line arguments', 'Model of names, documentation strings and arguments.'),
 'C17': ('property-based testing of generated directory trees against a reference search', 'Assumes that no ancestor of the scratch directory is itself a project.'),
 'C18': ('property-based testing of generated file trees against a model of removal', 'Files other than those of the scratch directory are protected by Landlock.'),
 'C19': ('property-based testing of generated Go modules against a reference computed by construction', 'The reference knows which files each package uses because it generated them.'),
 'C20': ('stateful property-based testing of generated Go programs, edits and builds', 'Build invocations are counted by a wrapper around the go command.'),
 'C21': ('differential property-based testing: generated proto trees against a reference and real protoc', 'A stand-in protoc records how it is called.'),
 'C22': ('differential stateful testing against direct use of the generator library', 'Trusts the tsdecls library.'),
 'C23': ('grammar-based generation of _fab packages against a reference list of targets', 'Each case compiles a driver, so cases are few but large.'),
 'C24': ('stateful property-based testing of edit, run, damage and upgrade histories', 'Each compilation takes seconds, so histories are few.'),
 'C25': ('differential property-based testing: fab with a driver against fab without one', 'The driver is compiled once per run of the check.'),
 'C26': ('fault injection at generated points of generated builds, compared with an uninterrupted build', 'Kills are of whole processes, not of the machine.'),
 'C27': ('model-based property-based testing of generated trees with settings changed at any node', 'A target reached from several scopes may see any of them.'),
 'C28': ('metamorphic property-based testing: the same history quiet and verbose, with snapshots', 'Messages themselves are not judged.'),
 'C30': ('property-based testing of generated trees of commands against a model of what is reported', 'Judges what is contained in messages, not their wording.'),
 'C31': ('model-based property-based testing of the verbose output of generated trees and histories', 'Messages are recognized by a few words and by names.'),
 'C32': ('differential property-based testing: histories of two projects with one fab directory and with one each', 'Two projects; drivers with the same package path are not run at the same time.'),
 'C29': ('generated concurrent histories under the race detector, with a linearizability search against a sequential model', 'Interleavings are those the scheduler produces; the race detector reports races on the paths executed.'),
}
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'harness/props', i.lower() + '.go')):
        t, n = notes[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i,
                       'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks use only the public API, the command and files. bin/check ID [-sub NAME] [-scale X] [-v] [-replay FILE].'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
