"""Writes MANIFEST.json: one entry per check the harness has (see `run.sh list`)."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = set(subprocess.run(['/verif/run.sh', 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout.split())
BASE = ("Random search, no proof: thousands of generated programs per run (quick) or hundreds of thousands (thorough; C20 some hundreds and thousands), judged "
        "by an independent model of what the tool must report. ")
GEN = ("Trusts that the generated artifacts (ELF, archive, LLVM IR) have the form the pinned toolchain writes; real "
       "artifacts are covered by C20.")
NOTE = {
 'C06': GEN + " The Thumb encodings come from an encoder of our own, checked against llvm-mc when it was written.",
 'C07': GEN + " The Thumb encodings come from an encoder of our own, checked against llvm-mc when it was written.",
 'C15': "The real compiler and cargo are stand-ins that record what they are given.",
 'C16': "Cargo and rustc are stand-ins that record what they are given and leave generated artifacts behind.",
 'C17': "Cargo and rustc are stand-ins that leave generated artifacts behind.",
 'C23': "Cargo and rustc are stand-ins; what the real ones write is not looked at.",
 'C18': "rustc is a stand-in that reports a generated version.",
 'C20': "Programs are generated and built with the installed toolchain; the oracles are a disassembler (llvm-objdump), llvm-readelf and an interpreter for Thumb code of our own.",
}
TECH = {
 'C12': 'property-based testing: metamorphic relation (two renderings of one generated program, repeated runs)',
 'C09': 'property-based testing: metamorphic relation (filtered output against the induced subgraph of the unfiltered one)',
 'C11': 'property-based testing: differential relation between the output formats',
 'C13': 'property-based testing: mutation fuzzing of generated IR against the tool\'s failure contract',
 'C19': 'property-based testing: metamorphic relation (two memory layouts of one generated program)',
 'C20': 'property-based testing: generated Rust programs, differential against a disassembly of the executable and an execution of it',
 'C15': 'property-based testing: generated argument lists against a reference model of the wrapper',
 'C23': 'property-based testing: generated projects and outcomes, invariant over snapshots of the files before and after',
 'C17': 'property-based testing: generated histories of builds (stateful) against a model of the newest artifacts',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append({'property': i, 'reason': 'the check is still being built'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './run.sh check ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh check ' + i,
        'technique': TECH.get(i, 'property-based testing: generated programs against a reference model, with shrinking'),
        'level': 'exploration',
        'level_note': BASE + NOTE.get(i, GEN),
    })
json.dump({
    'version': 1,
    'setup_cmd': './run.sh setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: the tool is tested as a black box. run.sh rebuilds the harness and the tool from the working tree (VERIF_REPO, default /repo). `./run.sh replay FILE` repeats a violation.',
}, open('/verif/MANIFEST.json', 'w'), indent=1)
