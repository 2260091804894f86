#!/usr/bin/env python3
"""Writes known-findings.txt: the fixed entries from /repo's fix: commits, after the known ones kept here."""
import subprocess, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
('every spelling of a YAML boolean','C01','True, TRUE and the like came out as false'),
('every YAML integer notation','C01','0o17, 0x1F and 1_000 were errors or other values'),
('exact value of floats','C01','floats lost digits on output (%f)'),
('missing operator arguments','C17','operators called without their arguments panicked'),
('compare collections by value','C03','== on lists and maps compared pointers or failed; lists.contains with it'),
('order large integers exactly','C03','integers beyond 2^53 compared equal through float64'),
('malformed lambdas and surplus','C17','malformed lambdas and surplus arguments panicked'),
('optional references','C02','*name? gave null for names that exist'),
('functions and types out','C17','rendering a function or type crashed'),
('output that cannot be written','C13','values YAML cannot hold gave empty output and no error'),
('map keys the strings','C13','string keys like "1" or "true" came out as other types'),
('line comments back','C24','line comments moved to another entry'),
('separate the source position','C20','the source position was glued to the line comment'),
('reproducible key order','C16','data files came out in random key order'),
('integers from JSON data','C18','integers of JSON data became floats'),
('every document of a YAML file','C18','only the first document of an included YAML data file was used'),
('fractional bounds','C10','fractional minimum/maximum were truncated for integers'),
('properties a schema lists as required','C10','required properties were not required'),
('int-or-string integers','C10','int-or-string validation changed the value into a string'),
('schemas that cannot be resolved','C17','unresolvable $ref crashed'),
('multipleOf and string lengths','C10','multipleOf on floats and lengths in characters were wrong'),
('out of range integers','C17','integers beyond 64 bits crashed'),
('default values a schema declares','C11','defaults came out with wrong types or not at all'),
('cast a copy','C23','casting changed the named value'),
('merge,retainKeys','C07','lists with strategy merge,retainKeys were replaced'),
('merge key is not a string','C07','list items whose merge key is not a string were not matched'),
('maps.merge and k8s.patch alone','C23','maps.merge and k8s.patch changed their arguments'),
('maps.patch puts in several','C23','maps.patch shared inserted values between places'),
('maps.patch test','C08','test operations compared pointers'),
('escaped double quotes','C04','strings.quote trimmed escaped quotes at the ends'),
('globbed files relative','C18','globbed files were read relative to the working directory'),
('local paths as file names','C18','paths with %, # or ? were taken for URLs'),
('command failures','C21','failures went to stdout with exit code 0'),
('could not be cached','C22','cache-kube-schemas ignored failures'),
('given by --cache-dir','C22','schemas cached with --cache-dir were never looked up there'),
('partly written schema','C22','an interrupted write left a broken cache entry'),
('encoded URL contains a slash','C22','URLs whose base64 contains a slash could not be cached'),
('lists.iota','C17','iota with a huge length panicked'),
('no documents to output','C01','an empty stream was an error'),
('quoted <<','C01','a quoted "<<" key was taken for a merge key'),
('key and comments of their own place','C24','aliased values carried the key comments of where they were defined'),
('so that the output reads back','C13','some strings and comments were written so that they read back differently'),
('comments out of block scalars','C24','comments ended up inside block scalars'),
('functions named like a special form','C02','a function in head position whose text equals a special form was taken for it'),
]
EXTRA = os.path.join(here, 'tools', 'fixed-extra.txt')
log = subprocess.run(['git','-C',os.environ.get('VERIF_REPO','/repo'),'log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
maps = [m for m in MAP]
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if l.strip(): maps.append(tuple(x.strip() for x in l.split('|',2)))
out = []
for l in open(os.path.join(here,'tools','known.txt')):
    if l.strip(): out.append(l.rstrip('\n'))
for l in log:
    h, s = l.split(' ',1)
    if not s.startswith('fix:'): continue
    m = [x for x in maps if x[0] in s]
    if not m: print('no entry for', l); continue
    out.append(f'fixed: property={m[0][1]} {h} {m[0][2]}')
open(os.path.join(here,'known-findings.txt'),'w').write('\n'.join(out)+'\n')
print(len(out))
