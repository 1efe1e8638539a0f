# mkseed.py: helper to create a seed dir from python replacement
import os, subprocess, json, sys
def seed(id, prop, edits, demo, needs, breaks, flags='-O1', srcs='', run_s=60, threads=False):
    d=f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    W='/tmp/w/mk'; subprocess.run(f'rm -rf {W}; git clone -q /repo {W}', shell=True, check=True)
    for f,a,b in edits:
        s=open(f'{W}/{f}').read(); assert s.count(a)>=1, (id, f, a); assert s.count(a)==1, (id,'ambiguous',f,a)
        open(f'{W}/{f}','w').write(s.replace(a,b,1))
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
clang++ -std=c++20 -g -w {flags} -pthread -DLIBCORO_FEATURE_NETWORKING -I include -I _build/include "$here/demo.cpp" {srcs} -o "$tmp/demo" || exit 0
cd "$tmp" && timeout {run_s} ./demo
''')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
