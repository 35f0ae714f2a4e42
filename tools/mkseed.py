import os, subprocess, json, sys
def seed(id, prop, edits, needs, breaks, demo, cfg='up'):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    w='/tmp/ms'; subprocess.run('rm -rf /tmp/ms; git -C /repo worktree prune; mkdir /tmp/ms; git -C /repo archive HEAD | tar x -C /tmp/ms; cd /tmp/ms && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm b', shell=True, check=True)
    for f, old, new in edits:
        p=w+'/'+f; s=open(p,newline='').read(); old=old.replace('\n','\r\n') if '\r\n' in s else old; new=new.replace('\n','\r\n') if '\r\n' in s else new; assert s.count(old)>=1, (f, old); 
        assert s.count(old)==1, ('ambiguous', s.count(old), old)
        open(p,'w',newline='').write(s.replace(old,new))
    diff=subprocess.run('git diff', shell=True, cwd=w, capture_output=True).stdout
    open(d+'/patch.diff','wb').write(diff)
    mode={'up':'-DROUND_MODE_UP','convergent':'-DROUND_MODE_CONVERGENT','up_fullaccu_dbg':'-DROUND_MODE_UP -DFULL_ACCU -DAVEPOOL_16BIT_MUL -DMLI_DEBUG_MODE=DBG_MODE_FULL'}[cfg]
    open(d+'/demo.cc','w').write(demo)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the library behaves; run in the repository root after the build
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
INC="-I$PWD/include -I$PWD/include/api -I$PWD/include/internal"
for i in $(find "$PWD/lib/src" -type d -not -path '*/pal/*') "$PWD/lib/src/pal" "$PWD/lib/src/pal/ref"; do INC="$INC -I$i"; done
g++ -std=c++17 -O0 -fwrapv -w -DMLI_BUILD_REFERENCE %s $INC "$H/demo.cc" "$PWD/_build/%s/bin/libmli.a" -o "$T/demo" || exit 3
timeout 120 "$T/demo"
''' % (mode, cfg))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
