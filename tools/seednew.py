#!/usr/bin/env python3
"""seednew.py ID PROP FILE  <<< JSON {old,new,count?,needs,breaks,demo}: builds seeded/ID from a text replacement and a Go demo test body."""
import sys,json,os,subprocess,difflib
def mk(id,prop,edits,needs,breaks,demo,imports,pkg='mat'):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    out=''
    files={}
    for f,old,new in edits:
        s=files.get(f) or (open('/repo/'+f).read(),)*2
        assert s[1].count(old)==1,(id,f,s[1].count(old),old)
        files[f]=(s[0],s[1].replace(old,new))
    for f,(a,b) in files.items():
        out+=''.join(difflib.unified_diff(a.splitlines(1),b.splitlines(1),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(out)
    imps='\n'.join(f'\t"{i}"' for i in imports)
    open(d+'/demo_test.go.txt','w').write(f'''package zzdemo

import (
	"testing"
{imps}
)

func TestDemo(t *testing.T) {{
{demo.rstrip()}
}}
''')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# runs the demonstration against the module in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace":{"%s/'''+pkg+'''/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -c -o "$tmp/demo.test" ./'''+pkg+'''/zzdemo || exit 3
cd "$tmp" && ./demo.test -test.timeout 200s
''')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print(id)
