#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG [-race|-] [RUN]: takes the working tree change of /tmp/seed (a copy of /repo) as patch and writes demo.sh.
meta text comes from stdin: first line needs, second line what_it_breaks. The test file seeded/ID/seed_test.go must exist."""
import sys,os,subprocess,json
id_,prop,pkg=sys.argv[1:4]
race=sys.argv[4] if len(sys.argv)>4 else '-'
d='/verif/seeded/'+id_
os.makedirs(d,exist_ok=True)
diff=subprocess.run(['git','-C','/tmp/seed','diff'],capture_output=True,text=True).stdout
assert diff
open(d+'/patch.diff','w').write(diff)
needs,breaks=[l.strip() for l in sys.stdin.read().strip().split('\n')[:2]]
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
. /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_seed_test.go":"%s/seed_test.go"}}}}' "$PWD" "$d" > "$t/o.json"
go test {'' if race=='-' else '-race '}-vet=off -count=1 -timeout 100s -overlay "$t/o.json" -run '^TestSeed' ./{pkg}
''')
os.chmod(d+'/demo.sh',0o755)
subprocess.run(['git','-C','/tmp/seed','checkout','-q','--','.'])
