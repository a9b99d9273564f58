import os,subprocess,json,shutil,sys
ROOT='/verif/seeded'
FT='filetree/filetree.go'; DE='filetree/decrypt.go'; FC='filetree/fastcache.go'; FI='filetree/fileinfo.go'
HD='handlers/decrypt.go'; HP='handlers/proxy.go'
RQ='requester/requester.go'; MR='requester/makerequest.go'; SC='requester/synccache.go'; CK='requester/complexkey.go'
CE='gocrypt/contentenc/content.go'; OF='gocrypt/contentenc/offsets.go'; IB='gocrypt/contentenc/intrablock.go'; FH='gocrypt/contentenc/file_header.go'
NM='gocrypt/nametransform/names.go'; PD='gocrypt/nametransform/pad16.go'; LN='gocrypt/nametransform/longnames.go'
CF='gocrypt/configfile/config_file.go'; SK='gocrypt/configfile/scrypt.go'; FF='gocrypt/configfile/feature_flags.go'
SV='gocrypt/siv_aead/siv_aead.go'; RP='gocrypt/cryptocore/randprefetch.go'
PO='backend/pool.go'; PV='backend/provider.go'
DEMO='''#!/bin/bash
# Runs the Go test beside this script inside package ./%s of the repository in
# the current directory, without writing anything there.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TMPDIR="$T"
cp "$R/go.mod" "$T/go.mod" && cp "$R/go.sum" "$T/go.sum" || exit 3
%s
cat >"$T/overlay.json" <<J
{"Replace": {%s}}
J
go test -vet=off -count=1 -timeout 200s -modfile="$T/go.mod" -overlay="$T/overlay.json" -run '^TestSeededDemo$' ./%s
'''
E2E=open('/verif/tools/seedgen/e2e.go.txt').read()
VOL=open('/verif/tools/seedgen/vol.go.txt').read()
def seed(id,prop,needs,breaks,pkg,demo,*edits,vol=False,e2e=False):
    d=f'{ROOT}/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w='/tmp/seedgen/repo'; shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,o,n in edits:
        s=open(f'{w}/{f}').read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(f'{w}/{f}','w').write(s.replace(o,n))
    p=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True,check=True).stdout
    open(d+'/patch.diff','w').write(p)
    open(d+'/demo.go.txt','w').write(demo.lstrip())
    pairs='"$R/%s/zz_seeded_demo_test.go": "$D/demo.go.txt"'%pkg if pkg!='.' else '"$R/zz_seeded_demo_test.go": "$D/demo.go.txt"'
    if vol:
        V=VOL
        if vol=='handlers':
            V=VOL.replace('package filetree','package handlers',1)
            V=V[:V.index('func (v *demoVol) open')]+'func (v *demoVol) handlers(t *testing.T) sftp.Handlers {\n\th, err := DecryptHandler("/vol", []byte("pw"), 4, v)\n\tif err != nil {\n\t\tt.Fatal(fmt.Sprint("DecryptHandler: ", err))\n\t}\n\treturn h\n}\n'
            V=V.replace('import (\n','import (\n\t"github.com/pkg/sftp"\n',1)
        open(d+'/vol.go.txt','w').write(V)
        pairs+=', "$R/%s/zz_seeded_vol_test.go": "$D/vol.go.txt"'%pkg
    if e2e:
        open(d+'/e2e.go.txt','w').write(E2E)
        pairs+=', "$R/zz_seeded_e2e_test.go": "$D/e2e.go.txt"'
    open(d+'/demo.sh','w').write(DEMO%(pkg,'',pairs,pkg))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    # verify
    env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
    b=subprocess.run(['go','build','./...'],cwd=w,env=env,capture_output=True,text=True)
    if b.returncode: print(id,'NOBUILD',b.stderr); return
    a=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    c=subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    ok=a.returncode==0 and c.returncode!=0 and 'FAIL' in c.stdout
    print(id,prop,'ok' if ok else 'BAD',a.returncode,c.returncode)
    if not ok: print(a.stdout[-1500:],a.stderr[-500:],'---patched',c.stdout[-1500:],c.stderr[-500:])
    else: print('   ',[l for l in c.stdout.splitlines() if 'zz_seeded' in l or 'panic' in l][:1])
    subprocess.run('git -C /repo status --short',shell=True)
only=sys.argv[1:]
_seed=seed
def seed(id,*a,**k):
    if only and not any(id.startswith(o) for o in only): return
    _seed(id,*a,**k)
exec(open('/verif/tools/seedgen/seeds.py').read())
