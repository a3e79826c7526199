import os,subprocess,json,tempfile,shutil,re
DEMO='''#!/bin/bash
# Runs the demonstration test beside this script as part of the package in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo$' .
'''
HEAD='''package ofxgo_test

import (
%s	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestDemo(t *testing.T) {
%s
}
'''
def bug(id,prop,needs,breaks,edits,body=None,imports=(),extra='',demo=None,files=None):
    d=tempfile.mkdtemp(prefix='/tmp/mk.'); r=d+'/repo'
    subprocess.check_call(['cp','-a','/repo',r]); subprocess.check_call('git checkout -q -- .',shell=True,cwd=r)
    for f,a,b in edits:
        p=r+'/'+f; s=open(p).read()
        assert s.count(a)>=1,(id,f,a)
        s=s.replace(a,b,1); open(p,'w').write(s)
    subprocess.call('. /opt/vp/env.sh; gofmt -l *.go',shell=True,cwd=r)
    diff=subprocess.check_output(['git','diff'],cwd=r)
    o='/verif/seeded/'+id; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','wb').write(diff)
    if body is not None:
        imps=''.join('\t"%s"\n'%i for i in sorted(imports))
        open(o+'/demo_test.go','w').write(HEAD%(imps,body.strip('\n'))+extra)
        open(o+'/demo.sh','w').write(DEMO)
    if demo: open(o+'/demo.sh','w').write(demo)
    for k,v in (files or {}).items():
        open(o+'/'+k,'w').write(v)
    os.chmod(o+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(o+'/meta.json','w'),indent=1)
    shutil.rmtree(d)
    p=subprocess.run(['/verif/tools/plant',id],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True); print(p.stdout,end='')
SGML='"OFXHEADER:100\\nDATA:OFXSGML\\nVERSION:102\\nSECURITY:NONE\\nENCODING:USASCII\\nCHARSET:1252\\nCOMPRESSION:NONE\\nOLDFILEUID:NONE\\nNEWFILEUID:NONE\\n\\n"'
XMLH='"<?xml version=\\"1.0\\" encoding=\\"UTF-8\\" standalone=\\"no\\"?>\\n<?OFX OFXHEADER=\\"200\\" VERSION=\\"203\\" SECURITY=\\"NONE\\" OLDFILEUID=\\"NONE\\" NEWFILEUID=\\"NONE\\"?>\\n"'
SON='"<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20060115112303</DTSERVER><LANGUAGE>ENG</LANGUAGE><FI><ORG>BNK</ORG><FID>1987</FID></FI></SONRS></SIGNONMSGSRSV1>"'
DOC='''
const xmlHead = %s
const sgmlHead = %s
const son = %s
'''%(XMLH,SGML,SON)
