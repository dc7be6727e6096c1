# Sourced by demonstrations: prepares a scratch overlay so that /repo's current
# tree compiles here (the typescript-go submodule directory is empty).
# usage: . ovl.sh; ovl_init; ovl_go test ... / ovl_go build ...
ovl_init() {
  OVL=$(mktemp -d /tmp/ovl.XXXXXX); REPO=${REPO:-$(pwd)}
  trap 'chmod -R u+w "$OVL" 2>/dev/null; rm -rf "$OVL"' EXIT
  export GOROOT=/opt/veriftools/go1.26.10 GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GONOSUMDB='*' GOSUMDB=off GOFLAGS=-modcacherw
  export PATH=$GOROOT/bin:$PATH HOME=${HOME:-/root}
  MOD=/root/go/pkg/mod
  export GOPROXY=file://$MOD/cache/download GOMODCACHE=$OVL/mc
  mkdir -p $OVL/mc
  python3 - "$REPO" "$OVL" "$MOD" "$@" <<'PY'
import sys,os,glob,json,subprocess,shutil
repo,w,mod=sys.argv[1:4]
ts=mod+"/github.com/microsoft/typescript-go@v0.0.0-20260708042240-2bd066d87f5b"
d=w+"/ts"
os.makedirs(d)
ps=sorted(glob.glob(repo+"/patches/*.patch"))
for p in ps:
    for l in open(p,errors="replace"):
        if l.startswith("+++ b/"):
            f=l[6:].strip().split("\t")[0]
            if os.path.exists(ts+"/"+f):
                os.makedirs(os.path.dirname(d+"/"+f),exist_ok=True)
                shutil.copyfile(ts+"/"+f,d+"/"+f)
for p in ps:
    subprocess.run(["patch","-p1","-s","--no-backup-if-mismatch","-i",p],cwd=d,check=True,stdout=subprocess.DEVNULL)
ov={}
for r,_,fs in os.walk(d):
    for f in fs:
        if not f.endswith(".go"): continue
        q=os.path.join(r,f); rel=os.path.relpath(q,d)
        if rel.startswith("internal/collections/"):
            if not f.endswith("_test.go"): ov[repo+"/"+rel]=q
        else: ov[ts+"/"+rel]=q
for q in glob.glob(ts+"/internal/collections/*.go"):
    if q.endswith("_test.go"): continue
    ov.setdefault(repo+"/internal/collections/"+os.path.basename(q),q)
for a in sys.argv[4:]:
    k,v=a.split("=",1); ov[repo+"/"+k]=v
json.dump({"Replace":ov},open(w+"/overlay.json","w"))
gm=open(repo+"/go.mod").read().replace("=> ./","=> "+repo+"/")
reps={"github.com/dlclark/regexp2/v2":"v2.7.1","github.com/go-json-experiment/json":"v0.0.0-20260623181947-01eb4420fa68","github.com/google/go-cmp":"v0.7.0","github.com/klauspost/cpuid/v2":"v2.2.10","github.com/mackerelio/go-osstat":"v0.2.7","github.com/zeebo/xxh3":"v1.1.0","golang.org/x/sync":"v0.22.0","golang.org/x/sys":"v0.47.0","golang.org/x/text":"v0.41.0","gotest.tools/v3":"v3.5.2"}
gm+="\nreplace (\n"+"".join(" %s => %s/%s@%s\n"%(k,mod,k,v) for k,v in reps.items())+" github.com/microsoft/typescript-go => "+ts+"\n)\n"
open(w+"/m.mod","w").write(gm)
s=set()
for f in (repo+"/go.sum","/opt/vp/mod/extra.sum"):
    if os.path.exists(f): s|=set(l for l in open(f).read().split("\n") if l)
open(w+"/m.sum","w").write("\n".join(sorted(s))+"\n")
PY
}
ovl_go() { c=$1; shift; (cd "$REPO" && go $c -mod=mod -modfile=$OVL/m.mod -overlay=$OVL/overlay.json "$@"); }
