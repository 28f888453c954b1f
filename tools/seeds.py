#!/usr/bin/env python3
"""Write and confirm the planted bugs.   seeds.py make [id..] | check [id..]
Works on scratch copies under /tmp/seedwork only; no registered check uses this."""
import sys, os, json, subprocess, shutil, glob, importlib, re
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE); OUT=V+'/seeded'
sys.path.insert(0,HERE)
SEEDS=[]
for f in sorted(glob.glob(HERE+'/seeds_*.py')):
    SEEDS += importlib.import_module(os.path.basename(f)[:-3]).S
PRE='''#![allow(unused_imports, dead_code)]
use prosemirror::markdown::{helper::*, *};
use prosemirror::model::*;
use prosemirror::transform::*;
use std::convert::TryFrom;
type N = MarkdownNode;
fn link(href: &str, title: &str) -> MarkdownMark {
    MarkdownMark::Link { attrs: LinkAttrs { href: href.into(), title: title.into() } }
}
fn txt(s: &str, marks: &[MarkdownMark]) -> N {
    let mut set = MarkSet::<MD>::default();
    for m in marks { set.add(m); }
    MarkdownNode::Text(TextNode { marks: set, text: Text::from(s.to_string()) })
}
fn img(src: &str, alt: &str, title: &str) -> N {
    MarkdownNode::Image(Leaf { attrs: ImageAttrs { src: src.into(), alt: alt.into(), title: title.into() } })
}
fn ol(order: usize, items: Vec<N>) -> N {
    MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order, tight: false }, content: Fragment::from(items) })
}
fn main() {
'''
DEMO='''#!/bin/bash
# Exit 0 when the library in the current directory behaves, nonzero when it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/demo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
prosemirror = { path = "$repo", features = ["cmark"] }
serde_json = "1"
serde = { version = "1", features = ["derive"] }
[workspace]
E
export CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo run --offline -q
'''
def sh(cmd,cwd=None,env=None,timeout=600):
    return subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,env=env)
BASE=[k for k in json.load(open('/opt/vp/BASELINE.json')).get('stable',[])] if False else None
def make(ids):
    W=f'/tmp/seedwork{os.getpid()}'; shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    sh(f'git clone -q /repo {W}/r && cp /repo/Cargo.lock {W}/r/ && cp -a {W}/r {W}/c')
    R=W+'/r'; bad=[]
    e=dict(os.environ,CARGO_TARGET_DIR=W+'/t',CARGO_NET_OFFLINE='true',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        if not ids and os.path.exists(f"{OUT}/{s['id']}/meta.json"): continue
        i=s['id']; sh('git checkout -q -- .',R)
        src=open(f"{R}/{s['file']}").read()
        files={s['file']:src}
        ok=True
        for ed in s['edits']:
            fn=s['file'] if len(ed)==2 else ed[0]; old,new=ed[-2:]
            t=files.get(fn) or open(f'{R}/{fn}').read()
            if t.count(old)!=1: print(i,'EDIT: count',t.count(old),repr(old[:60])); ok=False; break
            files[fn]=t.replace(old,new)
        if not ok: bad.append(i); continue
        for fn,t in files.items(): open(f'{R}/{fn}','w').write(t)
        d=sh('git diff',R).stdout
        # removed lines must be original ones
        orig=0
        for fn in files:
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))?',sh(f'git diff -U0 -- {fn}',R).stdout,re.M):
                a=int(h[1]); n=int(h[2] or 1)
                if n==0: continue
                for l in sh(f'git blame -s -L {a},{a+n-1} HEAD -- {fn}',R).stdout.splitlines(): orig+=l.startswith('^')
        if not orig: print(i,'NOT ORIGINAL'); bad.append(i); continue
        b=sh('cargo test --workspace --all-features --offline -q 2>&1 && cargo build --offline -q',R,e)
        if b.returncode: print(i,'TESTS',re.findall(r'^error.*|^test .*FAILED|^    [a-z:_]+$|panicked.*',b.stdout,re.M)[:6]); bad.append(i); continue
        D=f'{W}/d/{i}'; os.makedirs(D)
        open(D+'/patch.diff','w').write(d)
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(D+'/meta.json','w'),indent=1)
        open(D+'/main.rs','w').write(PRE+s['demo'].strip('\n')+'\n}\n')
        open(D+'/demo.sh','w').write(DEMO); os.chmod(D+'/demo.sh',0o755)
        shutil.copy(V+'/tools/demo.lock',D+'/demo.lock')
        x=sh(f'bash {D}/demo.sh',R)
        y=sh(f'bash {D}/demo.sh',W+'/c')
        if x.returncode==0 or y.returncode!=0 or 'error' in x.stdout.split('panicked')[0] and 'panicked' not in x.stdout:
            print(i,'DEMO patched',x.returncode,'clean',y.returncode,x.stdout[x.stdout.find('panicked'):][:400],y.stdout[y.stdout.find('panicked'):][:400]); bad.append(i); continue
        shutil.rmtree(f'{OUT}/{i}',ignore_errors=True); shutil.copytree(D,f'{OUT}/{i}')
        print(i,'ok',flush=True)
    shutil.rmtree(W)
    print('bad',bad)
def check(ids, extra=()):
    res={}
    for D in sorted(glob.glob(OUT+'/*/')):
        i=os.path.basename(D[:-1])
        if ids and i not in ids: continue
        prop=json.load(open(D+'meta.json'))['property']
        a=sh(f'git apply {D}patch.diff','/repo')
        if a.returncode: print(i,'APPLY',a.stdout); continue
        try:
            props=[prop] if extra!='all' else [json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
            got=[]
            for p in props:
                r=sh(f'timeout 900 bash {V}/check.sh {p} quick',V,dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'),1000)
                got.append((p,r.returncode, 'VIOLATION property='+p in r.stdout))
                if extra!='all': last=r.stdout[-300:]
        finally: sh('git checkout -- .','/repo')
        c=[p for p,rc,v in got if rc==1 and v]; odd=[(p,rc) for p,rc,v in got if rc not in(0,1) or (rc==1)!=v]
        print(i,prop,'CAUGHT' if prop in c else 'MISSED',c if extra=='all' else '',odd or '',flush=True)
        res[i]=c
    return res
if __name__=='__main__':
    cmd,ids=sys.argv[1],sys.argv[2:]
    if cmd=='make': make(ids)
    elif cmd=='check': check(ids)
    elif cmd=='all':
        r=check(ids,'all'); json.dump(r,open('/tmp/catch.json','w'),indent=1)
