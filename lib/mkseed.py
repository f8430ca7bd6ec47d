#!/usr/bin/env python3
"""mkseed.py id property file 'old' 'new' needs breaks main.rs  -> creates /verif/seeded/id from current /repo HEAD"""
import sys,os,subprocess,json,shutil
def make(id,prop,edits,needs,breaks,main,verif=True):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    w='/tmp/seedwt'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for e in edits:
        f,o,n=e[:3]; cnt=e[3] if len(e)>3 else 1
        p=w+'/'+f; s=open(p).read()
        assert s.count(o)==cnt,(f,o,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','-C',w,'diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(main)
    open(d+'/meta.json','w').write(json.dumps({'property':prop,'needs':needs,'what_it_breaks':breaks},indent=1)+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# cwd: the repository. Exit 0: behaves as the property says.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/pt_demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/run"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
pt = { path = "$repo" }
[workspace]
T
cd "$work/run" || exit 2
%sCARGO_TARGET_DIR="$work/target" cargo build -q --offline --manifest-path "$work/Cargo.toml" 2>"$work/log" || { tail -20 "$work/log"; exit 3; }
timeout 120 "$work/target/debug/demo"
''' % ('RUSTFLAGS="--cfg pt_verif" ' if verif else ''))
    os.chmod(d+'/demo.sh',0o755)
    shutil.rmtree(w,ignore_errors=True)
