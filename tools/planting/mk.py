#!/usr/bin/env python3
"""usage: mk.py bugs.py [ids...]  - makes /verif/seeded/<id>/ after confirming it in a scratch copy"""
import sys, os, subprocess, json, shutil, importlib.util, textwrap
spec=importlib.util.spec_from_file_location("b",sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
only=sys.argv[2:]
W="/tmp/seed/w"; os.environ["DEMO_TARGET"]="/tmp/seed/target"
def sh(c,cwd=W,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
if not os.path.exists(W): sh("cp -a /repo "+W,cwd="/")
sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd")
DEMO='''#!/bin/bash
# Builds a small program against the working tree and runs it; everything it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
EOF
%s
'''
RUN='CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo run -q --offline --manifest-path "$t/Cargo.toml"'
# the tool is built beside the program that runs it
RUN_CLI='CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build -q --offline --manifest-path "$t/Cargo.toml" && cd "$t" && "${DEMO_TARGET:-$t/target}/debug/demo"'
DEPS={'iri':'rdftk_iri = { path = "$repo/rdftk_iri" }\nserde_json = "1"',
 'iri_nostd':'rdftk_iri = { path = "$repo/rdftk_iri", default-features = false }',
 'core':'rdftk_iri = { path = "$repo/rdftk_iri" }\nrdftk_names = { path = "$repo/rdftk_names" }\nrdftk_core = { path = "$repo/rdftk_core" }',
 'core_lt':'rdftk_iri = { path = "$repo/rdftk_iri" }\nrdftk_names = { path = "$repo/rdftk_names" }\nrdftk_core = { path = "$repo/rdftk_core" }\nlanguage-tags = "0.3"',
 'core_min':'rdftk_iri = { path = "$repo/rdftk_iri" }\nrdftk_names = { path = "$repo/rdftk_names" }\nrdftk_core = { path = "$repo/rdftk_core", default-features = false }',
 'io_nq':'rdftk_iri = { path = "$repo/rdftk_iri" }\nrdftk_names = { path = "$repo/rdftk_names" }\nrdftk_core = { path = "$repo/rdftk_core" }\nrdftk_io = { path = "$repo/rdftk_io", default-features = false, features = ["nq"] }\nobjio = "0.1.2"',
 'cli':'rdftk_core = { path = "$repo/rdftk_core", features = ["binary_types", "chrono_types", "decimal_types", "n3_formulae", "rdf_star"] }\nrdftk_io = { path = "$repo/rdftk_io" }\nrdftk_iri = { path = "$repo/rdftk_iri" }\nobjio = "0.1.2"\nclap = { version = "4.5", features = ["derive", "env", "wrap_help"] }\nclio = { version = "0.3.5", features = ["clap-parse"] }\nhuman-panic = "2.0.2"\ntracing = "0.1.40"\ntracing-subscriber = { version = "0.3.18", features = ["env-filter"] }\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n[[bin]]\nname = "rdftk"\npath = "$repo/rdftk_cli/src/main.rs"',
 'io':'rdftk_iri = { path = "$repo/rdftk_iri" }\nrdftk_names = { path = "$repo/rdftk_names" }\nrdftk_core = { path = "$repo/rdftk_core" }\nrdftk_io = { path = "$repo/rdftk_io" }\nobjio = "0.1.2"'}
deps=lambda d: d.get('deps',getattr(b,'DEFAULT_DEPS','iri'))
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for id,d in b.BUGS.items():
    if only and id not in only: continue
    sh("git checkout -q -- .")
    ok=True
    for f,old,new in d['edits']:
        p=f"{W}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(id,"EDIT MISMATCH",f,s.count(old),repr(old[:60])); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: continue
    mine=[]
    for f in {e[0] for e in d['edits']}:
        for h in sh("git diff -U0 -- "+f).stdout.splitlines():
            if h.startswith('@@'):
                a=h.split()[1][1:].split(','); a0=int(a[0]); n=int(a[1]) if len(a)>1 else 1
                if n:
                    for l in sh(f"git blame -s -L {a0},{a0+n-1} HEAD -- {f}").stdout.splitlines():
                        c=l.split()[0].lstrip('^')
                        if sh(f"git merge-base --is-ancestor {c} 686a6da").returncode: mine.append((f,l[:100]))
    if mine: print(id,"touches my own lines:",mine[:3],flush=True)
    out=f"/verif/seeded/{id}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    diff=sh("git diff").stdout; open(out+"/patch.diff","w").write(diff)
    open(out+"/main.rs","w").write(d['demo'].strip()+"\n")
    open(out+"/demo.sh","w").write(DEMO%(DEPS[deps(d)],RUN_CLI if deps(d)=='cli' else RUN)); os.chmod(out+"/demo.sh",0o755)
    json.dump({"property":d['property'],"needs":d['needs'],"what_it_breaks":d['breaks']},open(out+"/meta.json","w"),indent=1)
    # tests with patch
    t=sh(f"sed 's#/repo#{W}#g' /opt/vp/env.sh > /tmp/seed/env.sh; . /tmp/seed/env.sh; mkdir -p target; cargo test -p rdftk_iri --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1; python3 /opt/vp/results.py /tmp/seed/o.json cargo:{W}/target/vp-test.log")
    try: o=json.load(open('/tmp/seed/o.json')); miss=[x for x in base if x not in o['passed']]
    except Exception as e: miss=['no results '+str(e)]
    r1=sh(f"bash {out}/demo.sh")
    sh("git checkout -q -- .")
    r0=sh(f"bash {out}/demo.sh")
    good = not miss and r1.returncode!=0 and r0.returncode==0 and ('could not compile' not in r1.stderr or d.get('build_fails'))
    print(id,"OK" if good else "BAD","miss",miss[:3],"with",r1.returncode,"without",r0.returncode, "" if good else (r1.stderr[-600:]+r0.stderr[-600:]), flush=True)
    if not good: shutil.rmtree(out)
