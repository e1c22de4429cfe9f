#!/usr/bin/env python3
"""Small edits to the sources, each run against the checks that should notice it.

usage: mutants.py list [file...]            - counts
       mutants.py run WORKER OF OUT [file...] - runs every OF-th one, in copies below /tmp/mut/WORKER

Not a check: a way to look for blind spots. Nothing here is read by a check."""
import sys, os, re, subprocess, json, shutil, time
CHECKS = {
 'rdftk_iri/src/iri.rs': 'C04 C05 C06 C14 C10 C12 C15 C11 C02 C13',
 'rdftk_iri/src/pname.rs': 'C01 C02 C03 C12 C10 C11 C15 C09',
 'rdftk_iri/src/map.rs': 'C07 C08 C09 C13 C10 C15 C11',
 'rdftk_iri/src/vocab.rs': 'C13',
 'rdftk_iri/src/error.rs': 'C02 D16',
 'rdftk_core/src/model/graph.rs': 'D01 D02 D03 D04 D11 D12 D05',
 'rdftk_core/src/model/data_set.rs': 'D04 D05',
 'rdftk_core/src/model/literal.rs': 'D17 D05 D06 D07 D08 D01',
 'rdftk_core/src/model/resource.rs': 'D13',
 'rdftk_core/src/model/statement.rs': 'D10 D05 D01 D11 D03',
 'rdftk_core/src/model/statement/bnode.rs': 'D09 D05',
 'rdftk_core/src/model/statement/collection.rs': 'D17 D10 D05 D03 D11',
 'rdftk_core/src/model/statement/object.rs': 'D17 D03 D05 D02',
 'rdftk_core/src/model/statement/subject.rs': 'D17 D03 D05 D02',
 'rdftk_core/src/error.rs': 'D16',
 'rdftk_names/src/lib.rs': 'D14',
 'rdftk_io/src/common/common.pest': 'E02 E04',
 'rdftk_io/src/common/mod.rs': 'E02 E04 E14 E13',
 'rdftk_io/src/common/indenter.rs': 'E07 E15 E08',
 'rdftk_io/src/common/parser/mod.rs': 'E02 E04',
 'rdftk_io/src/common/parser/ntriples.rs': 'E02 E04 E14 E15',
 'rdftk_io/src/common/parser/nquads.rs': 'E04 E14 E15',
 'rdftk_io/src/nt/writer.rs': 'E18 E01 E13 E15',
 'rdftk_io/src/nt/reader.rs': 'E02 E14',
 'rdftk_io/src/nq/writer.rs': 'E03 E13 E15',
 'rdftk_io/src/nq/reader.rs': 'E04 E14',
 'rdftk_io/src/json/writer.rs': 'E18 E05 E13 E15',
 'rdftk_io/src/json/reader.rs': 'E06 E14 E15',
 'rdftk_io/src/turtle/writer.rs': 'E18 E07 E09 E08 E13 E15',
 'rdftk_io/src/trig/writer.rs': 'E18 E08 E13 E15',
 'rdftk_io/src/xml/writer.rs': 'E18 E10 E13 E15',
 'rdftk_io/src/xml/reader.rs': 'E11 E14 E15',
 'rdftk_io/src/dot/writer.rs': 'E18 E12 E13 E15',
 'rdftk_cli/src/main.rs': 'F01 F02 F03',
 'rdftk_cli/src/commands/mod.rs': 'F01 F02 F03',
 'rdftk_cli/src/commands/draw.rs': 'F03 F02',
 'rdftk_cli/src/commands/representations.rs': 'F01 F02',
}
PAIRS = [(' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '),
 (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'), ('is_some(', 'is_none('), ('is_none(', 'is_some('), ('.any(', '.all('), ('.all(', '.any('),
 ('.first()', '.last()'), ('.last()', '.first()'), ('if !', 'if '), ('(!', '('), ('Ordering::Less', 'Ordering::Greater'), ('.rev()', ''), ('.trim()', ''), ('.is_ok()', '.is_err()'),
 ('.is_empty()', '.is_empty().eq(&false)'), ('starts_with', 'ends_with'), ('ends_with', 'starts_with'), ('.filter(', '.skip_while('), ('..=', '..'), ('.cloned()', '.take(1).cloned()'),
 ('rfind', 'find'), ('.find(', '.rfind('), ('.sort()', '.reverse()'), ('unwrap_or_default()', 'unwrap()'), ('.clone()', '.clone()')]
def lines_of(path):
    src = open(path).read().split('\n'); out = []; test = False; block = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith('#[cfg(test)]'): test = True
        if s.startswith('/*'): block = True
        if not (test or block or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or not s or 'trace!' in s or 'info!' in s or 'debug!' in s):
            out.append((i, l))
        if '*/' in s: block = False
    return src, out
def mutants(path, rel):
    src, ls = lines_of(path); out = []
    def put(i, new, what):
        if new != src[i]: out.append((i, new, what))
    pest = rel.endswith('.pest')
    for i, l in ls:
        code = l.split(' // ')[0]
        if pest:
            s = code.strip()
            if s.startswith('| '): put(i, '', 'drop alternative')
            for m in re.finditer(r'[*?+]', code):
                if code[m.start()-1] == '"' : continue
                for r in {'*': ['+', '?'], '+': ['*', ''], '?': ['']}[m.group()]: put(i, l[:m.start()]+r+l[m.end():], m.group()+'->'+r)
            for m in re.finditer(r"\\u\{([0-9A-Fa-f]+)\}", code):
                for d in (-1, 1): put(i, l[:m.start(1)]+'%04X' % (int(m.group(1), 16)+d)+l[m.end(1):], 'range')
            for m in re.finditer(r"'(\w)'", code):
                for d in (-1, 1): put(i, l[:m.start(1)]+chr(ord(m.group(1))+d)+l[m.end(1):], 'range')
            for m in re.finditer(r' ~ !?[\w]+', code): put(i, l[:m.start()]+l[m.end():], 'drop part')
            for m in re.finditer(r'@\{|\$\{', code): put(i, l[:m.start()]+'{'+l[m.end():], 'not atomic')
            continue
        for a, b in PAIRS:
            at = code.find(a)
            while at >= 0:
                w = a in ('true', 'false')
                if not (w and (code[at-1:at].isalnum() or code[at+len(a):at+len(a)+1].isalnum() or code[at-1:at] == '_')): put(i, l[:at]+b+l[at+len(a):], a+'->'+b)
                at = code.find(a, at+1)
        s = code.strip()
        if s.endswith(';') and re.match(r'^(self|[a-z_]+)[.!(\[]|^[a-z_.]+ [-+*|]?= |^let _ = |^w\.|^write', s) and not s.startswith('return'): put(i, '', 'drop statement')
        if s.startswith('return ') and s.endswith(';'): put(i, '', 'drop return')
        m = re.match(r'^(\s*)(\|? ?[A-Z\'"0-9(].*) => .*,\s*$', l)
        if m: put(i, '', 'drop arm')
        m = re.match(r'^\s*\| [^|].*$', l)
        if m and '=>' not in l: put(i, '', 'drop pattern')
        m = re.match(r'^(\s*(?:\} else )?if )(?!let )(.*)( \{)\s*$', l)
        if m and '!' not in m.group(2)[:1]: put(i, m.group(1)+'!('+m.group(2)+')'+m.group(3), 'negate')
        if s.startswith('.') and s.endswith(')') and not s.startswith('.map') and not s.startswith('.collect') and not s.startswith('.iter'): put(i, '', 'drop call')
        for m in re.finditer(r'(?<![\w.\'"{])(\d+)(?![\w.\'"])', code): put(i, l[:m.start()]+str(int(m.group())+1)+l[m.end():], 'number')
        for m in re.finditer(r"'([^'\\])'", code): put(i, l[:m.start(1)]+('z' if m.group(1) != 'z' else 'y')+l[m.end(1):], 'char')
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
            if 'expect(' in code or 'feature' in code or 'unreachable' in code or '\\n' == m.group(1) and 'join' in code: continue
            put(i, l[:m.start(1)]+re.sub(r'[^{}:#?\w]|\b[a-zA-Z]+\b(?![^{]*\})', '', m.group(1))+l[m.end(1):] if '{' in m.group(1) else l[:m.start(1)]+l[m.end(1):], 'text')
    return src, out
def main():
    files = [f for f in CHECKS if not sys.argv[5 if sys.argv[1] == 'run' else 2:] or any(a in f for a in sys.argv[5 if sys.argv[1] == 'run' else 2:])]
    if sys.argv[1] == 'list':
        n = 0
        for f in files:
            m = mutants('/repo/'+f, f)[1]; n += len(m); print(f, len(m))
        print(n); return
    k, of, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    W = f'/tmp/mut/{k}'; V, R = W+'/verif', W+'/repo'
    if not os.path.exists(W):
        os.makedirs(W)
        subprocess.run(f"git clone -q /repo {R} && git clone -q /verif {V} && rm -rf {V}/seeded {V}/.git && cp /repo/Cargo.lock {R}/ 2>/dev/null; cp /verif/mc/Cargo.lock {V}/mc/ 2>/dev/null; grep -rlE '/repo/' {V}/mc | xargs sed -i 's#/repo/#{R}/#g'", shell=True)
        p = V+'/mc/mclib/src/lib.rs'; s = open(p).read()
        s = s.replace("        self.total_violations.fetch_add(1, Ordering::Relaxed);\n", "        eprintln!(\"CAUGHT {key} {}\", msg.into()); std::process::exit(1);\n        #[allow(unreachable_code)]\n        let msg = String::new(); self.total_violations.fetch_add(1, Ordering::Relaxed);\n"); open(p, 'w').write(s)
    env = dict(os.environ, PATH='/root/.cargo/bin:'+os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TARGET_DIR=V+'/target', VERIF_ROOT=V, VERIF_SEED='1')
    done = set()
    if os.path.exists(out): done = {json.loads(l)['n'] for l in open(out)}
    n = -1
    for f in files:
        src, ms = mutants(R+'/'+f, f)
        for i, new, what in ms:
            n += 1
            if n % of != k % of or n in done: continue
            t = src[:]; t[i] = new
            open(R+'/'+f, 'w').write('\n'.join(t)); st = time.time()
            crate = {'C': 'mc_iri', 'D': 'mc_core', 'E': 'mc_io', 'F': 'mc_io'}[CHECKS[f][0]]
            b = subprocess.run(f'cd {V}/mc && timeout 400 cargo build --offline -q -p {crate}' + (' -p rdftk_bin' if CHECKS[f][0] == 'F' else ''), shell=True, env=env, capture_output=True, text=True)
            res = 'survived'; why = ''
            if b.returncode: res = 'no build'; why = ''
            else:
                for c in CHECKS[f].split():
                    r = subprocess.run(['timeout', '-k', '5', '240', V+'/target/debug/'+crate, c, 'quick'], env=env, capture_output=True, text=True, errors='replace')
                    if r.returncode: res = f'{c} {r.returncode}'; why = (r.stderr+r.stdout)[:150]; break
            open(R+'/'+f, 'w').write('\n'.join(src))
            with open(out, 'a') as o: o.write(json.dumps({'n': n, 'file': f, 'line': i+1, 'what': what, 'old': src[i], 'new': new, 'result': res, 'why': why, 's': round(time.time()-st)})+'\n')
if __name__ == '__main__': main()
