"""Type-level witnesses: small programs that the compiler must accept or must
refuse.  Nothing is run; the deciding step is rustc's type checker applied to
the crate's current source (DESIGN.md section 4)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + ENV.get('PATH', '')
for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC', 'LD_LIBRARY_PATH', 'NARROW_SA_OUT', 'RUSTUP_TOOLCHAIN'): ENV.pop(k, None)

TYPES = {'E0271', 'E0277', 'E0308', 'E0053', 'E0049', 'E0195', 'E0276', 'E0326', 'E0080'}   # a type is not what the witness says
NAMES = {'E0405', 'E0407', 'E0412', 'E0425', 'E0432', 'E0433', 'E0437', 'E0438', 'E0576', 'E0220', 'E0599', 'E0107', 'E0046', 'E0583', 'E0463', 'E0460', 'E0603', 'E0050', 'E0061'}

class Lib:
    """rmeta of the workspace crates as the stable compiler sees them"""
    def __init__(self, repo):
        self.tmp = tempfile.mkdtemp(prefix='nsa-wit.')
        tgt = os.path.join(self.tmp, 't')
        r = subprocess.run(['cargo', 'check', '--workspace', '--lib', '--offline', '--locked', '--target-dir', tgt], cwd=repo,
                           env=dict(ENV, RUSTFLAGS='--cap-lints allow'), capture_output=True, text=True)
        if r.returncode: raise RuntimeError('cargo check failed:\n' + r.stderr[-2000:])
        self.deps = os.path.join(tgt, 'debug', 'deps')
        self.ext = {}
        for f in os.listdir(self.deps):
            m = re.match(r'lib(narrow|narrow_ffi)-[0-9a-f]+\.rmeta$', f)
            if m: self.ext[m[1]] = os.path.join(self.deps, f)
        if set(self.ext) != {'narrow', 'narrow_ffi'}: raise RuntimeError('no metadata')
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)
    def compile(self, src):
        """None when accepted, else [(code or '', message)]"""
        d = tempfile.mkdtemp(dir=self.tmp); p = os.path.join(d, 'w.rs')
        with open(p, 'w') as f: f.write(src)
        cmd = ['rustc', '--edition', '2024', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--cap-lints', 'allow', '-L', 'dependency=' + self.deps,
               '--error-format=json', '-o', os.path.join(d, 'w.rmeta'), p]
        for n, e in self.ext.items(): cmd += ['--extern', '%s=%s' % (n, e)]
        r = subprocess.run(cmd, env=ENV, capture_output=True, text=True, cwd=d)
        if r.returncode == 0: return None
        out = []
        for l in r.stderr.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('level') == 'error': out.append(((m.get('code') or {}).get('code', ''), m['message'][:300]))
        return out or [('', r.stderr[-300:])]

PRE = '''#![allow(dead_code, unused_imports, unused_variables)]
extern crate alloc;
use narrow::{array::Array, bitmap::*, buffer::*, collection::{*, flatten::*, owned::*, view::*}, fixed_size::*, layout::{*, boolean::*, fixed_size_list::*, fixed_size_primitive::*, variable_size_list::*}, length::*, nullability::*, offset::*, validity::*};
use std::{rc::Rc, sync::Arc};
pub trait Same<T: ?Sized> {} impl<T: ?Sized> Same<T> for T {}
pub fn same<A: ?Sized + Same<B>, B: ?Sized>() {}
'''

def accept(body, what, codes=TYPES, pre=PRE): return ('accept', body, what, codes, pre)
def refuse(body, what, codes, pre=PRE, twin=None): return ('refuse', body, what, codes, pre, twin)

def run(ctx, rule, ws, jobs=8):
    """Check witnesses; one obligation each."""
    try: lib = Lib(ctx.repo)
    except RuntimeError as e:
        ctx.unknown(rule, 'cargo check', str(e)[:400]); return
    try:
        srcs = []
        for w in ws:
            srcs.append(w[4] + w[1])
            if w[0] == 'refuse' and w[5]: srcs.append(w[4] + w[5])
        uniq = list(dict.fromkeys(srcs))
        with ThreadPoolExecutor(jobs) as ex: res = dict(zip(uniq, ex.map(lib.compile, uniq)))
        for w in ws:
            ctx.obligation(); r = res[w[4] + w[1]]
            first = lambda r: '; '.join('%s %s' % x for x in r[:2])
            if w[0] == 'accept':
                ctx.count('programs_that_must_compile')
                if r is None: ctx.ok(); continue
                cs = {c for c, _ in r}
                if cs & w[3] and not cs & (NAMES - w[3]): ctx.fail(rule, w[2], 'a program stating this is refused by the compiler: ' + first(r))
                else: ctx.unknown(rule, w[2], 'witness no longer fits the interface: ' + first(r))
            else:
                ctx.count('programs_that_must_be_refused')
                if r is None: ctx.fail(rule, w[2], 'this program must be refused by the compiler and is accepted: ' + ' '.join(w[1].split())[:300]); continue
                cs = {c for c, _ in r}
                if not cs & set(w[3]): ctx.unknown(rule, w[2], 'refused for another reason: ' + first(r)); continue
                if w[5]:
                    t = res[w[4] + w[5]]
                    if t is not None: ctx.unknown(rule, w[2], 'the well-formed twin is refused too: ' + first(t)); continue
                ctx.ok()
    finally: lib.close()
