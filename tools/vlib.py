"""Front end of the checks: builds the IR of /repo's current code with a harness, runs the executor, replays natively."""
import os, re, subprocess, sys, time, json, shutil, glob, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
TRIPLE = 'x86_64-unknown-linux-gnu'
TC = 'stable-' + TRIPLE
LLVM = f'/root/.rustup/toolchains/{TC}/lib/rustlib/{TRIPLE}/bin'
SKIP = ('test', 'proc_macro', 'getopts', 'panic_unwind', 'unicode_width', 'rustc_std_workspace')
ENGINE = os.path.join(BUILD, 'engine/release/symex')

def env(**kw):
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['HOME'] = '/root'
    for k in list(e):
        if k.startswith('CARGO_') and k != 'CARGO_HOME' or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'RUSTUP_TOOLCHAIN'): del e[k]
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    e.update(kw)
    return e

class BuildError(Exception): pass

def sh(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise BuildError(f'{what} failed ({r.returncode}):\n' + r.stdout[-6000:])
    return r.stdout

def build_engine():
    sh(['cargo', 'build', '--offline', '--release', '--target-dir', os.path.join(BUILD, 'engine')], 'building the executor', cwd=os.path.join(VERIF, 'engine'), env=env())

def forget(target, names):
    """drop cargo's fingerprints of the crates under check: they are always rebuilt from the current tree"""
    for d in glob.glob(os.path.join(target, '**', '.fingerprint', '*'), recursive=True):
        b = os.path.basename(d).rsplit('-', 1)[0]
        if b in names or b.startswith('json') or b.startswith('harness') or b == 'sym': shutil.rmtree(d, ignore_errors=True)

def build_bc(crate):
    """compile a harness crate, /repo's crate and the standard library to LLVM bitcode"""
    t = os.path.join(BUILD, 'ir-' + crate)
    forget(t, ())
    deps = os.path.join(t, TRIPLE, 'release', 'deps')
    for f in glob.glob(os.path.join(deps, '*.bc')):
        b = os.path.basename(f)
        if re.match(r'(lib)?(json|harness|sym)', b): os.remove(f)
    e = env(RUSTC_BOOTSTRAP='1', RUSTC_WRAPPER=os.path.join(VERIF, 'tools/rustc-wrap.sh'),
            RUSTFLAGS='-W pub_use_of_private_extern_crate --emit=llvm-bc,link -C no-prepopulate-passes -Z inline-mir=no -C embed-bitcode=no')
    sh(['cargo', 'build', '--offline', '--release', '--lib', '-Zbuild-std=core,alloc,std,panic_abort', '--target', TRIPLE, '--target-dir', t], 'compiling to bitcode', cwd=os.path.join(VERIF, crate), env=e)
    return deps

def std_bc(deps, out):
    bcs = [f for f in glob.glob(deps + '/*.bc') if not re.match(r'(json|harness|sym)', os.path.basename(f)) and os.path.basename(f).rsplit('-', 1)[0] not in SKIP and not os.path.basename(f).startswith('rustc_std')]
    sh([LLVM + '/llvm-link', *sorted(bcs), '-o', out], 'linking std')

STRIP = re.compile(r'(___rustc17rust_begin_unwind|___rustc12___rust_alloc$|___rustc14___rust_dealloc$|___rustc14___rust_realloc$|___rustc19___rust_alloc_zeroed$|___rustc26___rust_alloc_error_handler|8hash_one|hashmap_random_keys|9panicking9panic_fmt|9panicking19panic_nounwind_fmt|18handle_alloc_error|3std9panicking|3std3sys9backtrace|12backtrace_rs|7process5abort)')
FLOAT = re.compile(r'(6string[mlyxjion]Nt\w+_12SpecToString14spec_to_string|3fmt3num.*[mlyxjion]Nt\w*7Display3fmt|3fmt5floatdN.*7Display3fmt|3num11float_parsedN.*8from_str)(Cs\w+)?(\.\d+)?$')
def strip(src, dst):
    """turn the functions the executor models (allocator, panic entry, hasher) into declarations"""
    out = []; skip = False; kept = []
    with open(src) as f:
        for l in f:
            if skip:
                if l.startswith('}'): skip = False
                continue
            if l.startswith('define '):
                m = re.match(r'define (.*?)@([\w.$]+|"[^"]*")\(', l)
                if m and FLOAT.search(m.group(2)): kept.append(m.group(2)); l = l.replace(' unnamed_addr ', ' unnamed_addr noinline ', 1).replace('define internal ', 'define ', 1); assert ' noinline ' in l
                if m and STRIP.search(m.group(2)):
                    l2 = 'declare ' + l[7:].rstrip()
                    assert l2.endswith('{'); l2 = l2[:-1]
                    h, t = l2.split('@', 1)
                    for w in ('internal ', 'linkonce_odr ', 'hidden ', 'weak ', 'private ', 'dso_local '): h = h.replace(w, '')
                    l2 = h + '@' + t
                    l2 = re.sub(r'![\w.]+ !\d+', '', l2); l2 = re.sub(r'personality ptr @\w+', '', l2); l2 = re.sub(r'comdat(\(\$[\w.]+\))?', '', l2)
                    out.append(l2 + '\n'); skip = True; continue
            out.append(l)
    with open(dst, 'w') as f: f.writelines(out)
    return kept

def build_ir(crate, fns, out, opt='default<O2>'):
    deps = build_bc(crate)
    std = os.path.join(BUILD, 'std-' + crate + '.bc')
    if not os.path.exists(std): std_bc(deps, std)
    bcs = [f for f in glob.glob(deps + '/*.bc') if re.match(r'(json|harness|sym)', os.path.basename(f))]
    w = out + '.tmp'
    sh([LLVM + '/llvm-link', *sorted(bcs), std, '-o', w + '.bc'], 'linking')
    keep = ','.join(fns + ['__stub_fmt_f64', '__stub_fmt_int', '__stub_int_string', '__stub_parse_f64'])
    sh([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, w + '.bc', '-S', '-o', w + '.ll'], 'trimming')
    keep = ','.join([keep] + strip(w + '.ll', w + '2.ll'))
    sh([LLVM + '/opt', f'-passes=internalize,globaldce,{opt},globaldce', '-internalize-public-api-list=' + keep, '-vectorize-loops=false', '-vectorize-slp=false', '-S', w + '2.ll', '-o', out], 'optimising')
    for x in (w + '.bc', w + '.ll', w + '2.ll'): os.remove(x)

def build_native(crate):
    t = os.path.join(BUILD, 'native-' + crate)
    forget(t, ())
    e = env(RUSTC_WRAPPER=os.path.join(VERIF, 'tools/rustc-wrap.sh'))
    sh(['cargo', 'build', '--offline', '--profile', 'native', '--features', 'native', '--bin', 'replay', '--target-dir', t], 'building the native replay', cwd=os.path.join(VERIF, crate), env=e)
    return os.path.join(t, 'native', 'replay')

def lock():
    f = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(f, fcntl.LOCK_EX); return f

def repo_builds():
    t = os.path.join(BUILD, 'repo')
    r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', t], cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(RUSTC_WRAPPER=os.path.join(VERIF, 'tools/rustc-wrap.sh')))
    return r.returncode == 0

def derive_blames(out):
    """is the failure in the code the derive macros were asked to write?"""
    return 'harness_derive' in out and ('derive' in out or 'JsonEncode' in out or 'JsonDecode' in out)
