#!/usr/bin/env python3
"""Turns /repo/ublox_derive/src into an ordinary library (build/derive): the sources are copied
unchanged except that the proc-macro attributes are taken off the entry points and
`proc_macro` is proc_macro2."""
import os, re, shutil, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(repo='/repo', out=f'{ROOT}/build/derive'):
    src = f'{repo}/ublox_derive/src'
    os.makedirs(out, exist_ok=True)
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            want[os.path.relpath(p, src)] = open(p).read()
    lib = want['lib.rs']
    lib = re.sub(r'(?m)^\s*#\[proc_macro(_attribute|_derive\([^\]]*\))?\]\s*$', '', lib)
    lib = re.sub(r'(?m)^\s*(pub\s+)?extern\s+crate\s+proc_macro\s*;', 'mod proc_macro { #[allow(unused_imports)] pub use proc_macro2::{Span, TokenStream, TokenTree}; }', lib)
    if 'mod proc_macro {' not in lib:
        # inner attributes and doc comments stay first
        lib += '\nmod proc_macro { #[allow(unused_imports)] pub use proc_macro2::{Span, TokenStream, TokenTree}; }\n'
    lib = re.sub(r'(?<![\w:])::proc_macro::', 'crate::proc_macro::', lib)
    want['lib.rs'] = lib
    want2 = {f'src/{k}': v for k, v in want.items()}
    want2['Cargo.toml'] = f'''[package]
name = "derive_lib"
version = "0.1.0"
edition = "2021"

[dependencies]
proc-macro2 = {{ version = "1.0", default-features = false }}
quote = {{ version = "1.0", default-features = false }}
syn = {{ path = "{ROOT}/harness_derive/synshim", package = "synshim" }}
'''
    have = set()
    for d, _, fs in os.walk(f'{out}/src'):
        for f in fs:
            have.add(os.path.relpath(os.path.join(d, f), out))
    for f in have - set(want2):
        os.remove(f'{out}/{f}')
    for k, v in want2.items():
        p = f'{out}/{k}'
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != v:
            open(p, 'w').write(v)
if __name__ == '__main__':
    main(*sys.argv[1:])
