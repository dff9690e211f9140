#!/usr/bin/env python3
"""Regenerate src/registry.rs: the list of harnesses, by scanning src/c*.rs."""
import re, os, sys
here = os.path.dirname(os.path.abspath(__file__))
PAT = re.compile(r'^\s*(?:[a-z_0-9]+!\s*[({]\s*|pub fn )((?:p|b|pt|bt)_\w+)\s*[,;(]', re.M)

def harnesses(src):
    out = []
    for f in sorted(os.listdir(src)):
        if re.fullmatch(r'[a-z]\d\d\w*\.rs', f):
            m = f[:-3]
            text = open(os.path.join(src, f)).read()
            # Shared harnesses are included by several modules.
            text = re.sub(r'^include!\("([\w.]+)"\);', lambda i: open(os.path.join(src, i[1])).read(), text, flags=re.M)
            for n in PAT.findall(text):
                out.append((m, n))
    return out

if __name__ == '__main__':
    src = os.path.join(here, 'src') if len(sys.argv) < 2 else sys.argv[1]
    with open(os.path.join(src, 'registry.rs'), 'w') as o:
        o.write('// Generated by gen_registry.py.\n#[cfg(not(kani))]\npub static ALL: &[(&str, fn())] = &[\n')
        for m, n in harnesses(src):
            o.write(f'    #[cfg(feature = "{m.split("_")[0]}")] ("{m}::{n}", crate::{m}::{n}),\n')
        o.write('];\n')
