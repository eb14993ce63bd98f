#!/usr/bin/env python3
"""Compares assumed library contracts with the library.

The specification functions that the assumed contracts of strings, numbers and the placeholder expression are
stated with are translated from the contract files to Rust, text by text, and run against what the standard
library (and the regex crate at the version /repo locks) does: on every text over small alphabets up to a length,
and on random longer ones.  Nothing here depends on /repo's code; it bounds the risk that an assumption is wrong.
"""
import hashlib, json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VX_BUILD', os.path.join(ROOT, '.build'))
WANT = {
    'text_base.rs': ['clen', 'bpos', 'blen', 'blank', 'trim_front', 'trim_back', 'trimmed'],
    'text_spec.rs': ['ident_start', 'ident_more', 'skip_blanks', 'skip_name', 'hole_end', 'hole_name', 'holes'],
    'http_spec.rs': ['find_at', 'first_at', 'find_text', 'split_text', 'split_once_at', 'no_cr', 'lines_of', 'word_len', 'words_of', 'joined', 'digits_value', 'unsigned_of', 'u16_of', 'utf8'],
    'duration_spec.rs': ['u64_of'],
    'lexer_spec.rs': ['is_alpha', 'is_digit'],
}


def functions(text):
    """name -> (signature, body) of the open spec functions of a contract file"""
    out = {}
    for m in re.finditer(r'pub open spec fn (\w+)(\([^{]*?\)\s*->\s*[^{\n]+?)\s*(?:\n\s*decreases[^\n{]*)?\s*\{', text):
        i, d = m.end(), 1
        while d:
            d += {'{': 1, '}': -1}.get(text[i], 0)
            if text[i] in '\'"':
                # a character or text literal
                q = re.compile(r"'(?:\\.|[^\\'])'|\"(?:\\.|[^\\\"])*\"").match(text, i)
                if q:
                    i = q.end()
                    continue
            i += 1
        out[m.group(1)] = (m.group(2), text[m.end():i - 1])
    return out


T = r"(?:'(?:\\.|[^'\\])'|[\w.:]+(?:\([\w ]*\))?)"


def translate(name, sig, body):
    for a, b in [(r'\bint\b', 'i128'), (r'"((?:\\.|[^"\\])*)"@', r'lit("\1")')]:
        sig, body = re.sub(a, b, sig), re.sub(a, b, body)
    body = re.sub(r'!\((%s) (<=?) (%s) (<=?) (%s)\)' % (T, T, T), r'!((\1) \2 (\3) && (\3) \4 (\5))', body)
    body = re.sub(r'(%s) (<=?) (%s) (<=?) (%s)' % (T, T, T), r'((\1) \2 (\3) && (\3) \4 (\5))', body)
    body = body.replace('u64::MAX', 'u64::MAX as i128')
    return 'pub fn %s%s { %s }\n' % (name, sig, body)


def source():
    code = []
    for f, names in WANT.items():
        fs = functions(open(os.path.join(ROOT, 'contracts', f)).read())
        for n in names:
            if n not in fs:
                raise SystemExit('conform: no specification function %s in %s' % (n, f))
            code.append(translate(n, *fs[n]))
    return ''.join(code)


def pattern():
    """the expression the contract of the placeholders is stated for"""
    m = re.search(r'vx_reach_known_pattern\(p: Seq<char>\) -> bool \{ p == "((?:\\\\.|[^"\\\\])*)"@', open(os.path.join(ROOT, 'contracts/text_spec.rs')).read())
    return m.group(1).replace('\\\\', '\\')


def run(force=False):
    """{'functions': n, 'texts': n, 'failure': None or text}, cached by what it depends on"""
    os.makedirs(BUILD, exist_ok=True)
    gen = source()
    crate = os.path.join(ROOT, 'harness', 'conform')
    key = hashlib.sha256((gen + pattern() + open(os.path.join(crate, 'src/main.rs')).read() + open(os.path.join(crate, 'Cargo.toml')).read()).encode()).hexdigest()
    cache = os.path.join(BUILD, 'conform.json')
    if not force and os.path.exists(cache):
        c = json.load(open(cache))
        if c.get('key') == key:
            return c
    out = os.path.join(BUILD, 'conform')
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'spec.rs'), 'w') as fh:
        fh.write(gen)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CONFORM_SPEC=os.path.join(out, 'spec.rs'))
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'run', '-q', '--offline', '--release', '--target-dir', os.path.join(BUILD, 'conform_target'), '--', pattern()], cwd=crate, env=env, capture_output=True, text=True, timeout=600)
    lines = r.stdout.strip().splitlines()
    c = {'key': key, 'functions': sum(len(v) for v in WANT.values())}
    if r.returncode == 0 and lines and lines[-1].startswith('OK '):
        c.update(texts=int(lines[-1].split()[1]), contracts=int(lines[-1].split()[2]), failure=None)
    else:
        c.update(texts=0, contracts=0, failure=(r.stdout[-1500:] + r.stderr[-1500:]))
    json.dump(c, open(cache, 'w'))
    return c


if __name__ == '__main__':
    c = run(force='--force' in sys.argv)
    print(json.dumps({k: v for k, v in c.items() if k != 'key'}, indent=1))
    sys.exit(1 if c['failure'] else 0)
