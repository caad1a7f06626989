"""Mechanical extraction of functions from /repo, redone on every run.

copy(d, file, stubs, strip)   writes d/x_<file>: the current /repo/<file> where
  - every function named in `stubs` keeps its text but its definition is renamed NAME__impl, and calls to NAME
    resolve to a prototype with the same signature, defined by the harness as the callee's contract
    (assert the precondition, havoc the result within the postcondition);
  - for every (function, n, macro) in `loops`, the statement `macro;` is inserted at the start of the body of the
    function's n-th loop: the harness defines it as the loop's contract (first pass: check the invariant, havoc what the
    loop changes, assume invariant and loop condition; second pass: check the invariant, end the path);
  - the #define of every macro named in `strip` is blanked (line count kept), the harness supplies its contract.
Nothing else is changed, added or dropped.
"""
import os, re
REPO = os.environ.get('VF_REPO', '/repo')


def strip_defines(text, names):
    out, skip = [], False
    found = set()
    for l in text.split('\n'):
        m = re.match(r'\s*#\s*define\s+(\w+)', l)
        if not skip and m and m.group(1) in names:
            found.add(m.group(1))
            skip = True
        if skip:
            out.append('')
            skip = l.rstrip().endswith('\\')
        else:
            out.append(l)
    miss = set(names) - found
    if miss:
        raise ValueError('macro not found: %s' % sorted(miss))
    return '\n'.join(out)


def rename_defs(text, names):
    for n in names:
        # definition: the name at nesting level 0, its parameter list, then an opening brace
        pat = re.compile(r'(^[A-Za-z_][^;{}#\n]*?(?:\n[A-Za-z_][^;{}#\n]*?)?)\b%s(\s*\((?:[^(){};]|\([^(){};]*\))*\))(\s*\{)' % re.escape(n), re.M)
        ms = [m for m in pat.finditer(text)]
        if not ms:
            raise ValueError('function not found: ' + n)
        for m in reversed(ms):          # several: variants under #if
            proto = re.sub(r'\s+', ' ', m.group(1)).strip()
            pl = re.sub(r'\s+', ' ', m.group(2))
            text = text[:m.start()] + '%s %s%s; ' % (proto, n, pl) + m.group(1) + n + '__impl' + m.group(2) + m.group(3) + text[m.end():]
    return text


def blank(text):
    """Comments and literals replaced by spaces of the same length, for searching."""
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)


def close(b, i):
    """Index of the bracket closing the one at i."""
    pairs = {'(': ')', '{': '}', '[': ']'}
    o, c, n = b[i], pairs[b[i]], 0
    while True:
        if b[i] == o:
            n += 1
        elif b[i] == c:
            n -= 1
            if n == 0:
                return i
        i += 1


def body(b, func):
    m = re.search(r'^[A-Za-z_][^;{}#]*?\b%s\s*\((?:[^(){};]|\([^(){};]*\))*\)\s*\{' % re.escape(func), b, re.M)
    if not m:
        raise ValueError('function not found: ' + func)
    return m.end() - 1, close(b, m.end() - 1)


def annotate(text, func, n, macro):
    """Put the statement `macro;` at the start of the body of the n-th loop of `func` (loop annotation).
    n can be a regular expression instead: the loop with the shortest body that matches it."""
    b = blank(text)
    s, e = body(b, func)
    k = -1
    best = None
    for m in re.finditer(r'\b(for|while|do)\b', b[s:e]):
        i = s + m.end()
        kw = m.group(1)
        if kw != 'do':
            i = b.index('(', i)
            j = close(b, i) + 1
            if kw == 'while' and re.match(r'\s*;', b[j:]):
                continue                     # the end of a do loop
        else:
            j = i
        k += 1
        g = re.match(r'\s*', b[j:]).end() + j
        f = close(b, g) + 1 if b[g] == '{' else b.index(';', g) + 1
        if (k == n) if isinstance(n, int) else (re.search(n, b[g:f]) and (best is None or f - g < best[1] - best[0])):
            best = (g, f)
    if best is None:
        raise ValueError('loop %s of %s not found' % (n, func))
    g, f = best
    if b[g] == '{':
        return text[:g + 1] + ' ' + macro + '; ' + text[g + 1:]
    return text[:g] + '{ ' + macro + '; ' + text[g:f] + ' }' + text[f:]


def copy(d, fname, stubs=(), strip=(), out=None, sub=(), loops=()):
    t = open(os.path.join(REPO, fname)).read()
    for func, n, macro in loops:
        t = annotate(t, func, n, macro)
    if strip:
        t = strip_defines(t, list(strip))
    if stubs:
        t = rename_defs(t, list(stubs))
    for a, b in sub:
        t, n = re.subn(a, b, t)
        if n == 0:
            raise ValueError('pattern not found: ' + a)
    p = os.path.join(d, out or 'x_' + fname)
    open(p, 'w').write('#line 1 "%s"\n' % os.path.join(REPO, fname) + t)
    return p
