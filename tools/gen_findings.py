#!/usr/bin/env python3
"""Writes /verif/known-findings.txt."""
import subprocess, os
F = [  # recorded, not repaired
 ('C02', '[a]: b\\n', '+MAP +SEQ =a -SEQ =b -MAP', 'a flow collection as an implicit mapping key is not supported: the stream ends with an error'),
 ('C02', 'x: 1\\n[a]: b\\n', '+MAP =x =1 +SEQ =a -SEQ =b -MAP', 'the same in a later entry of a block mapping'),
 ('C02', '{[a]: b}\\n', '+MAP +SEQ =a -SEQ =b -MAP', 'the same inside a flow mapping'),
 ('C02', '{{a: b}: c}\\n', '+MAP +MAP =a =b -MAP =c -MAP', 'a flow mapping as an implicit key of a flow mapping'),
]
FIX = {
 '8f16e64': ('C08', "a multi byte character in a scalar or comment was sliced in its middle (panic, or bytes of it treated as characters)"),
 'e260db0': ('C08', "a block scalar without any content ('|' at the end of the stream, or only blank lines) panicked"),
 'aa25e58': ('C01', "a borrowed block scalar kept its CR or CRLF final line break while the copied one had LF"),
 '9373a3f': ('C08', "'\\\\ud800' and '\\\\UFFFFFFFF' escapes panicked or produced invalid characters"),
 'd55a254': ('C08', "a lazy plain scalar ending next to a multi byte character was sliced in its middle"),
 '46100f4': ('C02', "'\"a\\\\\\\\\"' (an escaped backslash before the closing quote) never ended"),
 '7290927': ('C08', "'[a: b c: d]' asserted instead of giving an error"),
 'c69aa62': ('C11', "a character split between two reads was rejected as invalid UTF-8"),
 'ababab2': ('C04', "after an error events were produced again, or the same error forever"),
 'b432985': ('C12', "a stream given to a second event producer panicked or ended silently"),
 '2b54fbf': ('C07', "evaluating a lazy block scalar pulled more bytes from the stream, losing events"),
 '654c034': ('C02', "a block scalar's first content line was read as part of its header"),
 '52e7c94': ('C15', "a document began with the indentation the previous one ended with"),
 'b25e6d8': ('C02', "the first line of an explicitly indented block scalar kept its indentation"),
 '176f15f': ('C08', "'%ff' escapes in tags produced invalid text or panicked"),
 'b070a0b': ('C02', "verbatim tags '!<...>' were rejected"),
 '648acaa': ('C02', "an anchor followed by a tab, or at the end of the stream, was rejected"),
 '90a1896': ('C02', "a verbatim tag needed a tag directive for its handle"),
 'e7427f5': ('C02', "tag directive prefixes were rejected for valid uri characters"),
 '8eb40f7': ('C02', "'%TAG !! x' did not override the default handle"),
 'c87ecc8': ('C02', "a line of exactly a block scalar's indentation was content, not blank"),
 'c7e8240': ('C02', "a plain root scalar could not continue in the first column"),
 'e4d9363': ('C02', "a less indented line ended a sequence which was not a zero indented one"),
 'f38ee35': ('C02', "a node tag at the end of the stream was rejected"),
 '42ea502': ('C06', "a plain scalar followed by a line break was copied"),
 'b0162cc': ('C15', "a second '...' after an explicitly ended document was an error"),
 'a24ce06': ('C02', "line breaks around more indented lines of folded scalars were folded"),
 'cafb955': ('C18', "a token longer than the buffer was scanned again for every read of it: quadratic cost"),
 'aaa978a': ('C02', "in '{a:, b: c}' and '{a:}' the ':' was read as part of the key"),
 '26fd661': ('C02', "'--- {: a}' and '[: a]' were rejected"),
 'cbeb86e': ('C03', "an error's source was the one below the error the library was given"),
 'cdb92bc': ('C02', "in '[x, &a {: b}]' the ':' completed a key saved at the anchor: the node's properties went to another node"),
 'd457607': ('C02', "'{?\\n a : b}' was rejected: the line break allowed another key"),
 'de20e2f': ('C22', "a stray ']' or '}' was reported as an integer overflow of category Data"),
 '1f8e7d7': ('C02', "implicit keys were limited to 1024 bytes, not characters"),
 '792d741': ('C02', "a byte order mark at the beginning of a stream was read as content"),
 '6c08fff': ('C02', "a stream starting with '...' was rejected"),
 '26456e9': ('C20', "text behind '...' on its line was accepted as a document, as in 'a\\n... b'"),
 'f7b88b4': ('C02', "in block mappings a value without a key was rejected, as in ': a'"),
 'b12d00b': ('C02', "anchor and alias names with '-' or '_' in them were rejected"),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'], capture_output=True, text=True).stdout
o = ['# Genuine defects of dolysis/yary found by these checks.',
     '# finding: recorded, still there; identified by the input. The checks print',
     '#   a KNOWN-FINDING line while the input is not read as written.',
     '# fixed: repaired in /repo by the commit; suppresses nothing.', '']
for p, i, w, t in F:
    o.append('finding: property=%s input="%s" written="%s" %s' % (p, i, w, t))
o.append('')
n = 0
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        k = h[:7]
        if k not in FIX: raise SystemExit('no entry for ' + l)
        p, t = FIX[k]
        o.append('fixed: property=%s %s %s' % (p, h, t)); n += 1
open(os.path.join(here, 'known-findings.txt'), 'w').write('\n'.join(o) + '\n')
print(n, 'fixes', len(F), 'findings')
