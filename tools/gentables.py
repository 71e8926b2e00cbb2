#!/usr/bin/env python3
# One-off: froze the macro, symbol and class tables of the repaired repository
# into harness/tables.go after they were reviewed against the Unicode names and
# the LaTeX documentation. It is not run by any check.
import re
s=open('/repo/macros.go').read()
d=dict(re.findall(r'`(\\[^`]+)`:\s*builtinMacro\("(\w*)"\)',s))
t=open('/repo/internal/tex2unicode/utf8.go').read()
tb={}
for k,v in re.findall(r"^\t\t`([^`]*)`:\s*(\w+|'[^']+'),",t,re.M):
    tb[k]=int(v,0)
for k in tb: d.setdefault('\\'+k,'')
g=open('/repo/mtex/symbols/symbols_gen.go').read()
out=['// Frozen by tools/gentables.py. Do not regenerate from a changed tree.','package main','',
'// macroArgs gives the arguments of each macro of the supported syntax:','// A mandatory, O optional.','var macroArgs = map[string]string{']
for k in sorted(d): out.append('\t%s: "%s",'%('`'+k+'`',d[k]))
out+=['}','','// symRune is the Unicode character of each TeX symbol name.','var symRune = map[string]rune{']
for k in sorted(tb): out.append('\t`%s`: 0x%04X,'%(k,tb[k]))
out+=['}','','// symClass is the frozen classification of symbols.','var symClass = map[string][]string{']
for name,body in re.findall(r'(\w+) = NewSet\((.*?)\n\t\)',g,re.S):
    items=re.findall(r'"((?:[^"\\]|\\.)*)"',body)
    out.append('\t"%s": {%s},'%(name,', '.join('"%s"'%i for i in sorted(items))))
out+=['}']
open('/verif/harness/tables.go','w').write('\n'.join(out)+'\n')
print(len(d),len(tb))
