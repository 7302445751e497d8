#!/usr/bin/env python3
"""Writes specs/xmlchars.rs.inc from harness/src/xmlchars.rs (dump of the JDK's Xerces tables) and the
XML 1.0 productions [88] Digit and [89] Extender; CombiningChar is what remains of NameChar."""
import re
src=open('/verif/harness/src/xmlchars.rs').read()
def tab(n):
    b=src.split('pub const %s:'%n)[1].split('];')[0].split('= &[')[1]
    return [(int(a,16),int(c,16)) for a,c in re.findall(r'\((0x[0-9A-F]+), (0x[0-9A-F]+)\)',b)]
START,NAME=tab('START'),tab('NAME')
DIG=[(0x30,0x39),(0x660,0x669),(0x6F0,0x6F9),(0x966,0x96F),(0x9E6,0x9EF),(0xA66,0xA6F),(0xAE6,0xAEF),(0xB66,0xB6F),(0xBE7,0xBEF),(0xC66,0xC6F),(0xCE6,0xCEF),(0xD66,0xD6F),(0xE50,0xE59),(0xED0,0xED9),(0xF20,0xF29)]
EXT=[(0xB7,0xB7),(0x2D0,0x2D0),(0x2D1,0x2D1),(0x387,0x387),(0x640,0x640),(0xE46,0xE46),(0xEC6,0xEC6),(0x3005,0x3005),(0x3031,0x3035),(0x309D,0x309E),(0x30FC,0x30FE)]
S=lambda t:set(x for a,b in t for x in range(a,b+1))
def R(s):
    o=[];
    for x in sorted(s):
        if o and o[-1][1]==x-1: o[-1][1]=x
        else: o.append([x,x])
    return o
letter=S(START)-{ord('_'),ord(':')}
punct={ord(c) for c in '.-_:'}
comb=S(NAME)-letter-S(DIG)-S(EXT)-punct
o="// XML 1.0 name tables (written by tools/mkchars.py; independent of the code under test).\n"
def f(n,t):
    global o
    o+="pub open spec fn %s(u: u32) -> bool {\n"%n+"".join("    ||| 0x%04X <= u && u <= 0x%04X\n"%tuple(r) for r in t)+"}\n"
f('xml_letter',R(letter)); f('xml_digit',DIG); f('xml_combining',R(comb)); f('xml_extender',EXT)
o+="""/// [5] the first character of a Name
pub open spec fn xml_name_start(u: u32) -> bool { xml_letter(u) || u == '_' as u32 || u == ':' as u32 }
/// [4] NameChar
pub open spec fn xml_name_char(u: u32) -> bool { xml_letter(u) || xml_digit(u) || u == '.' as u32 || u == '-' as u32 || u == '_' as u32 || u == ':' as u32 || xml_combining(u) || xml_extender(u) }
"""
open('/verif/specs/xmlchars.rs.inc','w').write(o)
