// XML 1.0 name tables (written by tools/mkchars.py; independent of the code under test).
pub open spec fn xml_letter(u: u32) -> bool {
    ||| 0x0041 <= u && u <= 0x005A
    ||| 0x0061 <= u && u <= 0x007A
    ||| 0x00C0 <= u && u <= 0x00D6
    ||| 0x00D8 <= u && u <= 0x00F6
    ||| 0x00F8 <= u && u <= 0x0131
    ||| 0x0134 <= u && u <= 0x013E
    ||| 0x0141 <= u && u <= 0x0148
    ||| 0x014A <= u && u <= 0x017E
    ||| 0x0180 <= u && u <= 0x01C3
    ||| 0x01CD <= u && u <= 0x01F0
    ||| 0x01F4 <= u && u <= 0x01F5
    ||| 0x01FA <= u && u <= 0x0217
    ||| 0x0250 <= u && u <= 0x02A8
    ||| 0x02BB <= u && u <= 0x02C1
    ||| 0x0386 <= u && u <= 0x0386
    ||| 0x0388 <= u && u <= 0x038A
    ||| 0x038C <= u && u <= 0x038C
    ||| 0x038E <= u && u <= 0x03A1
    ||| 0x03A3 <= u && u <= 0x03CE
    ||| 0x03D0 <= u && u <= 0x03D6
    ||| 0x03DA <= u && u <= 0x03DA
    ||| 0x03DC <= u && u <= 0x03DC
    ||| 0x03DE <= u && u <= 0x03DE
    ||| 0x03E0 <= u && u <= 0x03E0
    ||| 0x03E2 <= u && u <= 0x03F3
    ||| 0x0401 <= u && u <= 0x040C
    ||| 0x040E <= u && u <= 0x044F
    ||| 0x0451 <= u && u <= 0x045C
    ||| 0x045E <= u && u <= 0x0481
    ||| 0x0490 <= u && u <= 0x04C4
    ||| 0x04C7 <= u && u <= 0x04C8
    ||| 0x04CB <= u && u <= 0x04CC
    ||| 0x04D0 <= u && u <= 0x04EB
    ||| 0x04EE <= u && u <= 0x04F5
    ||| 0x04F8 <= u && u <= 0x04F9
    ||| 0x0531 <= u && u <= 0x0556
    ||| 0x0559 <= u && u <= 0x0559
    ||| 0x0561 <= u && u <= 0x0586
    ||| 0x05D0 <= u && u <= 0x05EA
    ||| 0x05F0 <= u && u <= 0x05F2
    ||| 0x0621 <= u && u <= 0x063A
    ||| 0x0641 <= u && u <= 0x064A
    ||| 0x0671 <= u && u <= 0x06B7
    ||| 0x06BA <= u && u <= 0x06BE
    ||| 0x06C0 <= u && u <= 0x06CE
    ||| 0x06D0 <= u && u <= 0x06D3
    ||| 0x06D5 <= u && u <= 0x06D5
    ||| 0x06E5 <= u && u <= 0x06E6
    ||| 0x0905 <= u && u <= 0x0939
    ||| 0x093D <= u && u <= 0x093D
    ||| 0x0958 <= u && u <= 0x0961
    ||| 0x0985 <= u && u <= 0x098C
    ||| 0x098F <= u && u <= 0x0990
    ||| 0x0993 <= u && u <= 0x09A8
    ||| 0x09AA <= u && u <= 0x09B0
    ||| 0x09B2 <= u && u <= 0x09B2
    ||| 0x09B6 <= u && u <= 0x09B9
    ||| 0x09DC <= u && u <= 0x09DD
    ||| 0x09DF <= u && u <= 0x09E1
    ||| 0x09F0 <= u && u <= 0x09F1
    ||| 0x0A05 <= u && u <= 0x0A0A
    ||| 0x0A0F <= u && u <= 0x0A10
    ||| 0x0A13 <= u && u <= 0x0A28
    ||| 0x0A2A <= u && u <= 0x0A30
    ||| 0x0A32 <= u && u <= 0x0A33
    ||| 0x0A35 <= u && u <= 0x0A36
    ||| 0x0A38 <= u && u <= 0x0A39
    ||| 0x0A59 <= u && u <= 0x0A5C
    ||| 0x0A5E <= u && u <= 0x0A5E
    ||| 0x0A72 <= u && u <= 0x0A74
    ||| 0x0A85 <= u && u <= 0x0A8B
    ||| 0x0A8D <= u && u <= 0x0A8D
    ||| 0x0A8F <= u && u <= 0x0A91
    ||| 0x0A93 <= u && u <= 0x0AA8
    ||| 0x0AAA <= u && u <= 0x0AB0
    ||| 0x0AB2 <= u && u <= 0x0AB3
    ||| 0x0AB5 <= u && u <= 0x0AB9
    ||| 0x0ABD <= u && u <= 0x0ABD
    ||| 0x0AE0 <= u && u <= 0x0AE0
    ||| 0x0B05 <= u && u <= 0x0B0C
    ||| 0x0B0F <= u && u <= 0x0B10
    ||| 0x0B13 <= u && u <= 0x0B28
    ||| 0x0B2A <= u && u <= 0x0B30
    ||| 0x0B32 <= u && u <= 0x0B33
    ||| 0x0B36 <= u && u <= 0x0B39
    ||| 0x0B3D <= u && u <= 0x0B3D
    ||| 0x0B5C <= u && u <= 0x0B5D
    ||| 0x0B5F <= u && u <= 0x0B61
    ||| 0x0B85 <= u && u <= 0x0B8A
    ||| 0x0B8E <= u && u <= 0x0B90
    ||| 0x0B92 <= u && u <= 0x0B95
    ||| 0x0B99 <= u && u <= 0x0B9A
    ||| 0x0B9C <= u && u <= 0x0B9C
    ||| 0x0B9E <= u && u <= 0x0B9F
    ||| 0x0BA3 <= u && u <= 0x0BA4
    ||| 0x0BA8 <= u && u <= 0x0BAA
    ||| 0x0BAE <= u && u <= 0x0BB5
    ||| 0x0BB7 <= u && u <= 0x0BB9
    ||| 0x0C05 <= u && u <= 0x0C0C
    ||| 0x0C0E <= u && u <= 0x0C10
    ||| 0x0C12 <= u && u <= 0x0C28
    ||| 0x0C2A <= u && u <= 0x0C33
    ||| 0x0C35 <= u && u <= 0x0C39
    ||| 0x0C60 <= u && u <= 0x0C61
    ||| 0x0C85 <= u && u <= 0x0C8C
    ||| 0x0C8E <= u && u <= 0x0C90
    ||| 0x0C92 <= u && u <= 0x0CA8
    ||| 0x0CAA <= u && u <= 0x0CB3
    ||| 0x0CB5 <= u && u <= 0x0CB9
    ||| 0x0CDE <= u && u <= 0x0CDE
    ||| 0x0CE0 <= u && u <= 0x0CE1
    ||| 0x0D05 <= u && u <= 0x0D0C
    ||| 0x0D0E <= u && u <= 0x0D10
    ||| 0x0D12 <= u && u <= 0x0D28
    ||| 0x0D2A <= u && u <= 0x0D39
    ||| 0x0D60 <= u && u <= 0x0D61
    ||| 0x0E01 <= u && u <= 0x0E2E
    ||| 0x0E30 <= u && u <= 0x0E30
    ||| 0x0E32 <= u && u <= 0x0E33
    ||| 0x0E40 <= u && u <= 0x0E45
    ||| 0x0E81 <= u && u <= 0x0E82
    ||| 0x0E84 <= u && u <= 0x0E84
    ||| 0x0E87 <= u && u <= 0x0E88
    ||| 0x0E8A <= u && u <= 0x0E8A
    ||| 0x0E8D <= u && u <= 0x0E8D
    ||| 0x0E94 <= u && u <= 0x0E97
    ||| 0x0E99 <= u && u <= 0x0E9F
    ||| 0x0EA1 <= u && u <= 0x0EA3
    ||| 0x0EA5 <= u && u <= 0x0EA5
    ||| 0x0EA7 <= u && u <= 0x0EA7
    ||| 0x0EAA <= u && u <= 0x0EAB
    ||| 0x0EAD <= u && u <= 0x0EAE
    ||| 0x0EB0 <= u && u <= 0x0EB0
    ||| 0x0EB2 <= u && u <= 0x0EB3
    ||| 0x0EBD <= u && u <= 0x0EBD
    ||| 0x0EC0 <= u && u <= 0x0EC4
    ||| 0x0F40 <= u && u <= 0x0F47
    ||| 0x0F49 <= u && u <= 0x0F69
    ||| 0x10A0 <= u && u <= 0x10C5
    ||| 0x10D0 <= u && u <= 0x10F6
    ||| 0x1100 <= u && u <= 0x1100
    ||| 0x1102 <= u && u <= 0x1103
    ||| 0x1105 <= u && u <= 0x1107
    ||| 0x1109 <= u && u <= 0x1109
    ||| 0x110B <= u && u <= 0x110C
    ||| 0x110E <= u && u <= 0x1112
    ||| 0x113C <= u && u <= 0x113C
    ||| 0x113E <= u && u <= 0x113E
    ||| 0x1140 <= u && u <= 0x1140
    ||| 0x114C <= u && u <= 0x114C
    ||| 0x114E <= u && u <= 0x114E
    ||| 0x1150 <= u && u <= 0x1150
    ||| 0x1154 <= u && u <= 0x1155
    ||| 0x1159 <= u && u <= 0x1159
    ||| 0x115F <= u && u <= 0x1161
    ||| 0x1163 <= u && u <= 0x1163
    ||| 0x1165 <= u && u <= 0x1165
    ||| 0x1167 <= u && u <= 0x1167
    ||| 0x1169 <= u && u <= 0x1169
    ||| 0x116D <= u && u <= 0x116E
    ||| 0x1172 <= u && u <= 0x1173
    ||| 0x1175 <= u && u <= 0x1175
    ||| 0x119E <= u && u <= 0x119E
    ||| 0x11A8 <= u && u <= 0x11A8
    ||| 0x11AB <= u && u <= 0x11AB
    ||| 0x11AE <= u && u <= 0x11AF
    ||| 0x11B7 <= u && u <= 0x11B8
    ||| 0x11BA <= u && u <= 0x11BA
    ||| 0x11BC <= u && u <= 0x11C2
    ||| 0x11EB <= u && u <= 0x11EB
    ||| 0x11F0 <= u && u <= 0x11F0
    ||| 0x11F9 <= u && u <= 0x11F9
    ||| 0x1E00 <= u && u <= 0x1E9B
    ||| 0x1EA0 <= u && u <= 0x1EF9
    ||| 0x1F00 <= u && u <= 0x1F15
    ||| 0x1F18 <= u && u <= 0x1F1D
    ||| 0x1F20 <= u && u <= 0x1F45
    ||| 0x1F48 <= u && u <= 0x1F4D
    ||| 0x1F50 <= u && u <= 0x1F57
    ||| 0x1F59 <= u && u <= 0x1F59
    ||| 0x1F5B <= u && u <= 0x1F5B
    ||| 0x1F5D <= u && u <= 0x1F5D
    ||| 0x1F5F <= u && u <= 0x1F7D
    ||| 0x1F80 <= u && u <= 0x1FB4
    ||| 0x1FB6 <= u && u <= 0x1FBC
    ||| 0x1FBE <= u && u <= 0x1FBE
    ||| 0x1FC2 <= u && u <= 0x1FC4
    ||| 0x1FC6 <= u && u <= 0x1FCC
    ||| 0x1FD0 <= u && u <= 0x1FD3
    ||| 0x1FD6 <= u && u <= 0x1FDB
    ||| 0x1FE0 <= u && u <= 0x1FEC
    ||| 0x1FF2 <= u && u <= 0x1FF4
    ||| 0x1FF6 <= u && u <= 0x1FFC
    ||| 0x2126 <= u && u <= 0x2126
    ||| 0x212A <= u && u <= 0x212B
    ||| 0x212E <= u && u <= 0x212E
    ||| 0x2180 <= u && u <= 0x2182
    ||| 0x3007 <= u && u <= 0x3007
    ||| 0x3021 <= u && u <= 0x3029
    ||| 0x3041 <= u && u <= 0x3094
    ||| 0x30A1 <= u && u <= 0x30FA
    ||| 0x3105 <= u && u <= 0x312C
    ||| 0x4E00 <= u && u <= 0x9FA5
    ||| 0xAC00 <= u && u <= 0xD7A3
}
pub open spec fn xml_digit(u: u32) -> bool {
    ||| 0x0030 <= u && u <= 0x0039
    ||| 0x0660 <= u && u <= 0x0669
    ||| 0x06F0 <= u && u <= 0x06F9
    ||| 0x0966 <= u && u <= 0x096F
    ||| 0x09E6 <= u && u <= 0x09EF
    ||| 0x0A66 <= u && u <= 0x0A6F
    ||| 0x0AE6 <= u && u <= 0x0AEF
    ||| 0x0B66 <= u && u <= 0x0B6F
    ||| 0x0BE7 <= u && u <= 0x0BEF
    ||| 0x0C66 <= u && u <= 0x0C6F
    ||| 0x0CE6 <= u && u <= 0x0CEF
    ||| 0x0D66 <= u && u <= 0x0D6F
    ||| 0x0E50 <= u && u <= 0x0E59
    ||| 0x0ED0 <= u && u <= 0x0ED9
    ||| 0x0F20 <= u && u <= 0x0F29
}
pub open spec fn xml_combining(u: u32) -> bool {
    ||| 0x0300 <= u && u <= 0x0345
    ||| 0x0360 <= u && u <= 0x0361
    ||| 0x0483 <= u && u <= 0x0486
    ||| 0x0591 <= u && u <= 0x05A1
    ||| 0x05A3 <= u && u <= 0x05B9
    ||| 0x05BB <= u && u <= 0x05BD
    ||| 0x05BF <= u && u <= 0x05BF
    ||| 0x05C1 <= u && u <= 0x05C2
    ||| 0x05C4 <= u && u <= 0x05C4
    ||| 0x064B <= u && u <= 0x0652
    ||| 0x0670 <= u && u <= 0x0670
    ||| 0x06D6 <= u && u <= 0x06E4
    ||| 0x06E7 <= u && u <= 0x06E8
    ||| 0x06EA <= u && u <= 0x06ED
    ||| 0x0901 <= u && u <= 0x0903
    ||| 0x093C <= u && u <= 0x093C
    ||| 0x093E <= u && u <= 0x094D
    ||| 0x0951 <= u && u <= 0x0954
    ||| 0x0962 <= u && u <= 0x0963
    ||| 0x0981 <= u && u <= 0x0983
    ||| 0x09BC <= u && u <= 0x09BC
    ||| 0x09BE <= u && u <= 0x09C4
    ||| 0x09C7 <= u && u <= 0x09C8
    ||| 0x09CB <= u && u <= 0x09CD
    ||| 0x09D7 <= u && u <= 0x09D7
    ||| 0x09E2 <= u && u <= 0x09E3
    ||| 0x0A02 <= u && u <= 0x0A02
    ||| 0x0A3C <= u && u <= 0x0A3C
    ||| 0x0A3E <= u && u <= 0x0A42
    ||| 0x0A47 <= u && u <= 0x0A48
    ||| 0x0A4B <= u && u <= 0x0A4D
    ||| 0x0A70 <= u && u <= 0x0A71
    ||| 0x0A81 <= u && u <= 0x0A83
    ||| 0x0ABC <= u && u <= 0x0ABC
    ||| 0x0ABE <= u && u <= 0x0AC5
    ||| 0x0AC7 <= u && u <= 0x0AC9
    ||| 0x0ACB <= u && u <= 0x0ACD
    ||| 0x0B01 <= u && u <= 0x0B03
    ||| 0x0B3C <= u && u <= 0x0B3C
    ||| 0x0B3E <= u && u <= 0x0B43
    ||| 0x0B47 <= u && u <= 0x0B48
    ||| 0x0B4B <= u && u <= 0x0B4D
    ||| 0x0B56 <= u && u <= 0x0B57
    ||| 0x0B82 <= u && u <= 0x0B83
    ||| 0x0BBE <= u && u <= 0x0BC2
    ||| 0x0BC6 <= u && u <= 0x0BC8
    ||| 0x0BCA <= u && u <= 0x0BCD
    ||| 0x0BD7 <= u && u <= 0x0BD7
    ||| 0x0C01 <= u && u <= 0x0C03
    ||| 0x0C3E <= u && u <= 0x0C44
    ||| 0x0C46 <= u && u <= 0x0C48
    ||| 0x0C4A <= u && u <= 0x0C4D
    ||| 0x0C55 <= u && u <= 0x0C56
    ||| 0x0C82 <= u && u <= 0x0C83
    ||| 0x0CBE <= u && u <= 0x0CC4
    ||| 0x0CC6 <= u && u <= 0x0CC8
    ||| 0x0CCA <= u && u <= 0x0CCD
    ||| 0x0CD5 <= u && u <= 0x0CD6
    ||| 0x0D02 <= u && u <= 0x0D03
    ||| 0x0D3E <= u && u <= 0x0D43
    ||| 0x0D46 <= u && u <= 0x0D48
    ||| 0x0D4A <= u && u <= 0x0D4D
    ||| 0x0D57 <= u && u <= 0x0D57
    ||| 0x0E31 <= u && u <= 0x0E31
    ||| 0x0E34 <= u && u <= 0x0E3A
    ||| 0x0E47 <= u && u <= 0x0E4E
    ||| 0x0EB1 <= u && u <= 0x0EB1
    ||| 0x0EB4 <= u && u <= 0x0EB9
    ||| 0x0EBB <= u && u <= 0x0EBC
    ||| 0x0EC8 <= u && u <= 0x0ECD
    ||| 0x0F18 <= u && u <= 0x0F19
    ||| 0x0F35 <= u && u <= 0x0F35
    ||| 0x0F37 <= u && u <= 0x0F37
    ||| 0x0F39 <= u && u <= 0x0F39
    ||| 0x0F3E <= u && u <= 0x0F3F
    ||| 0x0F71 <= u && u <= 0x0F84
    ||| 0x0F86 <= u && u <= 0x0F8B
    ||| 0x0F90 <= u && u <= 0x0F95
    ||| 0x0F97 <= u && u <= 0x0F97
    ||| 0x0F99 <= u && u <= 0x0FAD
    ||| 0x0FB1 <= u && u <= 0x0FB7
    ||| 0x0FB9 <= u && u <= 0x0FB9
    ||| 0x20D0 <= u && u <= 0x20DC
    ||| 0x20E1 <= u && u <= 0x20E1
    ||| 0x302A <= u && u <= 0x302F
    ||| 0x3099 <= u && u <= 0x309A
}
pub open spec fn xml_extender(u: u32) -> bool {
    ||| 0x00B7 <= u && u <= 0x00B7
    ||| 0x02D0 <= u && u <= 0x02D0
    ||| 0x02D1 <= u && u <= 0x02D1
    ||| 0x0387 <= u && u <= 0x0387
    ||| 0x0640 <= u && u <= 0x0640
    ||| 0x0E46 <= u && u <= 0x0E46
    ||| 0x0EC6 <= u && u <= 0x0EC6
    ||| 0x3005 <= u && u <= 0x3005
    ||| 0x3031 <= u && u <= 0x3035
    ||| 0x309D <= u && u <= 0x309E
    ||| 0x30FC <= u && u <= 0x30FE
}
/// [5] the first character of a Name
pub open spec fn xml_name_start(u: u32) -> bool { xml_letter(u) || u == '_' as u32 || u == ':' as u32 }
/// [4] NameChar
pub open spec fn xml_name_char(u: u32) -> bool { xml_letter(u) || xml_digit(u) || u == '.' as u32 || u == '-' as u32 || u == '_' as u32 || u == ':' as u32 || xml_combining(u) || xml_extender(u) }
