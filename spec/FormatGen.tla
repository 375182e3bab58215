------------------------------ MODULE FormatGen ------------------------------
(* Calls of format, printed as scripts: arguments | format string.  In       *)
(* format strings and texts ~ ` @ _ stand for characters of 2, 3, 3 and 4      *)
(* bytes, the last two of them two columns wide.                             *)
EXTENDS Format, TLC

CONSTANTS What, Parts, Part      \* of the many floating-point values, those of one part

I(x) == ToString(x)
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "il", "ul"}

\* ---- magnitudes: in decimal or as hexadecimal digits ----------------------------
Nines == <<"9", "99", "999", "9999", "99999", "999999", "9999999", "99999999", "999999999", "9999999999", "99999999999", "999999999999",
           "9999999999999", "99999999999999", "999999999999999", "9999999999999999", "99999999999999999", "999999999999999999", "9999999999999999999">>
Tens == <<"1", "10", "100", "1000", "10000", "100000", "1000000", "10000000", "100000000", "1000000000", "10000000000", "100000000000",
          "1000000000000", "10000000000000", "100000000000000", "1000000000000000", "10000000000000000", "100000000000000000",
          "1000000000000000000", "10000000000000000000">>
Edge == {"0", "5", "42", "65", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
         "9223372036854775807", "9223372036854775808", "18446744073709551615", "1234567890123456789", "7", "8", "15", "16", "63", "64", "511", "512",
         "4095", "4096", "12345", "98765432"}
Huge == {"170141183460469231731687303715884105727", "340282366920938463463374607431768211455", "18446744073709551616",
         "100000000000000000000", "99999999999999999999", "12345678901234567890123456789"}
\* powers of two, each one less, and every pair of decimal digits
RECURSIVE Write(_)
Write(d) == IF d = <<>> THEN "" ELSE I(d[1]) \o Write(Tail(d))
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN <<>> ELSE <<0>> \o Zeros(k - 1)
Power(k) == Write(Dec(<<2^(k % 4)>> \o Zeros(k \div 4)))
Ones(k) == Write(Dec(<<2^(k % 4) - 1>> \o [i \in 1..(k \div 4) |-> 15]))
Pairs == {I(k * 10101) : k \in 0..99}
Plain(z) == {t \o ":" \o sg \o m \o "|{}" : t \in Types, sg \in {"", "-"}, m \in {Power(k) : k \in 0..63} \cup {Ones(k) : k \in 1..63} \cup {I(k) : k \in 0..300}}
            \cup {t \o ":" \o sg \o m \o "|{" \o f \o "}" : t \in {"i32", "u64", "i64"}, sg \in {"", "-"}, f \in {"", ":d", ":20", ":020"}, m \in Pairs}
            \cup {t \o ":" \o sg \o m \o "|{" \o f \o "}" : t \in {"i128", "u128"}, sg \in {"", "-"}, f \in {"", ":x", ":o", ":b"},
                     m \in {Power(k) : k \in 60..127} \cup {Ones(k) : k \in 60..127}}
            \cup {t \o ":" \o m \o "|{" \o f \o "}" : t \in {"u32", "u64"}, f \in {":x", ":X", ":o", ":b", ":#x", ":#010o"},
                     m \in {Power(k) : k \in 0..63} \cup {Ones(k) : k \in 1..63} \cup {"81985529216486895", "18364758544493064720", "305419896", "2596069104"}}
Mags(z) == Edge \cup {Nines[k] : k \in 1..Len(Nines)} \cup {Tens[k] : k \in 1..Len(Tens)}

Specs == {"", ":", ":d", ":x", ":X", ":o", ":b", ":B", ":#x", ":#X", ":#o", ":#b", ":#B", ":#d", ":+", ":+d", ": ", ":-", ":08", ":#012x", ":+07", ":*^9", ":<9",
          ":^8", ":>24", ":0>12", ":<08", ":+#25b", ": 025d", ":~^30", ":#070b", ":030o"}
Braces(s) == "{" \o s \o "}"

Ints(z) == {t \o ":" \o sg \o m \o "|" \o Braces(s) : t \in Types, sg \in {"", "-"}, m \in Mags(0), s \in Specs}
           \cup {t \o ":" \o sg \o m \o "|" \o Braces(s) : t \in {"i128", "u128"}, sg \in {"", "-"}, m \in Huge \cup {"0", "9", "10", "255"}, s \in Specs}

\* ---- every combination of options --------------------------------------------------
Al == {"", "<", ">", "^", "*<", "0>", "~^", "+<", "#^", "->", "`>", "_<", "@^"}
Combos(z) == {a \o "|{:" \o al \o sg \o alt \o zero \o w \o ty \o "}" : a \in {"i32:0", "i32:5", "i32:-5", "u32:255", "i64:-255", "i32:65"}, al \in Al,
                sg \in {"", "+", "-", " "}, alt \in {"", "#"}, zero \in {"", "0"}, w \in {"", "1", "4", "7", "12"}, ty \in {"", "d", "x", "X", "o", "b", "B"}}
Texts(z) == {a \o "|{:" \o al \o zero \o w \o p \o ty \o "}" :
                a \in {"s:", "s:a", "s:hello", "S:", "S:a~b", "S:hello", "V:~", "V:hello", "s:~~~~", "s:a`b", "S:@@", "V:x_y@z`w~", "s:_"}, al \in Al,
                zero \in {""}, w \in {"", "1", "4", "7", "12"}, p \in {"", ".0", ".1", ".2", ".3", ".9"}, ty \in {"", "s"}}
            \cup {a \o "|{:" \o al \o w \o ty \o "}" : a \in {"b:0", "b:1", "c:97", "c:32"}, al \in Al, w \in {"", "1", "4", "7", "12"},
                    ty \in {"", "d", "x", "o", "b"}}
            \cup {a \o "|{:" \o al \o w \o "s}" : a \in {"b:0", "b:1"}, al \in Al, w \in {"", "4", "7"}}
            \cup {a \o "|{:" \o al \o w \o "c}" : a \in {"c:97", "c:57", "i32:65", "u8:97"}, al \in Al, w \in {"", "4", "7"}}
            \cup {a \o "|{:" \o zero \o w \o ty \o "}" : a \in {"b:1", "c:97"}, zero \in {"0", "#", "#0"}, w \in {"", "7"}, ty \in {"d", "x", "X", "o", "b"}}

\* ---- format strings ------------------------------------------------------------------
Long == "a text that is longer than thirty-two characters, "
Strs == {"", "x", "{{", "}}", "{{}}", "{{{}}}", "{}", "{}{}", "{} {}", "{0}", "{1}", "{1}{0}", "{0}{0}{1}", "{0:d}{1}", "a{}b{}c", "{}{{{}}}{}", "{:{}}", "{:>{}}", "{:0{}}", "{:{}}{}",
         "{0:{1}}", "{1:{0}}", "{0:{0}}", "{0:{1}}{0}", "{:*^{}}", "{2}", "{}{}{}", "{0:{2}}", "{:.{}}", "{0:.{1}}", "{:{}.{}}", "{0:{1}.{2}}", "{:5.{}}", "{:{}.1}",
         "{0:.{2}}{1:.{2}}", "{}{1:}", "{:}{:}", "{0:}{1:}", "}}{}{{", "{}}}", "{{{}"}
Bad == {"{", "}", "{}{", "}{", "{0", "{0:", "{:", "{:d", "{:.", "{ }", "{ 0}", "{0 }", "{0,1}", "{-1}", "{00}", "{01}", "{a}", "{:}}", "{}}", "{{}", "{:{}", "{:{", "{:{0}", "{:.}", "{:.s}", "{:5.s}", "{:.{}",
        "{}{0}", "{0}{}", "{0:{}}", "{:{1}}", "{3}", "{}{}{}{}", "{99999999999}", "{:99999999999}", "{:2147483648}", "{:4294967296}", "{:4294967301}", "{2147483648}", "{4294967296}", "{:.2147483648}", "{:.4294967299}", "{:.2147483647}", "{:.99999999999}", "{:d#}", "{:#+}", "{:0+}", "{:5 }", "{:y}", "{:dd}", "{:{a}}", "{:{ }}",
        "{:{}{}}", "{:+-}", "{:*}", "{:{<5}", "{:<<<}", "{:.d}", "{:d5}", "{0:{1}", "{!}", "{0!r}", "{:%}", "{:,}"}
ArgSets == {"", "i32:7", "i32:-7", "s:ab", "S:hello", "b:1", "c:97", "i32:7,i32:9", "i32:7,i32:-2", "s:hello,i32:3", "s:hello,s:x", "i32:7,u64:8", "i32:5,b:1", "i32:5,c:97", "S:hello,i32:2",
            "s:hello,i32:8,i32:3", "i32:1,i32:2,i32:3", "s:hello,i32:8,i32:-3", "s:a,s:b,i32:1", "i32:12,s:b,i32:6", "qv:1 2", "qv:1 2,i32:3", "i64:3,i32:4,i32:5", "u8:3,i32:11"}
Strings(z) == {a \o "|" \o pre \o f \o post : a \in ArgSets, f \in Strs \cup Bad, pre \in {"", Long}, post \in {"", "."}}

\* ---- sequences ------------------------------------------------------------------------
Kinds == {"qa", "qr", "qv", "qb", "qq", "cv", "ca", "bv", "lv", "dv", "wv", "pv"}
Elems == {"", "0", "7", "1 2", "1 0 1", "0 0 0 0", "10 120 30", "1 2 3 4 5 6", "65 66 67"}
Seqs(z) == {k \o ":" \o e \o "|" \o f : k \in Kinds, e \in Elems, f \in {"{}", "{:}", "x{}y", "{{{}}}", Long \o "{}", "{0}{0}", "{:d}", "{:5}", "{:}}", "{1}"}}

\* ---- long output -----------------------------------------------------------------------
Longs(z) == {a \o "|" \o f : a \in {"i32:-12", "u64:18446744073709551615", "s:hello", "S:hello"},
                f \in {"{:499}", "{:500}", "{:501}", "{:>600}", "{:*^1001}", "{0:400}{0:400}", "{:<2000}" \o Long, Long \o Long \o Long \o Long \o Long \o Long \o Long \o Long \o Long \o Long \o "{}"}}
            \cup {a \o "|" \o f : a \in {"i32:-12", "u64:255"}, f \in {"{:0499}", "{:0500}", "{:0501}", "{:#0700b}"}}
            \cup {"rs:" \o I(k) \o "|" \o f : k \in {499, 500, 501, 1500}, f \in {"{}", "{:.490}", "{:>1600}", "x{}"}}

\* ---- floating point: m / 2^sh ------------------------------------------------------------
RECURSIVE Hex(_)
Hex(m) == IF m = 0 THEN <<>> ELSE Append(Hex(m \div 16), m % 16)
FMags == {0, 1, 3, 5, 7, 15, 19, 25, 35, 45, 95, 125, 195, 199, 255, 375, 625, 995, 999, 1005, 9995, 9999, 12345, 65535, 99995, 99999, 999995, 1234567, 9999999,
          10000019, 99999999, 123456789, 268435455, 1000000007, 2147483647}
FShifts == {-90, -60, -30, -10, -4, -1, 0, 1, 2, 3, 4, 5, 7, 10, 13, 17, 24, 30, 60}
Far == {-1000, -333, -332, -200, 100, 300, 331, 332, 1000}
FShort == {"", ":", ":+", ":>20", ":<25", ":^+24", ":*^30", ":025", ": "}
FPrec == {":f", ":.0f", ":.1f", ":.2f", ":.3f", ":.5f", ":.10f", ":.20f", ":.30F", ":e", ":E", ":.0e", ":.1e", ":.2e", ":.3e", ":.15e", ":.20e", ":g", ":G", ":.0g", ":.1g",
          ":.2g", ":.3g", ":.5g", ":.10g", ":.16g", ":.17g", ":.20g", ":.0", ":.1", ":.3", ":.7", ":.15", ":#.0f", ":#.1f", ":#g", ":#.3g", ":#.1g", ":#.0e", ":#.10G",
          ":+.2f", ": .1f", ":-.1f", ":012.3f", ":07.1f", ":+08.1f", ": 05.0f", ":09.2e", ":+015.1e", ":*^14.2f", ":<12.1f", ":>12.1f", ":0>9.1f", ":<010.1f", ":^+13.4g", ":~^13.0f", ":030.10f"}
FBad == {":.f", ":.e", ":d", ":x", ":s", ":c", ":b", ":o", ":.f", ":.2d", ":+s", ":f2", ":#x", ":,f", ":.-1f", ":.99999999999f"}
\* as few digits as the type can tell apart
Short(m, sh, digits) == Len(NoTail(Strip(Decimal([mag |-> Hex(m), sh |-> sh]).d))) <= digits
F(t, sg, m, sh) == t \o ":" \o sg \o I(m) \o " " \o I(sh)
InFloat(m, sh) == m < 16777216 /\ sh <= 100 /\ sh >= -100
Mine(p) == ((p[1] % Parts) + p[2]) % Parts = Part
Floats(z) == {F("f", sg, p[1], p[2]) \o "|" \o Braces(f) : sg \in {"", "-"}, f \in FPrec, p \in {q \in FMags \X FShifts : Mine(q)}}
             \cup {F(p[1], sg, p[2], p[3]) \o "|" \o Braces(f) : sg \in {"", "-"}, f \in FPrec,
                     p \in {q \in {"g"} \X FMags \X {-60, -10, -1, 0, 1, 2, 3, 5, 10, 20, 60} : InFloat(q[2], q[3]) /\ Mine(<<q[2], q[3] + 1>>)}}
             \cup {F("h", sg, q[1], q[2]) \o "|" \o Braces(f) : sg \in {"", "-"}, f \in FPrec,
                     q \in {p \in {0, 1, 25, 375, 99995, 2147483647} \X {-60, -10, 0, 1, 3, 5, 10, 40} : Mine(p)}}
             \cup {F("f", sg, q[1], q[2]) \o "|" \o Braces(f) : sg \in {"", "-"}, f \in FShort, q \in {p \in (FMags \cup 0..300) \X {k \in FShifts : k >= -30 /\ k <= 30} : Mine(p) /\ Short(p[1], p[2], 15)}}
             \cup {F("g", sg, q[1], q[2]) \o "|" \o Braces(f) : sg \in {"", "-"}, f \in FShort, q \in {p \in (FMags \cup 0..300) \X (-10..10) : Mine(p) /\ InFloat(p[1], p[2]) /\ Short(p[1], p[2], 6)}}
             \cup {"f:" \o sg \o m \o " " \o I(sh) \o "|" \o Braces(f) : sg \in {"", "-"}, m \in {Tens[k] : k \in 1..18} \cup {"123000000000000", "12300000000000000", "1230000000000000000"},
                     sh \in 0..2, f \in {"", ":>20", ":025", ":g", ":.20g", ":.16g", ":.17g", ":.1f", ":e"}}
             \cup {F("f", "", m, sh) \o "|" \o Braces(f) : m \in {1, 3, 999999, 2147483647}, sh \in Far, f \in {":e", ":.3e", ":.17g", ":g", ":.2f", ":.30e", ":>30.3e", ":030.2e"}}
             \cup {"f:5 1|" \o Braces(f) : f \in FBad} \cup {"g:5 1|" \o Braces(f) : f \in FBad}
             \cup {k \o ":" \o v \o "|" \o Braces(f) : k \in {"fx", "gx"}, v \in {"inf", "-inf", "nan", "-nan"}, f \in {"", ":f", ":.2f", ":E", ":F", ":g", ":>8", ":<8", ":+", ": ", ":*^9"}}
             \cup {a \o "|" \o f : a \in {"f:21 3,i32:3", "f:-19 2,i32:0", "g:21 3,i32:8", "f:21 3,i32:-1", "f:21 3,s:x"}, f \in {"{:.{}f}", "{:{}}", "{:{}.1f}", "{0:.{1}e}", "{:.{}}", "{} {}", "{1}{0}", "{0:.1f}{0}"}}
             \cup {"f:21 3,i32:9,i32:2|" \o f : f \in {"{:{}.{}f}", "{0:{1}.{2}e}", "{:0{}.{}f}", "{:{}.{}}"}}
             \cup {k \o ":" \o e \o "|" \o f : k \in {"fv", "gv", "fa"}, e \in {"", "0", "8", "1 2", "3 4 5", "-4 4 -12 100"}, f \in {"{}", "x{}y", "{:}", "{:.1f}"}}
             \cup {F("f", "", m, sh) \o "|" \o Braces(f) : m \in {1, 2147483647}, sh \in {-300, 3, 60, 1000}, f \in {":.499f", ":.500f", ":.600e", ":700.1f", ":0501.2f", ":#.520g", ":.1100f"}}

Set == CASE What = "floats" -> Floats(0) [] What = "ints" -> Ints(0) [] What = "plain" -> Plain(0) [] What = "combos" -> Combos(0) [] What = "texts" -> Texts(0) [] What = "strings" -> Strings(0)
         [] What = "seqs" -> Seqs(0) [] OTHER -> Longs(0)

VARIABLE s
Init == s = ""
Next == s = "" /\ \E x \in Set : s' = x /\ PrintT("S|" \o x)
Spec == Init /\ [][Next]_s
=============================================================================
