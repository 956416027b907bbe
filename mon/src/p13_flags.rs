// Every combination of fill/alignment, sign, # and 0 (generated).
macro_rules! table {
    ($name:ident, $tr:ident, $ty:literal) => {
        fn $name(out: &mut dyn Write, k: usize, x: &dyn $tr, w: usize, p: Option<usize>) -> fmt::Result {
            match k {
                0 => one_fmt!(out, x, w, p, $ty, ""),
                1 => one_fmt!(out, x, w, p, $ty, "0"),
                2 => one_fmt!(out, x, w, p, $ty, "#"),
                3 => one_fmt!(out, x, w, p, $ty, "#0"),
                4 => one_fmt!(out, x, w, p, $ty, "+"),
                5 => one_fmt!(out, x, w, p, $ty, "+0"),
                6 => one_fmt!(out, x, w, p, $ty, "+#"),
                7 => one_fmt!(out, x, w, p, $ty, "+#0"),
                8 => one_fmt!(out, x, w, p, $ty, "-"),
                9 => one_fmt!(out, x, w, p, $ty, "-0"),
                10 => one_fmt!(out, x, w, p, $ty, "-#"),
                11 => one_fmt!(out, x, w, p, $ty, "-#0"),
                12 => one_fmt!(out, x, w, p, $ty, "<"),
                13 => one_fmt!(out, x, w, p, $ty, "<0"),
                14 => one_fmt!(out, x, w, p, $ty, "<#"),
                15 => one_fmt!(out, x, w, p, $ty, "<#0"),
                16 => one_fmt!(out, x, w, p, $ty, "<+"),
                17 => one_fmt!(out, x, w, p, $ty, "<+0"),
                18 => one_fmt!(out, x, w, p, $ty, "<+#"),
                19 => one_fmt!(out, x, w, p, $ty, "<+#0"),
                20 => one_fmt!(out, x, w, p, $ty, "<-"),
                21 => one_fmt!(out, x, w, p, $ty, "<-0"),
                22 => one_fmt!(out, x, w, p, $ty, "<-#"),
                23 => one_fmt!(out, x, w, p, $ty, "<-#0"),
                24 => one_fmt!(out, x, w, p, $ty, "^"),
                25 => one_fmt!(out, x, w, p, $ty, "^0"),
                26 => one_fmt!(out, x, w, p, $ty, "^#"),
                27 => one_fmt!(out, x, w, p, $ty, "^#0"),
                28 => one_fmt!(out, x, w, p, $ty, "^+"),
                29 => one_fmt!(out, x, w, p, $ty, "^+0"),
                30 => one_fmt!(out, x, w, p, $ty, "^+#"),
                31 => one_fmt!(out, x, w, p, $ty, "^+#0"),
                32 => one_fmt!(out, x, w, p, $ty, "^-"),
                33 => one_fmt!(out, x, w, p, $ty, "^-0"),
                34 => one_fmt!(out, x, w, p, $ty, "^-#"),
                35 => one_fmt!(out, x, w, p, $ty, "^-#0"),
                36 => one_fmt!(out, x, w, p, $ty, ">"),
                37 => one_fmt!(out, x, w, p, $ty, ">0"),
                38 => one_fmt!(out, x, w, p, $ty, ">#"),
                39 => one_fmt!(out, x, w, p, $ty, ">#0"),
                40 => one_fmt!(out, x, w, p, $ty, ">+"),
                41 => one_fmt!(out, x, w, p, $ty, ">+0"),
                42 => one_fmt!(out, x, w, p, $ty, ">+#"),
                43 => one_fmt!(out, x, w, p, $ty, ">+#0"),
                44 => one_fmt!(out, x, w, p, $ty, ">-"),
                45 => one_fmt!(out, x, w, p, $ty, ">-0"),
                46 => one_fmt!(out, x, w, p, $ty, ">-#"),
                47 => one_fmt!(out, x, w, p, $ty, ">-#0"),
                48 => one_fmt!(out, x, w, p, $ty, "*<"),
                49 => one_fmt!(out, x, w, p, $ty, "*<0"),
                50 => one_fmt!(out, x, w, p, $ty, "*<#"),
                51 => one_fmt!(out, x, w, p, $ty, "*<#0"),
                52 => one_fmt!(out, x, w, p, $ty, "*<+"),
                53 => one_fmt!(out, x, w, p, $ty, "*<+0"),
                54 => one_fmt!(out, x, w, p, $ty, "*<+#"),
                55 => one_fmt!(out, x, w, p, $ty, "*<+#0"),
                56 => one_fmt!(out, x, w, p, $ty, "*<-"),
                57 => one_fmt!(out, x, w, p, $ty, "*<-0"),
                58 => one_fmt!(out, x, w, p, $ty, "*<-#"),
                59 => one_fmt!(out, x, w, p, $ty, "*<-#0"),
                60 => one_fmt!(out, x, w, p, $ty, "*^"),
                61 => one_fmt!(out, x, w, p, $ty, "*^0"),
                62 => one_fmt!(out, x, w, p, $ty, "*^#"),
                63 => one_fmt!(out, x, w, p, $ty, "*^#0"),
                64 => one_fmt!(out, x, w, p, $ty, "*^+"),
                65 => one_fmt!(out, x, w, p, $ty, "*^+0"),
                66 => one_fmt!(out, x, w, p, $ty, "*^+#"),
                67 => one_fmt!(out, x, w, p, $ty, "*^+#0"),
                68 => one_fmt!(out, x, w, p, $ty, "*^-"),
                69 => one_fmt!(out, x, w, p, $ty, "*^-0"),
                70 => one_fmt!(out, x, w, p, $ty, "*^-#"),
                71 => one_fmt!(out, x, w, p, $ty, "*^-#0"),
                72 => one_fmt!(out, x, w, p, $ty, "\u{e9}>"),
                73 => one_fmt!(out, x, w, p, $ty, "\u{e9}>0"),
                74 => one_fmt!(out, x, w, p, $ty, "\u{e9}>#"),
                75 => one_fmt!(out, x, w, p, $ty, "\u{e9}>#0"),
                76 => one_fmt!(out, x, w, p, $ty, "\u{e9}>+"),
                77 => one_fmt!(out, x, w, p, $ty, "\u{e9}>+0"),
                78 => one_fmt!(out, x, w, p, $ty, "\u{e9}>+#"),
                79 => one_fmt!(out, x, w, p, $ty, "\u{e9}>+#0"),
                80 => one_fmt!(out, x, w, p, $ty, "\u{e9}>-"),
                81 => one_fmt!(out, x, w, p, $ty, "\u{e9}>-0"),
                82 => one_fmt!(out, x, w, p, $ty, "\u{e9}>-#"),
                83 => one_fmt!(out, x, w, p, $ty, "\u{e9}>-#0"),
                _ => unreachable!(),
            }
        }
    };
}
const FLAGS: [&str; 84] = ["", "0", "#", "#0", "+", "+0", "+#", "+#0", "-", "-0", "-#", "-#0", "<", "<0", "<#", "<#0", "<+", "<+0", "<+#", "<+#0", "<-", "<-0", "<-#", "<-#0", "^", "^0", "^#", "^#0", "^+", "^+0", "^+#", "^+#0", "^-", "^-0", "^-#", "^-#0", ">", ">0", ">#", ">#0", ">+", ">+0", ">+#", ">+#0", ">-", ">-0", ">-#", ">-#0", "*<", "*<0", "*<#", "*<#0", "*<+", "*<+0", "*<+#", "*<+#0", "*<-", "*<-0", "*<-#", "*<-#0", "*^", "*^0", "*^#", "*^#0", "*^+", "*^+0", "*^+#", "*^+#0", "*^-", "*^-0", "*^-#", "*^-#0", "\u{e9}>", "\u{e9}>0", "\u{e9}>#", "\u{e9}>#0", "\u{e9}>+", "\u{e9}>+0", "\u{e9}>+#", "\u{e9}>+#0", "\u{e9}>-", "\u{e9}>-0", "\u{e9}>-#", "\u{e9}>-#0"];
