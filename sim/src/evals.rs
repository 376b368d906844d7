// @generated by gen_sites.py
use crate::p_macro::P;
use stylish::Arguments;

macro_rules! same {
    ($e:expr) => {
        $e
    };
}

#[derive(Debug)]
#[allow(dead_code)]
pub enum E {
    L(&'static str),
    /// argument, through a std trait
    A(usize, bool),
}
use E::*;

pub static EVALS: &[(usize, &[E])] = &[
    (3, &[L("m0;1"), A(2, true), L(": "), A(0, false), A(0, true), L("é"), A(1, true), L("1:")]),
    (5, &[L("é"), A(4, false), A(3, false), A(0, true), L("\r"), A(1, true), A(2, true), A(1, true)]),
    (1, &[L("|"), A(0, false)]),
    (1, &[L("m0;1"), A(0, true), L("'q'"), A(0, false), A(0, false), L("{}"), A(0, true), L("\n")]),
    (1, &[A(0, false), A(0, true), A(0, false)]),
    (3, &[A(0, false), L("''"), A(1, true), L("<b>"), A(1, true), A(1, false), L("x"), A(2, false), A(2, false)]),
    (5, &[L("{"), A(0, true), L("é"), A(1, false), L("&amp;"), A(0, false), A(2, true), A(1, false), A(2, true), A(2, true), L("''"), A(2, false), L("{}"), A(3, true), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(3, true), A(3, false), A(4, false)]),
    (2, &[A(0, true), A(1, true), L("1:"), A(1, false), L("\""), A(0, true), L("|"), A(1, true), L("]")]),
    (4, &[A(0, true), A(1, true), L("\t"), A(2, false), A(3, false)]),
    (2, &[L("\r"), A(1, false), L("<!-- -->"), A(0, false), L("'q'"), A(1, true), L("\\n"), A(0, true)]),
    (5, &[A(0, true), A(4, true), L("é"), A(3, true), L("  "), A(0, true), A(3, true), A(1, true), A(1, false), A(2, false), L("<!-- -->"), A(4, true)]),
    (4, &[L("{}"), A(0, false), A(3, true), A(1, true), L("<!-- -->"), A(0, true), L("&"), A(2, false)]),
    (5, &[L("\u{feff}"), A(4, false), A(2, false), A(3, true), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(3, true), A(3, true), L("]"), A(3, false), L("{}"), A(1, false), L("&amp;"), A(0, true), L("\\")]),
    (1, &[L("\""), A(0, false), A(0, true), A(0, false)]),
    (4, &[L("$0"), A(0, true), A(1, false), L("["), A(2, true), L("\u{feff}"), A(3, false), L(" - ")]),
    (1, &[A(0, true), L(": ")]),
    (3, &[L(": "), A(2, true), A(2, false), A(1, true), A(1, true), L("\n"), A(0, false), L("\n\n")]),
    (4, &[L("\r"), A(0, true), L("\\"), A(0, false), A(0, true), L("<!-- -->"), A(0, true), A(1, true), L("]"), A(2, false), L("\n\n"), A(1, false), L("\r\n"), A(3, true), L("\t")]),
    (3, &[A(1, false), A(0, false), L(" - "), A(2, true), L("é")]),
    (4, &[L("{}"), A(0, false), A(1, true), L("1:"), A(2, true), L("&amp;"), A(1, true), L("1:"), A(2, true), A(3, false)]),
    (2, &[A(0, true), L("&"), A(0, true), A(0, false), A(0, false), A(0, false), L("&amp;"), A(1, false)]),
    (4, &[L("é"), A(3, true), L("  "), A(3, false), A(0, false), L("\\n"), A(1, false), L("\n\n"), A(2, true)]),
    (3, &[A(0, false), L("%%"), A(0, true), A(0, true), L("<b>"), A(1, true), L("\n\n"), A(2, true), A(0, true), L("\\")]),
    (1, &[L("m0;1"), A(0, false)]),
    (1, &[L("\u{feff}"), A(0, false), L("<b>"), A(0, false), A(0, false), L("x"), A(0, false)]),
    (5, &[A(0, true), L("  "), A(1, true), L("é"), A(2, false), L("x"), A(3, false), A(4, true), L("''")]),
    (4, &[A(1, true), A(2, false), A(3, false), L("1:"), A(0, true), L("}")]),
    (2, &[A(0, false), A(1, false), L("<!-- -->")]),
    (4, &[L("}"), A(2, true), A(2, true), L("1:"), A(3, false), A(1, true), L("#;"), A(0, false), A(3, true), L("x"), A(0, false)]),
    (3, &[L("x"), A(0, true), L("\""), A(2, false), L("0123456789012345678901234567890123456789012345678901234567890123456789"), A(1, false)]),
    (3, &[L("'q'"), A(0, true), L("　"), A(1, false), L("  "), A(2, true)]),
    (1, &[L("\\"), A(0, true)]),
    (1, &[L("#;"), A(0, false), L("%%"), A(0, false), L("\n")]),
    (2, &[A(0, true), L(" - "), A(0, true), L("1:"), A(1, true), A(1, true), L("\r\n"), A(1, true)]),
    (2, &[L("x"), A(1, false), A(0, true), L("\r\n"), A(1, true), A(1, true), A(1, false), L("$0"), A(0, true)]),
    (1, &[A(0, true), A(0, false)]),
    (3, &[L(": "), A(2, false), L("é"), A(1, false), A(0, true), A(0, false), L("#;")]),
    (1, &[A(0, true), L("x"), A(0, false), A(0, false)]),
    (4, &[A(2, false), L("é"), A(0, true), L("a{b}c"), A(0, false), A(1, true), L("&amp;"), A(2, true), A(0, false), A(3, false), L(" - "), A(3, true), L("  ")]),
    (4, &[L("é"), A(3, false), L("]"), A(0, true), L("<!-- -->"), A(2, true), L("\n"), A(1, true), L("  ")]),
    (5, &[L("a{b}c"), A(2, true), L("{}"), A(4, false), A(3, false), A(0, true), A(1, false), L("%%"), A(3, false)]),
    (3, &[L("]"), A(2, false), A(1, true), A(0, false), L("}"), A(2, false), L("1:"), A(1, false)]),
    (2, &[L("$0"), A(0, true), A(1, true), A(1, true), L("&amp;"), A(1, true)]),
    (2, &[L("a{b}c"), A(0, true), A(1, true), L("}"), A(1, true)]),
    (2, &[L(" - "), A(0, false), L("1:"), A(1, false), L("[")]),
    (3, &[A(1, true), L("%%"), A(0, false), A(2, true), A(2, false)]),
    (2, &[L("#;"), A(0, true), L("m0;1"), A(0, false), L("["), A(0, true), L("<b>"), A(1, true), A(1, false), L("　")]),
    (5, &[L("\\n"), A(0, false), A(2, true), A(3, false), A(4, true), L("%%"), A(4, true), A(1, true), L("''"), A(1, false), L("\\")]),
    (3, &[L("é"), A(2, false), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(0, false), L(" - "), A(1, true), A(1, false), A(2, true), L(" - ")]),
    (5, &[A(4, false), L("é"), A(2, true), L("#;"), A(0, true), L("\t"), A(3, true), L("''"), A(1, false), A(4, false), A(2, false), L("\u{feff}")]),
    (5, &[A(4, false), L(" - "), A(1, true), L("a{b}c"), A(3, true), A(0, false), A(4, true), L("\t"), A(2, true)]),
    (4, &[L("$0"), A(0, false), L("\\n"), A(0, true), L(": "), A(0, true), A(1, false), A(2, false), L("{"), A(2, false), L("}"), A(2, false), L("{"), A(2, false), L("''"), A(2, true), A(2, true), A(3, false), A(3, false), A(2, true), L("&amp;")]),
    (2, &[A(0, false), L("|"), A(1, true)]),
    (1, &[A(0, false), L("\\"), A(0, false), A(0, true), A(0, true), L("'q'")]),
    (5, &[L("\r\n"), A(2, true), A(0, false), L("\t"), A(3, false), A(0, true), A(4, false), A(1, false)]),
    (5, &[A(1, true), L("|"), A(0, true), L("#;"), A(1, true), A(2, true), A(2, true), L("\\"), A(4, true), A(3, false), L("é"), A(2, true), L("\r\n"), A(3, true), L("<b>"), A(3, false), A(4, false), L("{}"), A(3, true), A(4, true), A(4, true), L("''")]),
    (4, &[L("é"), A(0, false), A(1, false), L("\n\n"), A(2, true), L("\r"), A(3, true), L(": ")]),
    (1, &[L("\t"), A(0, true), L(": "), A(0, false), L("<b>")]),
    (4, &[L("\\n"), A(2, false), L("\n\n"), A(0, false), L("<b>"), A(3, true), L("&"), A(3, true), L(" - "), A(1, false), L(" - "), A(2, true), L("\r"), A(1, true), L("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")]),
    (5, &[A(0, false), A(1, true), A(2, false), A(3, true), L("$0"), A(4, true)]),
    (4, &[L("\""), A(1, false), L("é"), A(2, true), L("{"), A(1, false), L("''"), A(3, true), A(0, true), L("\n"), A(3, false), A(3, false)]),
    (5, &[L("\n\n"), A(1, true), L("]"), A(4, false), A(0, true), L("\""), A(3, false), L("a{b}c"), A(2, false), L("　"), A(2, false), L("\n\n"), A(3, false)]),
    (1, &[L("["), A(0, true), L("|"), A(0, true)]),
    (4, &[A(0, true), A(1, true), L("\r\n"), A(2, false), A(3, true)]),
    (1, &[L("{}"), A(0, false), L("<!-- -->"), A(0, false), A(0, false), A(0, true), L("&")]),
    (1, &[L("&"), A(0, true), L("\0"), A(0, true)]),
    (3, &[A(0, false), L("\\"), A(1, true), L("m0;1"), A(2, true), L(": ")]),
    (3, &[A(2, false), L("{"), A(2, false), A(1, true), L("\\"), A(0, true), A(1, true), L("  "), A(1, false), L("&amp;")]),
    (1, &[A(0, true)]),
    (2, &[L("a{b}c"), A(1, false), L("{"), A(0, false), L("é"), A(0, false), L("%%"), A(1, true), A(1, true), L("x"), A(1, true), A(1, false), L("\r\n")]),
    (3, &[A(0, true), L("lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & "), A(1, true), L("["), A(2, true), L("é"), A(2, true), A(1, true)]),
    (1, &[L("<!-- -->"), A(0, true), L("a{b}c"), A(0, true), A(0, false), A(0, false), L("x")]),
    (3, &[L("\u{feff}"), A(0, false), L("<b>"), A(1, false), A(2, true)]),
    (5, &[L("#;"), A(0, true), L("\u{feff}"), A(1, false), A(2, false), A(4, false), A(3, true), L("\n")]),
    (5, &[L("}"), A(2, false), A(3, false), L("}"), A(4, false), A(0, false), L("|"), A(1, false), L("$0"), A(4, false), L("　"), A(0, false), A(1, false), L("\"")]),
    (4, &[L("\0"), A(0, false), L("1:"), A(1, false), A(1, false), A(2, true), L("\\n"), A(3, true), A(3, true)]),
    (1, &[L("\t"), A(0, false), L("  "), A(0, false)]),
    (5, &[L("\t"), A(2, false), L("\\"), A(4, true), L("é"), A(3, true), L("a{b}c"), A(3, false), A(1, false), L(": "), A(0, true)]),
    (4, &[L("é"), A(0, false), L("a{b}c"), A(1, false), L("{"), A(1, false), A(1, false), L("["), A(1, false), L("\r\n"), A(0, true), L("m0;1"), A(1, true), L("["), A(1, true), L("\0"), A(2, false), A(3, true), A(3, true), L("\u{feff}")]),
    (2, &[L("%%"), A(0, true), A(1, false), L("é"), A(0, true)]),
    (5, &[A(1, false), L("]"), A(0, true), L("$0"), A(1, false), L("["), A(0, true), A(0, false), A(2, false), L("1:"), A(3, false), L("1:"), A(3, false), A(3, false), A(3, false), A(4, true), A(4, true), L("\r\n")]),
    (5, &[A(0, false), L("  "), A(0, false), L("''"), A(0, true), L("\""), A(0, false), L("\u{feff}"), A(1, false), L("'q'"), A(2, true), L("'q'"), A(1, false), L("&"), A(3, true), A(3, false), L("é"), A(3, false), L("]"), A(3, false), L("\0"), A(4, false), L("\r\n"), A(4, true), L("x"), A(4, true), A(4, false), L("é"), A(4, false), L("<!-- -->"), A(4, false), L("\\")]),
    (4, &[A(1, true), A(2, false), L("{}"), A(0, false), A(3, true), L("\n\n"), A(0, true), A(2, false), L("$0"), A(1, false), L(": "), A(0, true), L("\"")]),
    (2, &[L("\\n"), A(0, true), L("\\n"), A(1, true)]),
    (3, &[A(0, true), L("　"), A(1, true), L(": "), A(2, false)]),
    (1, &[A(0, true), L("'q'"), A(0, false), L("\u{feff}"), A(0, false), L("'q'")]),
    (3, &[A(2, true), L("}"), A(0, true), A(2, false), L(": "), A(2, false), L(" - "), A(2, true), L("a{b}c"), A(1, false), L("1:")]),
    (1, &[A(0, false), L("\\"), A(0, true), L("''")]),
    (3, &[L("  "), A(2, false), L("é"), A(0, true), A(1, false), L("["), A(1, true), A(0, true), A(1, false)]),
    (4, &[L("}"), A(0, false), L("é"), A(0, true), L(" - "), A(1, true), L("\\n"), A(1, true), A(1, true), L("&"), A(2, true), L("\n"), A(3, false), L("　"), A(2, false)]),
    (3, &[L("1:"), A(0, true), L("<!-- -->"), A(1, false), A(2, true), L("\n")]),
    (2, &[L(": "), A(1, true), L(": "), A(1, false), L("a{b}c"), A(0, false), A(0, true), A(1, false), A(0, false), L(" - "), A(1, false), A(0, false), L("\n"), A(1, false), L("'q'"), A(1, true), A(0, true), L("$0")]),
    (4, &[L("\0"), A(2, true), L("]"), A(3, true), A(0, true), L("\u{feff}"), A(2, true), A(1, false), L("\\"), A(3, true)]),
    (1, &[A(0, false), L("%%")]),
    (2, &[A(0, false), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(0, true), A(1, true), L("1:"), A(0, false), L("&")]),
    (4, &[L("  "), A(1, false), L("$0"), A(2, false), L("\n\n"), A(1, true), L("1:"), A(3, false), L("''"), A(0, false)]),
    (5, &[L("&"), A(1, false), L("&amp;"), A(2, true), L("\\n"), A(2, false), L("'q'"), A(1, false), A(3, false), L(" - "), A(0, false), A(4, true), L("\""), A(0, false)]),
    (4, &[A(0, true), L("<b>"), A(0, true), L("{}"), A(0, true), A(2, true), L("x"), A(1, true), L("  "), A(2, true), L("\\"), A(2, true), L("a{b}c"), A(3, false), L("　"), A(3, false), A(2, true), L("$0"), A(2, true), A(3, false), L("1:"), A(3, true)]),
    (2, &[A(1, true), A(0, true), L("''")]),
    (5, &[L("\0"), A(0, true), L("é"), A(4, false), A(1, true), L("a{b}c"), A(3, false), A(2, false), L("\r\n"), A(1, false), L("]"), A(2, false), L("|")]),
    (1, &[L(": "), A(0, true), L("\0")]),
    (4, &[A(0, false), L("%%"), A(1, true), L("'q'"), A(2, true), L("<!-- -->"), A(3, false)]),
    (3, &[A(2, false), A(0, false), L("{}"), A(1, true), A(0, true)]),
    (5, &[L("é"), A(1, false), L("\r\n"), A(4, false), L("#;"), A(4, false), L("　"), A(0, true), L("\0"), A(3, false), L("m0;1"), A(1, false), L(" - "), A(2, false), L("a{b}c")]),
    (2, &[A(0, true), L("\u{feff}"), A(1, true), L("{}")]),
    (1, &[A(0, true), L("\r"), A(0, false)]),
    (3, &[A(0, false), A(2, true), A(1, true), A(2, false), L("　")]),
    (2, &[A(0, true), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(1, false)]),
    (4, &[A(1, true), L("&amp;"), A(3, false), A(2, false), A(0, true), L("{"), A(0, false), A(1, false), L("\""), A(2, false)]),
    (4, &[L("1:"), A(0, false), A(3, true), L("\t"), A(2, true), L("$0"), A(1, false)]),
    (5, &[A(1, false), L("\\n"), A(3, false), A(0, false), L(": "), A(1, false), A(0, false), A(3, false), A(4, false), A(2, true)]),
    (3, &[L("<!-- -->"), A(1, false), L("{}"), A(2, false), L("}"), A(0, true), L("a{b}c")]),
    (3, &[A(0, true), A(1, true), A(2, true)]),
    (3, &[A(0, true), L("|"), A(2, true), A(1, false)]),
    (1, &[L("{"), A(0, true), L("\r"), A(0, false), L("\r\n"), A(0, false), L("  ")]),
    (3, &[L("["), A(0, true), L("$0"), A(1, true), L(": "), A(1, true), L("#;"), A(0, true), L("}"), A(0, false), A(0, false), L("\0"), A(1, true), A(1, false), L("%%"), A(0, false), L("\u{feff}"), A(0, false), A(2, true), A(1, false), L("{}"), A(2, true), L("\t"), A(2, true), L("é"), A(2, false), A(2, true), L("&amp;"), A(1, false), A(2, true), L("\n\n"), A(1, false)]),
    (3, &[L("{"), A(0, false), A(1, false), A(2, true)]),
    (4, &[L("x"), A(0, true), L("é"), A(2, true), L("\t"), A(1, false), A(2, true), A(1, true), L("]"), A(3, false), L("'q'"), A(3, false), L("'q'")]),
    (3, &[L("{"), A(0, false), L("1:"), A(1, true), L("<!-- -->"), A(0, true), L("\r\n"), A(1, true), A(0, false), A(1, false), L("　"), A(1, true), A(1, false), L("m0;1"), A(0, false), A(1, false), L("é"), A(2, false), L("<b>"), A(2, false), L("}"), A(2, false), A(2, true), L("\r"), A(2, false), L("1:"), A(2, false)]),
    (4, &[L("\n\n"), A(0, true), L("\n\n"), A(1, false), A(0, true), A(0, false), L("\\"), A(1, false), A(1, true), L("  "), A(0, true), L("a{b}c"), A(2, true), A(3, true), L("{"), A(2, true), L("1:"), A(3, true), L("$0"), A(3, true), L("\"")]),
    (5, &[L("%%"), A(0, false), A(2, true), A(0, false), L("\""), A(1, false), L("["), A(2, true), L("é"), A(2, true), L("{}"), A(3, false), A(2, true), A(4, true), L("|"), A(3, true), A(3, false), L("'q'"), A(3, false), L(": "), A(4, false), L(": "), A(4, true), L("]"), A(3, false), L("\n\n"), A(4, true), L("\\")]),
    (4, &[A(2, false), L("\""), A(1, true), A(3, true), L("<!-- -->"), A(0, false), A(0, true), L("$0"), A(2, true), L("$0"), A(0, false), L("{")]),
    (3, &[A(1, true), L("''"), A(0, true), L("''"), A(2, false), L("m0;1"), A(2, true), L("é"), A(1, true), L("é"), A(2, true), L("x"), A(2, false)]),
    (5, &[L("\""), A(1, true), A(1, true), L("x"), A(0, true), L("&amp;"), A(0, false), A(4, false), L(" - "), A(3, false), L("["), A(2, true)]),
    (4, &[L("&amp;"), A(2, false), A(1, false), A(0, false), A(1, true), L("é"), A(3, true), L("\\")]),
    (4, &[L("#;"), A(0, false), A(1, false), A(2, true), A(2, true), L("\\"), A(2, true), A(2, true), A(2, true), L("x"), A(3, true), A(3, false), L("\n\n"), A(3, true), L("é")]),
    (1, &[L("["), A(0, true), L("<!-- -->")]),
    (2, &[L("<!-- -->"), A(0, false), L("'q'"), A(1, true), L("　"), A(1, true), L("]")]),
    (4, &[A(0, true), L("<!-- -->"), A(3, false), A(3, false), A(1, false), A(3, true), L("<!-- -->"), A(2, true), L("{}"), A(2, false), L("'q'")]),
    (1, &[L("\0"), A(0, true), A(0, false), L("}"), A(0, false), L("{}"), A(0, true)]),
    (3, &[L("}"), A(0, false), L("<b>"), A(1, true), A(0, false), L("\r"), A(0, false), A(0, false), L("a{b}c"), A(1, true), L("x"), A(2, false), A(1, true), L("\\n"), A(1, true), L("1:")]),
    (5, &[L("é"), A(0, true), A(4, true), L("a{b}c"), A(3, false), A(2, false), A(1, false), A(0, false), L("é")]),
    (2, &[L("1:"), A(1, true), L("|"), A(0, false), L("<b>"), A(0, false)]),
    (2, &[L("a{b}c"), A(0, true), A(1, false), A(0, false), L("  "), A(0, true), L("\\"), A(1, false), L("\\n"), A(0, false), A(0, false), L("<b>")]),
    (1, &[A(0, true), A(0, false), L("\t"), A(0, true), L("lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & ")]),
    (2, &[A(1, false), A(1, false), A(0, true), L("\\n"), A(1, true), L("m0;1"), A(1, false), L("\\")]),
    (1, &[L("#;"), A(0, false), A(0, true), L(" - "), A(0, false), L("&amp;"), A(0, true), L("%%")]),
    (3, &[L("é"), A(2, true), L("\t"), A(0, false), A(0, false), L("&"), A(1, false), L("<b>"), A(1, true), A(2, false), L("'q'"), A(2, true), L("&")]),
    (2, &[L("\t"), A(0, false), L("\\n"), A(1, true), L(" - ")]),
    (5, &[L("'q'"), A(1, false), A(4, true), A(3, true), L("　"), A(2, true), A(2, true), L("\r"), A(0, false)]),
    (2, &[L("}"), A(0, false), L("{}"), A(0, false), A(1, false), A(0, false), L(": "), A(1, false), L("1:")]),
    (1, &[L("a{b}c"), A(0, true), A(0, false), L("\u{feff}"), A(0, true), L("]")]),
    (4, &[A(0, false), A(2, true), A(1, true), L("&"), A(2, true), A(2, true), L("{"), A(3, false), L("{}"), A(3, true), L("m0;1"), A(3, false), L("%%")]),
    (1, &[L("\\n"), A(0, true), A(0, false), L("m0;1"), A(0, true), L("\t"), A(0, true), L("　")]),
    (5, &[L("é"), A(0, false), A(1, true), A(2, true), L("<!-- -->"), A(1, true), L("%%"), A(1, false), L("m0;1"), A(2, true), L("a{b}c"), A(2, false), L("&amp;"), A(3, false), L("{}"), A(4, true)]),
    (5, &[L("{"), A(4, true), L("\\"), A(1, true), A(2, false), L("|"), A(3, true), L("m0;1"), A(0, false), L("\u{feff}")]),
    (2, &[A(1, true), A(0, false), L("&")]),
    (1, &[L("#;"), A(0, false)]),
    (3, &[L("{}"), A(0, false), A(2, true), A(2, true), A(1, false), L("&")]),
    (1, &[L("\r"), A(0, true)]),
    (1, &[L("m0;1"), A(0, true), A(0, false), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢")]),
    (5, &[A(3, true), L("#;"), A(2, false), A(0, false), A(1, true), L("\\n"), A(4, false), L("#;"), A(1, true), L("\n\n"), A(3, false), L("01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789")]),
    (4, &[L("\t"), A(0, true), L("\n\n"), A(1, false), L("'q'"), A(2, false), L("1:"), A(2, false), L(" - "), A(3, false), L("%%")]),
    (4, &[L("\r\n"), A(2, false), L("'q'"), A(1, false), A(3, false), L("]"), A(0, false), L(" - ")]),
    (3, &[A(0, false), L("|"), A(1, false), A(2, true), L("{")]),
    (1, &[L("|"), A(0, true), L("["), A(0, false)]),
    (5, &[L("["), A(2, true), L("é"), A(1, false), A(3, true), L("%%"), A(0, true), L("m0;1"), A(4, false)]),
    (1, &[L("\t"), A(0, false)]),
    (3, &[L("a{b}c"), A(1, false), A(0, true), A(0, true), A(1, false), A(0, false), L("{"), A(2, false), A(2, true)]),
    (2, &[A(0, false), L("}"), A(1, true), L("''"), A(1, true), L("\""), A(0, false), A(0, false), A(1, true), L("\"")]),
    (4, &[L("["), A(1, false), L("\""), A(0, false), L("é"), A(2, false), A(0, false), L("|"), A(1, true), L("1:"), A(3, false), L("\n"), A(2, false), L("\\n")]),
    (2, &[L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(0, false), A(1, true), L("é"), A(1, true), L("\n\n"), A(1, true), L("]"), A(0, false)]),
    (3, &[A(2, false), L("}"), A(1, false), A(2, false), L("'q'"), A(0, true), L("&amp;")]),
    (3, &[L("m0;1"), A(0, true), L("\""), A(1, true), A(2, true)]),
    (2, &[L("''"), A(0, false), A(1, true), A(1, false), L("é"), A(1, false), A(0, true), A(0, false), L("{")]),
    (4, &[L("["), A(3, false), L("é"), A(0, true), L("\u{feff}"), A(3, false), A(1, false), L("a{b}c"), A(2, false), A(3, false), A(2, true), L("<b>"), A(1, false)]),
    (3, &[A(2, false), A(1, true), L("\u{feff}"), A(0, false)]),
    (3, &[A(0, false), L("\n\n"), A(1, false), L("&amp;"), A(2, true), A(2, true), A(0, false), L("]")]),
    (1, &[A(0, true), L("　"), A(0, false), L(" - "), A(0, false), L("\n"), A(0, false), A(0, true)]),
    (1, &[L("m0;1"), A(0, false), L("{}")]),
    (1, &[L("%%"), A(0, true), A(0, false), A(0, false), A(0, false), A(0, true)]),
    (4, &[L("}"), A(0, false), A(1, false), A(1, false), A(2, false), L("\\n"), A(0, true), L("a{b}c"), A(1, true), L("&"), A(0, true), A(2, true), L("é"), A(1, true), A(2, true), L("x"), A(2, true), L("é"), A(3, true), L("%%"), A(3, false), L("\r"), A(3, false), A(2, true), A(3, true), L("\u{feff}")]),
    (4, &[L("x"), A(0, false), A(3, true), A(3, false), A(1, false), L("\\n"), A(3, false), L("é"), A(2, true), A(2, true), L("}")]),
    (1, &[L("a{b}c"), A(0, true)]),
    (2, &[L("'q'"), A(1, true), L("%%"), A(0, true), L("'q'"), A(1, true), A(1, true), A(1, false), A(1, true)]),
    (1, &[A(0, true), L("\n"), A(0, false), L("&amp;"), A(0, true), L("[")]),
    (4, &[L("\\"), A(0, false), L(": "), A(3, true), L("\\"), A(0, true), A(1, false), A(1, false), L("\""), A(1, false), L(": "), A(2, true), A(3, false)]),
    (2, &[L("1:"), A(0, true), A(1, false), L("\u{feff}")]),
    (1, &[A(0, true), A(0, false)]),
    (3, &[A(1, true), A(0, true), L("m0;1"), A(2, true)]),
    (1, &[A(0, false), L("\n"), A(0, true)]),
    (2, &[L("%%"), A(0, true), A(1, true), L(" - ")]),
    (1, &[L("\u{feff}"), A(0, false), L("\\"), A(0, true), L("]"), A(0, false)]),
    (1, &[L("\0"), A(0, false), A(0, false)]),
    (2, &[A(0, true), A(0, false), L("lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & "), A(1, true)]),
    (4, &[L("m0;1"), A(1, false), A(1, false), A(0, false), A(3, true), L("''"), A(3, true), L("["), A(1, true), L("\n\n"), A(2, true)]),
    (3, &[L("\""), A(1, false), L("%%"), A(0, false), L("\r\n"), A(2, false), A(0, false), L("<b>"), A(2, false)]),
    (1, &[L("}"), A(0, true), L("1:"), A(0, true), A(0, false), L("\0")]),
    (2, &[A(0, true), L("$0"), A(1, false)]),
    (2, &[L("a{b}c"), A(1, true), A(0, true), A(1, true), A(1, true), A(0, false), L("a{b}c")]),
    (2, &[L(": "), A(0, true), A(0, true), L("  "), A(0, false), A(1, true)]),
    (1, &[L("1:"), A(0, false), L("\0"), A(0, false), L("&"), A(0, true), A(0, true)]),
    (2, &[A(1, false), A(0, true), A(0, false), A(1, true), A(1, true), L(": ")]),
    (4, &[A(0, false), L("{}"), A(2, true), L(": "), A(2, false), L("#;"), A(2, true), L("{"), A(1, false), L("\0"), A(3, false), L("\t")]),
    (4, &[L("a{b}c"), A(3, false), L("m0;1"), A(2, false), A(0, false), A(0, true), L("\n"), A(0, false), A(1, false), L("\\"), A(3, false), L("<b>")]),
    (2, &[A(0, false), L("\0"), A(1, true), L("1:"), A(0, true), L("\t")]),
    (4, &[L(" - "), A(0, false), L("x"), A(1, true), A(2, true), L("$0"), A(3, true), L("$0")]),
    (2, &[L("]"), A(0, false), L("1:"), A(1, false), A(0, false), L("{}"), A(1, false), L("\\"), A(1, true)]),
    (4, &[A(0, false), A(1, true), A(2, true), L("%%"), A(2, false), L("<!-- -->"), A(3, true), L("]")]),
    (4, &[L("}"), A(0, false), A(1, true), L("|"), A(2, true), L("\n"), A(3, true), L("{")]),
    (5, &[L("]"), A(2, true), A(4, false), L("["), A(1, true), L("é"), A(0, false), L("<!-- -->"), A(3, true)]),
    (3, &[L("\r\n"), A(2, true), A(2, true), A(1, true), L("\\"), A(0, false), L("{}"), A(2, true), L(" - ")]),
    (5, &[A(1, false), L("\\"), A(0, false), L("\""), A(2, true), L("x"), A(4, true), A(3, false), L("a{b}c"), A(4, true), A(1, false)]),
    (1, &[L("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), A(0, false), L("{}"), A(0, true), L("m0;1"), A(0, true), L("\n"), A(0, false)]),
    (1, &[L("''"), A(0, true), A(0, false), L("}"), A(0, false), A(0, false)]),
    (4, &[L("\r\n"), A(0, true), L("\u{feff}"), A(1, true), A(2, false), L("\r\n"), A(3, false), L("#;")]),
    (5, &[A(0, true), L("&"), A(2, true), A(4, true), L("#;"), A(0, false), A(1, true), L("\t"), A(0, true), L("}"), A(3, true)]),
    (3, &[L("\""), A(0, true), A(1, false), A(2, false)]),
    (1, &[L("''"), A(0, true), A(0, false), L("{}"), A(0, true), A(0, true), L("\r")]),
    (4, &[A(0, true), L("$0"), A(0, true), L("%%"), A(0, true), A(1, true), L("é"), A(1, false), A(2, false), A(2, true), A(3, true), L("\""), A(2, true), L("\n\n"), A(3, true), L("\r\n"), A(3, true), A(3, false), L("\n")]),
    (1, &[L("x"), A(0, true)]),
    (4, &[L("\n\n"), A(0, false), L("\u{feff}"), A(2, false), A(3, true), A(2, false), L("["), A(1, true)]),
    (4, &[A(0, true), L("\t"), A(0, true), L("#;"), A(1, true), A(2, true), L("%%"), A(1, false), L("m0;1"), A(2, true), L("<b>"), A(1, true), L(": "), A(1, true), L("]"), A(2, true), L("%%"), A(2, true), L("\n"), A(1, false), A(3, true), L("\\n"), A(3, true), A(3, false), A(2, true), L("a{b}c")]),
    (3, &[A(1, false), A(1, true), L("1:"), A(2, true), L("|"), A(0, true)]),
    (2, &[L("1:"), A(1, false), L("]"), A(0, true), A(0, false), L("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), A(0, true), L(": ")]),
    (3, &[A(0, true), A(1, false), L("]"), A(2, false), L("[")]),
    (3, &[L("\r\n"), A(0, true), L("{}"), A(1, false), A(1, false), A(2, true)]),
    (1, &[L("\r\n"), A(0, true), L("]"), A(0, true), L("  "), A(0, false), L("{"), A(0, false), L("|")]),
    (2, &[L("<!-- -->"), A(0, true), A(0, true), A(0, true), L("m0;1"), A(1, true), L("x")]),
    (2, &[A(0, false), L("é"), A(0, false), A(1, false), L("\n"), A(1, false)]),
    (2, &[L("}"), A(0, false), L("{"), A(1, false), L("}")]),
    (2, &[L("a{b}c"), A(0, false), L("%%"), A(0, true), A(1, false), A(1, false), L("&amp;"), A(1, true), L(" - ")]),
    (5, &[L("1:"), A(0, false), A(1, false), L("x"), A(2, true), L("<b>"), A(3, true), A(4, true), L("m0;1")]),
    (1, &[A(0, false), L(" - "), A(0, false), L("<b>"), A(0, true), L("a{b}c")]),
    (1, &[L("%%"), A(0, false), A(0, true), L("<b>")]),
    (2, &[L("{}"), A(0, false), L("\t"), A(1, false), A(1, true), L(" - ")]),
    (1, &[L("\t"), A(0, true), L("\u{feff}"), A(0, true), A(0, true)]),
    (3, &[A(0, true), A(1, true), A(2, false)]),
    (5, &[A(0, false), L("é"), A(1, false), L("&"), A(2, false), L("|"), A(3, true), L("{}"), A(4, true), L("&")]),
    (5, &[L("\""), A(1, false), L("é"), A(0, true), L("\""), A(3, true), A(2, true), L("\r"), A(4, false), L("\t")]),
    (13, &[A(10, false), L("\\"), A(0, false), L("#;"), A(12, false), A(9, true), L("\\"), A(6, true), L("{"), A(2, true), L("\r"), A(1, false), L("\n\n"), A(5, false), A(7, true), A(3, false), A(11, false), A(8, true), L("#;"), A(4, true), L("  ")]),
    (10, &[L("1:"), A(0, false), L(" - "), A(9, false), A(1, true), A(2, false), L("1:"), A(5, true), A(2, true), L("}"), A(5, true), L("]"), A(8, true), A(3, true), L("lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & "), A(3, false), L("<b>"), A(7, false), L("]"), A(6, false), L("\u{feff}"), A(4, true)]),
    (18, &[L("&amp;"), A(0, false), A(1, true), A(2, false), L("1:"), A(3, false), L("$0"), A(4, false), L("$0"), A(5, false), A(6, false), A(7, false), L("\0"), A(8, false), L("''"), A(9, true), A(10, true), A(11, false), L(": "), A(12, false), A(13, false), L("\r"), A(14, false), L("]"), A(15, false), A(16, true), L("{"), A(17, false), L("\\")]),
    (15, &[A(5, true), A(4, false), L("}"), A(2, true), L("　"), A(9, true), A(6, false), L("\t"), A(1, false), L("<b>"), A(13, true), L("#;"), A(12, true), L("x"), A(14, true), L("\n"), A(10, false), L("a{b}c"), A(0, false), L("\u{feff}"), A(7, false), L("\\"), A(3, true), A(11, false), L("["), A(8, false), A(3, false)]),
    (14, &[A(0, true), L(" - "), A(1, true), L("<b>"), A(2, true), L("#;"), A(3, false), L(": "), A(4, true), A(5, false), A(6, true), A(7, true), A(8, true), A(9, false), L("\0"), A(10, true), A(11, true), A(12, false), L("\\n"), A(13, false)]),
    (7, &[A(3, true), A(4, false), A(2, false), A(1, false), L("\n"), A(0, true), L("\\"), A(5, false), L("]"), A(6, true), L(" - ")]),
    (17, &[A(1, true), A(0, false), L("<b>"), A(2, true), L("\""), A(8, false), L("\r\n"), A(11, true), L("m0;1"), A(7, false), L("x"), A(5, true), A(13, true), L("$0"), A(16, true), L("]"), A(14, true), A(4, true), L(" - "), A(13, true), L("\0"), A(6, false), L("<!-- -->"), A(10, true), A(3, true), L("é"), A(12, false), A(3, true), L("x"), A(9, true), L("]"), A(6, true), L(" - "), A(15, false), L("\r\n")]),
    (16, &[L("\""), A(0, false), L("\t"), A(1, false), A(2, false), L("\0"), A(3, true), L(" - "), A(4, false), A(5, true), L("$0"), A(6, false), A(7, false), A(8, false), A(9, true), L(": "), A(10, false), A(11, false), A(12, false), A(13, false), A(14, true), L(" - "), A(15, false)]),
    (13, &[L("x"), A(9, false), A(6, false), L("\n\n"), A(0, true), L("}"), A(1, true), L("é"), A(2, false), L("|"), A(7, true), A(3, true), L("é"), A(4, true), L("]"), A(11, true), L("["), A(5, false), A(6, true), A(7, false), L("\""), A(8, true), L("%%"), A(12, false), L("\t"), A(9, false), L("é"), A(10, true), L("#;")]),
    (7, &[L("m0;1"), A(3, false), A(5, false), L("m0;1"), A(2, false), L("<!-- -->"), A(0, true), L("["), A(4, true), L("\n\n"), A(6, true), L("<b>"), A(1, false), L("<b>"), A(4, false), L("　")]),
    (12, &[A(5, true), A(10, false), L("&"), A(6, true), A(9, false), L("　"), A(11, false), A(7, false), A(4, true), A(8, false), L("\\"), A(1, true), L("\r"), A(0, true), A(7, false), L("\r"), A(0, true), A(11, false), L("\r\n"), A(3, true), L("$0"), A(2, true), L("\0")]),
    (11, &[A(8, false), A(5, false), A(3, true), A(0, true), L("\n\n"), A(10, false), L("{"), A(2, true), A(6, true), A(4, false), A(7, true), A(1, true), A(9, true), L("&")]),
    (17, &[L("&amp;"), A(8, true), L("é"), A(15, true), L("\n"), A(15, true), L("]"), A(0, false), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(12, true), L("]"), A(1, false), A(6, true), A(2, false), L("1:"), A(7, false), L("\0"), A(3, true), L("|"), A(15, false), L("$0"), A(4, true), L("\u{feff}"), A(5, false), A(16, false), L("<b>"), A(12, true), A(13, false), L(" - "), A(9, false), A(10, true), A(14, true), L("#;"), A(7, false), A(11, false), L("\\")]),
    (13, &[L("{}"), A(8, true), L("\n"), A(5, true), L("a{b}c"), A(6, true), L("m0;1"), A(0, false), A(2, true), L("&"), A(3, true), L("\n"), A(9, false), L("\u{feff}"), A(12, true), A(0, true), A(11, true), A(10, false), A(2, false), L("\r\n"), A(1, false), A(4, true), A(7, true), L("&"), A(9, false)]),
    (6, &[L("\r"), A(0, true), A(0, false), A(2, true), L("\u{feff}"), A(1, true), A(1, true), L("\n"), A(2, true), L("　"), A(3, false), A(3, false), L("]"), A(3, true), A(4, true), L("#;"), A(5, false), A(4, true), A(5, true), A(4, false)]),
    (11, &[L("\u{feff}"), A(9, true), L("&"), A(1, false), A(10, false), L("\t"), A(8, true), L("["), A(5, false), A(3, false), L("a{b}c"), A(2, false), L("\r\n"), A(4, true), L(": "), A(8, false), L("\\n"), A(7, true), A(6, false), A(8, true), L("{"), A(1, false), L("\t"), A(0, false)]),
    (12, &[A(0, true), L("{}"), A(0, false), A(1, true), A(1, false), L("<b>"), A(3, true), L(": "), A(2, true), L("["), A(3, false), L(": "), A(2, true), L("  "), A(4, false), A(4, true), A(5, false), L("]"), A(3, true), L("{"), A(5, false), L("\n"), A(6, false), L("\r"), A(7, false), L("a{b}c"), A(8, false), A(9, false), L("\t"), A(10, true), A(9, false), L("&amp;"), A(10, true), L("\0"), A(10, true), L("''"), A(11, true), L("%%"), A(11, true), L("　"), A(11, true), A(10, false), L("'q'"), A(11, false)]),
    (16, &[L("\t"), A(0, true), A(0, true), A(0, false), L("  "), A(1, true), A(1, true), A(2, true), A(2, false), L("#;"), A(3, false), L("\n\n"), A(3, true), L("{"), A(4, true), L("%%"), A(3, false), A(3, false), A(3, false), L("&amp;"), A(4, true), L("|"), A(5, true), L("m0;1"), A(5, false), A(4, false), L("  "), A(6, false), A(8, true), L("\""), A(7, false), A(7, false), A(8, false), L("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), A(10, false), A(9, true), A(10, false), A(10, false), L("\u{feff}"), A(12, true), L("\u{feff}"), A(10, false), A(11, false), L("{}"), A(12, true), A(13, true), L("x"), A(14, false), A(15, true), L("\0")]),
    (6, &[A(0, false), A(1, true), L(" - "), A(2, false), A(3, false), A(4, false), A(5, true)]),
    (20, &[L("　"), A(8, true), L(" - "), A(12, false), L("\n"), A(13, false), A(17, false), L("]"), A(1, false), L("\r"), A(19, false), A(2, true), L("|"), A(9, false), A(14, true), L("\r"), A(3, true), A(15, true), A(7, false), L("\r"), A(11, false), A(18, false), L("$0"), A(10, false), L("}"), A(4, true), A(5, false), A(16, false), A(0, true), L("%%"), A(6, true)]),
    (11, &[L("\\"), A(1, true), L("  "), A(7, true), L("{}"), A(9, false), A(4, true), L("\\"), A(0, true), L("$0"), A(7, true), A(10, false), A(5, false), L("''"), A(8, false), A(6, true), A(8, false), L("}"), A(2, true), A(3, false), L("<b>"), A(9, false)]),
    (7, &[A(0, false), L(": "), A(1, true), A(2, false), L("\n"), A(3, true), L("\t"), A(4, true), L("|"), A(5, true), A(6, true)]),
    (6, &[L("m0;1"), A(0, false), L("\\n"), A(1, true), L("|"), A(2, true), L("["), A(3, true), L("{}"), A(4, false), L("x"), A(5, true)]),
    (7, &[A(1, false), L("\n\n"), A(6, true), A(3, true), A(5, false), L("<b>"), A(6, false), L("\0"), A(2, true), A(4, true), L("''"), A(2, true), L("\\"), A(0, true), A(5, true), L("'q'")]),
    (18, &[L("&amp;"), A(1, false), L("\r"), A(9, false), L("m0;1"), A(3, false), L("1:"), A(4, false), L("　"), A(9, false), A(13, true), L("é"), A(7, true), L("x"), A(2, true), A(8, true), A(5, true), L("a{b}c"), A(17, false), L("<!-- -->"), A(15, true), L("#;"), A(14, false), L("'q'"), A(11, true), L("["), A(10, true), L("|"), A(16, true), L("\n"), A(0, false), A(12, false), A(6, false), L("&"), A(16, true)]),
    (9, &[L("é"), A(0, true), A(3, false), L("{"), A(5, false), A(4, false), L("\u{feff}"), A(3, true), L("$0"), A(7, false), L("　"), A(8, true), A(6, true), L("\r"), A(1, false), A(2, false)]),
    (18, &[A(0, true), A(1, false), L("\t"), A(2, false), L("a{b}c"), A(3, true), L("1:"), A(4, true), L("\\"), A(5, true), L("\0"), A(6, false), A(7, true), A(8, true), A(9, true), A(10, false), A(11, false), A(12, false), L("\0"), A(13, false), L("\n\n"), A(14, true), L("1:"), A(15, false), L("["), A(16, true), L("&amp;"), A(17, true)]),
    (16, &[A(0, true), L("|"), A(0, true), A(0, true), L("<b>"), A(1, true), L("'q'"), A(1, false), A(2, true), L("\\n"), A(3, false), L("&"), A(3, false), L("#;"), A(3, true), L("\\"), A(4, true), L("["), A(5, false), A(6, true), A(6, true), L("<b>"), A(6, true), A(7, true), L("%%"), A(7, true), L("'q'"), A(9, true), A(8, false), L(" - "), A(9, false), L("|"), A(9, true), A(9, true), L("#;"), A(10, true), L("&"), A(9, false), L("1:"), A(10, true), L(" - "), A(9, false), L("é"), A(11, true), A(12, true), L("<b>"), A(11, false), A(13, true), A(12, false), L("\\"), A(14, false), L("{"), A(13, true), L("["), A(14, false), L("\n\n"), A(14, true), A(15, true), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(15, false)]),
    (14, &[L("{"), A(8, true), L("#;"), A(12, false), L("m0;1"), A(10, true), A(3, true), L("{"), A(9, false), L("\r"), A(11, false), L(": "), A(7, false), L("lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & "), A(0, false), L("x"), A(6, true), A(2, false), L("#;"), A(1, true), L("  "), A(4, false), L(": "), A(13, true), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), A(5, true), L("\"")]),
    (13, &[L("'q'"), A(8, true), L("<!-- -->"), A(7, true), L(": "), A(0, true), L("%%"), A(0, true), A(10, false), L("\n\n"), A(2, false), L(": "), A(1, true), L("}"), A(6, false), A(9, false), L("&amp;"), A(3, false), A(5, true), L("}"), A(12, true), L("\r"), A(11, true), A(4, false), L("<b>"), A(6, true), A(1, true), L("#;")]),
    (2, &[L("a{b}c"), A(0, false), L("|"), A(0, false), L("m0;1"), A(1, true)]),
    (4, &[A(3, true), L("x"), A(1, false), A(0, true), A(1, true), L("\t"), A(2, false), A(1, false)]),
    (2, &[L("  "), A(0, true), A(0, true), L("{}"), A(0, false), A(1, true), L("%%"), A(1, false)]),
    (1, &[L("\r"), A(0, true), L("{"), A(0, true), A(0, true)]),
    (2, &[A(1, false), L("\u{feff}"), A(1, true), L("#;"), A(0, false), L("#;"), A(0, true), A(1, true)]),
    (4, &[L("{"), A(0, true), L("|"), A(1, true), A(0, true), A(3, true), L("\\"), A(2, true), A(2, false), A(1, false)]),
    (2, &[L("\u{feff}"), A(1, true), A(0, false), L(" - "), A(0, false), A(1, true), L("é"), A(0, true)]),
    (4, &[L(": "), A(2, true), L("\\"), A(0, true), L("{}"), A(1, false), A(3, true)]),
    (5, &[L("é"), A(3, false), L("\n\n"), A(3, true), L("m0;1"), A(4, false), A(2, true), L("\\"), A(0, true), A(1, true)]),
    (1, &[A(0, true), L("\u{feff}"), A(0, true), L("|"), A(0, false), L("{"), A(0, false)]),
    (2, &[A(0, true), A(1, true), L("a{b}c"), A(0, true), L(" - "), A(1, false), A(0, false)]),
    (3, &[A(0, true), A(2, true), L("''"), A(2, true), A(1, false)]),
    (4, &[L("\""), A(0, true), L("\r\n"), A(1, false), A(3, true), L("&amp;"), A(0, false), L("''"), A(0, true), L("\r"), A(2, true)]),
    (1, &[A(0, true), L("é"), A(0, false)]),
    (2, &[A(0, false), L("''"), A(1, true), A(0, true), L("''"), A(1, true)]),
    (3, &[L("{}"), A(2, true), A(0, true), L("\t"), A(1, false), L("\\"), A(2, true), A(1, true), L("\\n"), A(0, false)]),
    (4, &[A(1, true), L("'q'"), A(1, true), A(3, false), A(3, false), L("\u{feff}"), A(0, true), L("<b>"), A(2, false)]),
    (2, &[A(0, true), L("<!-- -->"), A(1, false), A(0, false), L("|"), A(0, false)]),
    (2, &[A(1, false), L("\t"), A(0, false), L("&amp;"), A(0, true), L("<!-- -->"), A(1, true)]),
    (3, &[A(2, false), A(0, false), A(1, false), A(0, false), L("\n"), A(1, false)]),
    (4, &[L("\u{feff}"), A(1, false), L("$0"), A(0, true), L("["), A(2, true), A(2, false), A(3, false)]),
    (2, &[L("  "), A(1, true), L("{"), A(1, false), L("'q'"), A(0, true), L("a{b}c"), A(1, true)]),
    (5, &[L("%%"), A(2, true), L(" - "), A(3, true), L("#;"), A(1, false), A(4, true), A(3, true), L("{"), A(0, false), L(": "), A(3, true)]),
    (4, &[A(1, true), L("{}"), A(3, false), L("&"), A(0, true), A(2, true), A(3, true)]),
    (3, &[A(0, false), L("\n\n"), A(1, true), L("]"), A(2, false), A(1, false)]),
    (3, &[L("{}"), A(1, false), L("{"), A(0, false), L("["), A(2, false), A(2, false)]),
    (2, &[L("["), A(1, true), A(0, false), A(0, false), L("\\"), A(0, false)]),
    (3, &[A(0, true), A(0, false), L("a{b}c"), A(2, true), A(1, true)]),
    (4, &[A(0, false), L("\n"), A(1, true), A(2, true), L("|"), A(0, true), A(1, false), A(3, false)]),
    (2, &[L("é"), A(1, true), A(0, true)]),
    (2, &[L(": "), A(1, true), A(0, false)]),
    (5, &[A(0, false), A(2, true), A(4, true), A(1, false), L("["), A(1, false), L("\0"), A(3, true), A(3, true)]),
    (1, &[A(0, false), A(0, false), A(0, false)]),
    (1, &[A(0, false), L("a{b}c"), A(0, true)]),
    (2, &[A(0, false), L("''"), A(1, false)]),
    (1, &[L("　"), A(0, true), L("\\n"), A(0, false), A(0, true), A(0, true)]),
    (1, &[L("<!-- -->"), A(0, false)]),
    (4, &[A(1, true), L("\""), A(2, false), A(0, true), A(3, true), L("$0"), A(2, true), L("\r\n"), A(2, true), L("  "), A(1, false)]),
    (4, &[L("<b>"), A(3, true), A(1, false), L("\r\n"), A(2, false), A(3, false), A(0, true), A(0, true), L("\n\n"), A(0, false)]),
    (1, &[A(0, true), A(0, true), L("\n\n"), A(0, false), A(0, true)]),
    (5, &[L("&"), A(1, true), L("&"), A(2, false), L("\r"), A(4, true), A(1, true), A(3, false), L("|"), A(0, true)]),
    (2, &[A(1, false), L("["), A(0, false)]),
    (5, &[L("\t"), A(0, true), A(4, false), L("\t"), A(3, false), L("["), A(1, false), A(1, false), L("<b>"), A(2, true)]),
    (5, &[A(2, true), A(3, true), L("\\"), A(4, false), A(2, false), L("{}"), A(1, true), L("a{b}c"), A(0, false), L("a{b}c"), A(4, false)]),
    (3, &[L("\t"), A(0, false), L("\\"), A(2, false), L("'q'"), A(1, true), A(0, true), L("a{b}c"), A(1, false)]),
    (3, &[A(2, false), L("\\n"), A(1, false), A(0, false)]),
    (3, &[L("é"), A(2, false), L("<!-- -->"), A(0, true), L("]"), A(1, true), A(0, true)]),
    (3, &[A(2, true), A(0, true), L("$0"), A(1, false), L("$0"), A(2, false)]),
    (4, &[A(3, false), L("\u{feff}"), A(0, false), L("]"), A(1, false), L("%%"), A(1, false), A(0, false), A(0, false), L("{"), A(2, true)]),
    (2, &[A(1, false), A(0, false), L("\u{feff}"), A(0, false), A(1, true), A(0, true)]),
];

pub fn eval(i: usize, ev: &dyn Fn(usize) -> &'static P, __k: &mut dyn FnMut(Arguments<'_>)) {
    match i {
        0 => { __k(stylish::format_args!(concat!("m0;1{c:>3x?}: ", "{a:+s}{", "a:(fg=red)b}é{b:X}1:"), a = &&ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = *ev(2))) }
        1 => { __k(stylish::format_args!("é{4:08.1(fg=red)s}{3:>3s}{:+(faint,)e}\r{:(bg=default,bold)x}{:>3E}{1:+(faint,)o}", ev(0), *ev(1), *ev(2), [ev(3)][0], ev(4))) }
        2 => { __k(stylish::format_args!("|{:08.1(fg=red)s}", { let x = ev(0); x })) }
        3 => { __k(stylish::format_args!("m0;1{0:?}'q'{:+(bg=default,bold)s}{0:+(bg=default,bold)s}{{}}{0:+(fg=red)e}\n", ev(0) as &P,)) }
        4 => { __k(stylish::format_args!("{0:s}{:+(bg=default,bold)E}{0:08.1s}", (ev(0),).0)) }
        5 => { __k(stylish::format_args!("{:+(bg=default,bold)s}''{1:(fg=red)x?}<b>{1:+}{:(faint,)s}x{2:>3s}{2:(fg=red)s}", (ev(0)), [ev(1)][0], (ev(2)))) }
        6 => { __k(stylish::format_args!("{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p })) }
        7 => { __k(stylish::format_args!(concat!("{0:>3(bg=default,bold)?}{", "b:(faint,)o}1", ":{b:s}\"{0:(fg=red)?}|{b:08.1(faint,)?}]"), std::convert::identity(ev(0)), b = P(ev(1).0),)) }
        8 => { __k(stylish::format_args!("{}{:+(bg=default,bold)o}\t{:(faint,)s}{:s}", ev(0) as &P, std::convert::identity(ev(1)), { ev(2) }, (ev(3)))) }
        9 => { __k(stylish::format_args!("\r{b:+s}<!-- -->{a:>3s}'q'{b:>3(fg=red)x?}\\n{a}", a = &&ev(0), b = *ev(1),)) }
        10 => { __k(stylish::format_args!("{:#(bg=default,bold)?}{4:e}é{3:>3(bg=default,bold)b}  {0:+x?}{3:08.1(fg=red)x}{:>3(faint,)x}{1:>3s}{:s}<!-- -->{4:b}", &*ev(0), &P(ev(1).0), &&ev(2), &P(ev(3).0), (|| ev(4))(),)) }
        11 => { __k(stylish::format_args!("{{}}{:(fg=red)s}{3:>3(faint,)X}{1:+}<!-- -->{0:(faint,)o}&{2:>3s}", P { 0: ev(0).0 }, { ev(1) }, Some(ev(2)).unwrap(), ev(3),)) }
        12 => { __k(stylish::format_args!("\u{feff}{4:+(fg=red)s}{2:s}{3:+x}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1x?}{3:08.1(bg=default,bold)E}]{3:s}{{}}{1:(fg=red)s}&amp;{0:08.1(fg=red)}\\", *ev(0), (|| ev(1))(), &*ev(2), Some(ev(3)).unwrap(), Some(ev(4)).unwrap())) }
        13 => { __k(stylish::format_args!("\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0),)) }
        14 => { __k(stylish::format_args!(concat!("$0{:o}{:08.1s}[{:+(bg", "=default,b", "old)b}\u{feff}{:+(bg=default,bold)s} - "), (|| ev(0))(), Some(ev(1)).unwrap(), loop { break ev(2) }, [ev(3)][0])) }
        15 => { __k(stylish::format_args!("{:>3(fg=red)b}: ", ev(0),)) }
        16 => { __k(stylish::format_args!(": {2:#(faint,)?}{2:+(faint,)s}{1:+(faint,)X}{1:e}\n{0:08.1s}\n\n", P(ev(0).0), (ev(1),).0, match ev(2) { p => p },)) }
        17 => { __k(stylish::format_args!("\r{:>3(fg=red)?}\\{0:08.1(bg=default,bold)s}{0:(fg=red)}<!-- -->{0:+E}{:08.1(faint,)E}]{:s}\n\n{1:+s}\r\n{:>3(faint,)b}\t", loop { break ev(0) }, ev(1), if let p = ev(2) { p } else { unreachable!() }, Some(ev(3)).unwrap())) }
        18 => { __k(stylish::format_args!("{1:08.1(fg=red)s}{0:(fg=red)s} - {2:}é", std::convert::identity(ev(0)), { let x = ev(1); x }, loop { break ev(2) })) }
        19 => { __k(stylish::format_args!("{{}}{:(bg=default,bold)s}{:+(fg=red)E}1:{2:+(bg=default,bold)x?}&amp;{1:+o}1:{:#(faint,)?}{:>3s}", *ev(0), match ev(1) { p => p }, loop { break ev(2) }, [ev(3)][0],)) }
        20 => { __k(stylish::format_args!(concat!("{0:>3(bg=default,bold)e}&{0:(bg=", "default,bold)E}{0", ":+s}{:+(bg=default,bold)s}{0:+(fg=red)s}&amp;{:s}"), P(ev(0).0), Some(ev(1)).unwrap())) }
        21 => { __k(stylish::format_args!("é{3:08.1x?}  {3:>3s}{:+(bg=default,bold)s}\\n{:(fg=red)s}\n\n{:>3e}", if let p = ev(0) { p } else { unreachable!() }, ev(1) as &P, match ev(2) { p => p }, ev(3).me())) }
        22 => { __k(stylish::format_args!(concat!("{:08.1(bg=default,bold)", "s}%%{0:>3e}{", "0:(fg=red)X}<b>{:>3e}\n\n{:+e}{0:+b}\\"), *ev(0), Some(ev(1)).unwrap(), std::convert::identity(ev(2)))) }
        23 => { __k(stylish::format_args!("m0;1{:s}", std::convert::identity(ev(0)),)) }
        24 => { __k(stylish::format_args!("\u{feff}{0:s}<b>{0:(fg=red)s}{:+s}x{0:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() },)) }
        25 => { __k(stylish::format_args!("{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) })) }
        26 => { __k(stylish::format_args!("{1:+b}{2:s}{d:08.1s}1:{0:+(faint,)}}}", ev(0) as &P, [ev(1)][0], &P(ev(2).0), d = std::convert::identity(ev(3)),)) }
        27 => { __k(stylish::format_args!("{:08.1s}{:>3(fg=red)s}<!-- -->", (ev(0),).0, std::convert::identity(ev(1)),)) }
        28 => { __k(stylish::format_args!("}}{c:>3(faint,)b}{c:+(bg=default,bold)x}1:{d:>3(bg=default,bold)s}{b:#(fg=red)?}#;{a:>3s}{d:>3(fg=red)b}x{a:s}", a = Some(ev(0)).unwrap(), b = P { 0: ev(1).0 }, c = ev(2), d = &*ev(3))) }
        29 => { __k(stylish::format_args!("x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me(),)) }
        30 => { __k(stylish::format_args!("'q'{:+(faint,)?}　{:(bg=default,bold)s}  {:#(bg=default,bold)?}", ev(0).me(), (ev(1),).0, ev(2),)) }
        31 => { __k(stylish::format_args!("\\{:(bg=default,bold)X}", ev(0),)) }
        32 => { __k(stylish::format_args!(concat!("#;{0:>3(fg=", "red)s}", "%%{0:>3(fg=red)s}\n"), ev(0) as &P)) }
        33 => { __k(stylish::format_args!("{0:o} - {:+(fg=red)e}1:{1:x}{1:+b}\r\n{:(faint,)e}", ev(0) as &P, &&ev(1))) }
        34 => { __k(stylish::format_args!("x{1:08.1s}{:(faint,)x?}\r\n{:E}{1:(bg=default,bold)x}{1:>3(fg=red)s}$0{0:(bg=default,bold)?}", &*ev(0), P(ev(1).0))) }
        35 => { __k(stylish::format_args!(concat!("{0:+(fg=r", "ed)b}", "{0:+(fg=red)s}"), P(ev(0).0))) }
        36 => { __k(stylish::format_args!(": {2:08.1s}é{1:(faint,)s}{0:08.1b}{0:>3(faint,)s}#;", ev(0).me(), ev(1), same!(ev(2)),)) }
        37 => { __k(stylish::format_args!("{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0)),)) }
        38 => { __k(stylish::format_args!("{2:s}é{0:08.1(fg=red)X}a{{b}}c{:(fg=red)s}{:#(faint,)?}&amp;{}{0:08.1s}{3:>3s} - {:#(faint,)?}  ", { let x = ev(0); x }, &*ev(1), P { 0: ev(2).0 }, (ev(3),).0,)) }
        39 => { __k(stylish::format_args!("é{d:08.1(fg=red)s}]{a:(faint,)X}<!-- -->{c:#(bg=default,bold)?}\n{b:+X}  ", a = { ev(0) }, b = P { 0: ev(1).0 }, c = ev(2) as &P, d = std::convert::identity(ev(3)))) }
        40 => { __k(stylish::format_args!("a{{b}}c{2:(fg=red)X}{{}}{4:+s}{3:(fg=red)s}{0:08.1(faint,)X}{1:08.1s}%%{3:>3s}", (ev(0)), &&ev(1), match ev(2) { p => p }, ev(3).me(), *ev(4),)) }
        41 => { __k(stylish::format_args!(concat!("]{c:>3(faint,)s}{b:08", ".1b}{a:>3(", "faint,)s}}}{c:s}1:{b:+(faint,)s}"), a = loop { break ev(0) }, b = *ev(1), c = std::convert::identity(ev(2)))) }
        42 => { __k(stylish::format_args!("$0{a:>3(bg=default,bold)x?}{b:08.1(faint,)x?}{b:+(bg=default,bold)E}&amp;{b:+(faint,)b}", a = ev(0), b = match ev(1) { p => p })) }
        43 => { __k(stylish::format_args!("a{{b}}c{:+(faint,)b}{:X}}}{1:08.1}", std::convert::identity(ev(0)), ev(1))) }
        44 => { __k(stylish::format_args!(concat!(" - {a:+(fai", "nt,)s}", "1:{b:>3(faint,)s}["), a = if let p = ev(0) { p } else { unreachable!() }, b = &P(ev(1).0))) }
        45 => { __k(stylish::format_args!("{1:+(faint,)e}%%{0:s}{2:(faint,)o}{2:s}", P(ev(0).0), *ev(1), ev(2),)) }
        46 => { __k(stylish::format_args!("#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x })) }
        47 => { __k(stylish::format_args!("\\n{a:(bg=default,bold)s}{c:(fg=red)x}{d:08.1s}{e:08.1(bg=default,bold)o}%%{e:>3x?}{b:E}''{b:08.1(faint,)s}\\", a = loop { break ev(0) }, b = P(ev(1).0), c = &P(ev(2).0), d = (ev(3),).0, e = P(ev(4).0),)) }
        48 => { __k(stylish::format_args!("é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2),)) }
        49 => { __k(stylish::format_args!("{e:08.1(fg=red)s}é{c:08.1(fg=red)e}#;{a:(bg=default,bold)E}\t{d:+X}''{b:(bg=default,bold)s}{e:s}{c:08.1(fg=red)s}\u{feff}", a = *ev(0), b = { ev(1) }, c = std::convert::identity(ev(2)), d = *ev(3), e = (|| ev(4))())) }
        50 => { __k(stylish::format_args!(concat!("{4:08.1s} - {1:(bg=default,b", "old)o}a{{b}}c{", "3:+(faint,)E}{:08.1s}{4:#(faint,)?}\t{2:#?}"), [ev(0)][0], ev(1) as &P, (ev(2),).0, &P(ev(3).0), (|| ev(4))(),)) }
        51 => { __k(stylish::format_args!("$0{0:>3(fg=red)s}\\n{:08.1(faint,)x?}: {0:+(bg=default,bold)}{:>3s}{2:(faint,)s}{{{:>3s}}}{2:+(bg=default,bold)s}{{{2:s}''{2:08.1}{2:>3(faint,)x?}{:08.1s}{3:+(fg=red)s}{2:(faint,)E}&amp;", *ev(0), if let p = ev(1) { p } else { unreachable!() }, ev(2) as &P, &*ev(3),)) }
        52 => { __k(stylish::format_args!("{:s}|{:#?}", [ev(0)][0], std::convert::identity(ev(1)))) }
        53 => { __k(stylish::format_args!("{:+(bg=default,bold)s}\\{0:s}{0:08.1x}{0:+(fg=red)E}'q'", P(ev(0).0))) }
        54 => { __k(stylish::format_args!("\r\n{c:(bg=default,bold)}{a:+s}\t{d:+s}{a:(faint,)e}{e:(bg=default,bold)s}{b:08.1s}", a = std::convert::identity(ev(0)), b = std::convert::identity(ev(1)), c = { let x = ev(2); x }, d = ev(3), e = same!(ev(4)))) }
        55 => { __k(stylish::format_args!("{1:08.1b}|{:08.1o}#;{:+(bg=default,bold)b}{2:x?}{:b}\\{4:?}{3:(faint,)s}é{2:X}\r\n{:08.1(fg=red)e}<b>{3:08.1(bg=default,bold)s}{4:+(bg=default,bold)s}{{}}{3:(fg=red)o}{:(faint,)x}{4:08.1?}''", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), { let x = ev(3); x }, { ev(4) })) }
        56 => { __k(stylish::format_args!("é{:08.1(fg=red)s}{:+s}\n\n{:>3(bg=default,bold)E}\r{:X}: ", (ev(0),).0, ev(1), { let x = ev(2); x }, ev(3),)) }
        57 => { __k(stylish::format_args!("\t{0:08.1e}: {:+s}<b>", (ev(0),).0)) }
        58 => { __k(stylish::format_args!("\\n{2:08.1(bg=default,bold)s}\n\n{0:+(fg=red)s}<b>{3:(bg=default,bold)o}&{3:>3(fg=red)b} - {1:+s} - {2:08.1x}\r{1:#(faint,)?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", P { 0: ev(0).0 }, same!(ev(1)), ev(2) as &P, *ev(3))) }
        59 => { __k(stylish::format_args!("{:(fg=red)s}{:08.1x}{:08.1(bg=default,bold)s}{:08.1(fg=red)x?}$0{:E}", { ev(0) }, { ev(1) }, *ev(2), ev(3).me(), [ev(4)][0])) }
        60 => { __k(stylish::format_args!(concat!("\"{1:08.1(fg=red)s}é{2:08.1(bg=default", ",bold)?}{{{1:>3s}''", "{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}"), (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) },)) }
        61 => { __k(stylish::format_args!("\n\n{b:(bg=default,bold)e}]{e:s}{a:08.1(faint,)e}\"{d:>3(fg=red)s}a{{b}}c{c:s}　{c:>3(faint,)s}\n\n{d:+(fg=red)s}", a = (|| ev(0))(), b = Some(ev(1)).unwrap(), c = ev(2), d = P { 0: ev(3).0 }, e = (|| ev(4))())) }
        62 => { __k(stylish::format_args!(concat!("[{0:+(fai", "nt,)x", "}|{:+(fg=red)}"), ev(0) as &P,)) }
        63 => { __k(stylish::format_args!("{:?}{:>3(fg=red)}\r\n{:s}{:08.1b}", ev(0), if let p = ev(1) { p } else { unreachable!() }, same!(ev(2)), Some(ev(3)).unwrap(),)) }
        64 => { __k(stylish::format_args!(concat!("{{}}{a:s}<!-- -->{a:+", "(faint,)s}", "{a:>3(bg=default,bold)s}{a:>3o}&"), a = std::convert::identity(ev(0)),)) }
        65 => { __k(stylish::format_args!(concat!("&{0:(fg", "=re", "d)o}\0{0:x?}"), std::convert::identity(ev(0)))) }
        66 => { __k(stylish::format_args!("{0:(fg=red)s}\\{1:(faint,)x}m0;1{2:>3(bg=default,bold)E}: ", P { 0: ev(0).0 }, Some(ev(1)).unwrap(), [ev(2)][0],)) }
        67 => { __k(stylish::format_args!("{c:s}{{{c:s}{1:+(faint,)E}\\{0:08.1x}{1:08.1(bg=default,bold)b}  {1:>3s}&amp;", std::convert::identity(ev(0)), match ev(1) { p => p }, c = (ev(2)))) }
        68 => { __k(stylish::format_args!("{0:b}", ev(0))) }
        69 => { __k(stylish::format_args!("a{{b}}c{1:s}{{{:>3(fg=red)s}é{0:(bg=default,bold)s}%%{1:+(fg=red)b}{1:+(bg=default,bold)e}x{1:+(faint,)e}{:+s}\r\n", std::convert::identity(ev(0)), loop { break ev(1) },)) }
        70 => { __k(stylish::format_args!("{:>3(bg=default,bold)?}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {1:(bg=default,bold)?}[{2:#(fg=red)?}é{2:(faint,)o}{1:(fg=red)x?}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, ev(2))) }
        71 => { __k(stylish::format_args!("<!-- -->{0:#?}a{{b}}c{:x}{0:+(fg=red)s}{0:+s}x", (ev(0),).0)) }
        72 => { __k(stylish::format_args!("\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2),)) }
        73 => { __k(stylish::format_args!("#;{0:08.1(fg=red)E}\u{feff}{1:(faint,)s}{2:08.1(fg=red)s}{4:>3(faint,)s}{3:08.1e}\n", P(ev(0).0), std::convert::identity(ev(1)), (ev(2)), ev(3) as &P, (ev(4),).0,)) }
        74 => { __k(stylish::format_args!("}}{2:(fg=red)s}{3:s}}}{4:s}{:s}|{1:s}$0{4:(faint,)s}　{0:(fg=red)s}{1:>3s}\"", *ev(0), (ev(1),).0, same!(ev(2)), ev(3).me(), P { 0: ev(4).0 })) }
        75 => { __k(stylish::format_args!("\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me())) }
        76 => { __k(stylish::format_args!("\t{0:(fg=red)s}  {:08.1(faint,)s}", loop { break ev(0) })) }
        77 => { __k(stylish::format_args!("\t{2:s}\\{4:+E}é{3:(bg=default,bold)e}a{{b}}c{3:+(faint,)s}{1:>3(fg=red)s}: {0:>3(fg=red)o}", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), ev(3).me(), loop { break ev(4) },)) }
        78 => { __k(stylish::format_args!("é{:s}a{{b}}c{1:08.1(faint,)s}{{{1:>3(bg=default,bold)s}{1:+(fg=red)s}[{1:s}\r\n{0:E}m0;1{1:08.1(bg=default,bold)b}[{:#?}\0{:s}{:>3?}{3:+(faint,)E}\u{feff}", *ev(0), (ev(1),).0, P { 0: ev(2).0 }, std::convert::identity(ev(3)),)) }
        79 => { __k(stylish::format_args!("%%{a:#?}{b:(fg=red)s}é{a:#?}", a = { let x = ev(0); x }, b = ev(1),)) }
        80 => { __k(stylish::format_args!("{1:>3(faint,)s}]{:x}$0{:>3(faint,)s}[{0:(bg=default,bold)?}{0:(bg=default,bold)s}{:+s}1:{:08.1(faint,)s}1:{3:(fg=red)s}{3:>3(faint,)s}{3:(fg=red)s}{:(bg=default,bold)b}{4:#?}\r\n", &&ev(0), same!(ev(1)), &&ev(2), match ev(3) { p => p }, &P(ev(4).0),)) }
        81 => { __k(stylish::format_args!(concat!("{0:(fg=red)s}  {:s}''{0:>3(faint,)e}\"{0:s}\u{feff}{:(faint,)s}'q'{:08.1}'q'{1:(faint", ",)s}&{3:08.1(fg=red)x}{3:+s}é{:+s}]{3:", "(bg=default,bold)s}\0{4:s}\r\n{:08.1E}x{4:08.1(fg=red)x}{4:s}é{4:08.1(bg=default,bold)s}<!-- -->{4:(bg=default,bold)s}\\"), { let x = ev(0); x }, ev(1), *ev(2), *ev(3), P { 0: ev(4).0 })) }
        82 => { __k(stylish::format_args!("{1:+(fg=red)e}{2:08.1(fg=red)s}{{}}{0:+s}{3:08.1(faint,)e}\n\n{:08.1}{2:08.1s}$0{:s}: {0}\"", *ev(0), std::convert::identity(ev(1)), ev(2), *ev(3))) }
        83 => { __k(stylish::format_args!(concat!("\\n{:08.1(fa", "int,)}", "\\n{:08.1(faint,)X}"), *ev(0), same!(ev(1)),)) }
        84 => { __k(stylish::format_args!("{:>3(fg=red)X}　{:+}: {:>3s}", ev(0), std::convert::identity(ev(1)), P { 0: ev(2).0 })) }
        85 => { __k(stylish::format_args!("{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P)) }
        86 => { __k(stylish::format_args!("{2:(fg=red)?}}}{:(fg=red)E}{2:>3s}: {2:(bg=default,bold)s} - {2:x?}a{{b}}c{1:+(bg=default,bold)s}1:", *ev(0), if let p = ev(1) { p } else { unreachable!() }, &&ev(2))) }
        87 => { __k(stylish::format_args!("{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))())) }
        88 => { __k(stylish::format_args!("  {2:s}é{0:#(faint,)?}{1:>3s}[{1:(bg=default,bold)E}{0:+(fg=red)x}{1:>3(faint,)s}", { ev(0) }, match ev(1) { p => p }, (ev(2),).0,)) }
        89 => { __k(stylish::format_args!("}}{:(fg=red)s}é{0:08.1(fg=red)E} - {1:(faint,)b}\\n{:#?}{1:>3E}&{:08.1(bg=default,bold)o}\n{:(faint,)s}　{2:+s}", (ev(0)), same!(ev(1)), ev(2), &*ev(3))) }
        90 => { __k(stylish::format_args!("1:{:>3}<!-- -->{:>3(bg=default,bold)s}{:+(faint,)b}\n", &&ev(0), same!(ev(1)), &*ev(2))) }
        91 => { __k(stylish::format_args!(": {1:+(fg=red)}: {1:+(fg=red)s}a{{b}}c{0:+(fg=red)s}{:(faint,)o}{1:>3(faint,)s}{0:(faint,)s} - {1:+s}{0:s}\n{:08.1(fg=red)s}'q'{1:(faint,)E}{0:08.1(bg=default,bold)}$0", { let x = ev(0); x }, ev(1) as &P,)) }
        92 => { __k(stylish::format_args!("\0{c:08.1(fg=red)?}]{d:(faint,)o}{a:08.1?}\u{feff}{c:>3E}{b:(bg=default,bold)s}\\{d:>3(faint,)E}", a = *ev(0), b = [ev(1)][0], c = &&ev(2), d = &*ev(3))) }
        93 => { __k(stylish::format_args!("{a:>3s}%%", a = *ev(0),)) }
        94 => { __k(stylish::format_args!("{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1)))) }
        95 => { __k(stylish::format_args!("  {b:(faint,)s}$0{c:(fg=red)s}\n\n{b:x}1:{d:+s}''{a:(fg=red)s}", a = &*ev(0), b = *ev(1), c = *ev(2), d = *ev(3))) }
        96 => { __k(stylish::format_args!("&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x })) }
        97 => { __k(stylish::format_args!(concat!("{0:08.1x?}<b>{0:#(fg=red)?}{{}}{:08.1x}{2:x?}x{:e}  {", ":+(faint,)X}\\{2:(fg=red)x}a", "{{b}}c{3:>3s}　{3:(faint,)s}{2:08.1x?}$0{2:(fg=red)o}{:+s}1:{3:(bg=default,bold)x}"), *ev(0), &*ev(1), P(ev(2).0), Some(ev(3)).unwrap(),)) }
        98 => { __k(stylish::format_args!("{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1)),)) }
        99 => { __k(stylish::format_args!("\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4),)) }
        100 => { __k(stylish::format_args!(": {a:(bg=default,bold)X}\0", a = ev(0) as &P,)) }
        101 => { __k(stylish::format_args!("{:>3s}%%{:>3x?}'q'{:(fg=red)e}<!-- -->{:08.1(fg=red)s}", &*ev(0), P(ev(1).0), &*ev(2), [ev(3)][0],)) }
        102 => { __k(stylish::format_args!(concat!("{c:(fg=red)s}{", "a:+s}{{", "}}{b:+E}{a:(fg=red)?}"), a = [ev(0)][0], b = std::convert::identity(ev(1)), c = Some(ev(2)).unwrap())) }
        103 => { __k(stylish::format_args!(concat!("é{1:(fg=red)s}\r\n{4:s}#;{4:s}　{0:", "#?}\0{3:08.1(faint", ",)s}m0;1{1:>3s} - {2:>3(bg=default,bold)s}a{{b}}c"), { let x = ev(0); x }, P(ev(1).0), (ev(2),).0, ev(3).me(), ev(4).me(),)) }
        104 => { __k(stylish::format_args!("{:08.1(faint,)o}\u{feff}{:08.1(fg=red)}{{}}", std::convert::identity(ev(0)), { let x = ev(1); x },)) }
        105 => { __k(stylish::format_args!("{0:x}\r{:s}", ev(0) as &P)) }
        106 => { __k(stylish::format_args!("{:>3s}{2:(bg=default,bold)?}{:(fg=red)o}{:>3(faint,)s}　", (ev(0)), ev(1) as &P, ev(2).me())) }
        107 => { __k(stylish::format_args!("{:08.1(fg=red)o}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:>3(faint,)s}", (|| ev(0))(), ev(1).me())) }
        108 => { __k(stylish::format_args!("{1:#(fg=red)?}&amp;{3:s}{2:(faint,)s}{0:>3(faint,)X}{{{0:>3(fg=red)s}{1:s}\"{2:(fg=red)s}", ev(0).me(), ev(1), &P(ev(2).0), *ev(3))) }
        109 => { __k(stylish::format_args!("1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() })) }
        110 => { __k(stylish::format_args!("{1:>3(faint,)s}\\n{3:>3(faint,)s}{:s}: {:08.1s}{0:+s}{3:(faint,)s}{4:s}{:08.1(bg=default,bold)b}", (ev(0)), { ev(1) }, &*ev(2), Some(ev(3)).unwrap(), P { 0: ev(4).0 })) }
        111 => { __k(stylish::format_args!(concat!("<!-- -->{b:(bg=defaul", "t,bold)s}{", "{}}{c:+s}}}{a:+(faint,)X}a{{b}}c"), a = if let p = ev(0) { p } else { unreachable!() }, b = &&ev(1), c = [ev(2)][0],)) }
        112 => { __k(stylish::format_args!(concat!("{:>3(faint,", ")o}{:0", "8.1E}{:+(fg=red)x}"), ev(0), if let p = ev(1) { p } else { unreachable!() }, &*ev(2))) }
        113 => { __k(stylish::format_args!("{0:o}|{c:(faint,)}{1:(bg=default,bold)s}", ev(0).me(), std::convert::identity(ev(1)), c = match ev(2) { p => p },)) }
        114 => { __k(stylish::format_args!("{{{0:b}\r{0:s}\r\n{0:(faint,)s}  ", &&ev(0))) }
        115 => { __k(stylish::format_args!("[{0:+E}$0{1:?}: {1:(fg=red)}#;{0:+(bg=default,bold)b}}}{0:(fg=red)s}{0:+(bg=default,bold)s}\0{1:(faint,)x?}{1:08.1(fg=red)s}%%{0:08.1(fg=red)s}\u{feff}{:>3(faint,)s}{2:#(bg=default,bold)?}{:>3s}{{}}{:+(bg=default,bold)x?}\t{2:08.1(bg=default,bold)X}é{2:>3(faint,)s}{2:(bg=default,bold)?}&amp;{1:(fg=red)s}{2:08.1x}\n\n{1:(faint,)s}", std::convert::identity(ev(0)), ev(1), (|| ev(2))(),)) }
        116 => { __k(stylish::format_args!("{{{:+(bg=default,bold)s}{:(bg=default,bold)s}{:08.1(fg=red)b}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me(), P { 0: ev(2).0 })) }
        117 => { __k(stylish::format_args!("x{0:#?}é{c:08.1(faint,)X}\t{b:>3s}{c:>3X}{b:>3(bg=default,bold)?}]{d:s}'q'{d:08.1s}'q'", { ev(0) }, b = &&ev(1), c = [ev(2)][0], d = *ev(3))) }
        118 => { __k(stylish::format_args!("{{{:(fg=red)s}1:{1:08.1(fg=red)?}<!-- -->{0:X}\r\n{1:08.1b}{0:(fg=red)s}{1:s}　{1:(faint,)b}{:+(fg=red)s}m0;1{0:s}{1:s}é{2:+(fg=red)s}<b>{2:s}}}{2:08.1s}{}\r{2:(faint,)s}1:{2:08.1s}", ev(0), P { 0: ev(1).0 }, P(ev(2).0))) }
        119 => { __k(stylish::format_args!("\n\n{:+E}\n\n{1:+(fg=red)s}{0:08.1e}{0:08.1(bg=default,bold)s}\\{:(bg=default,bold)s}{1:+(faint,)}  {0:08.1(faint,)}a{{b}}c{:#(bg=default,bold)?}{3:x?}{{{2:(faint,)E}1:{:(fg=red)b}$0{3:+X}\"", { let x = ev(0); x }, &&ev(1), (ev(2),).0, (ev(3)),)) }
        120 => { __k(stylish::format_args!("%%{:s}{2:>3(bg=default,bold)X}{0:(faint,)s}\"{:s}[{:>3E}é{2:>3E}{{}}{3:(faint,)s}{2:+(faint,)E}{4:(fg=red)e}|{3:b}{:08.1s}'q'{3:08.1s}: {4:s}: {:08.1(fg=red)e}]{3:s}\n\n{4:>3}\\", ev(0).me(), loop { break ev(1) }, P { 0: ev(2).0 }, (ev(3)), (|| ev(4))())) }
        121 => { __k(stylish::format_args!("{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0),)) }
        122 => { __k(stylish::format_args!("{1:>3E}''{:(bg=default,bold)e}''{2:>3(bg=default,bold)s}m0;1{2:?}é{:?}é{2:>3(bg=default,bold)b}x{:(bg=default,bold)s}", &&ev(0), match ev(1) { p => p }, std::convert::identity(ev(2)),)) }
        123 => { __k(stylish::format_args!("\"{b:+(faint,)e}{b:>3(bg=default,bold)o}x{a:#?}&amp;{a:>3(fg=red)s}{e:s} - {d:08.1s}[{c:#?}", a = (|| ev(0))(), b = std::convert::identity(ev(1)), c = match ev(2) { p => p }, d = ev(3), e = same!(ev(4)))) }
        124 => { __k(stylish::format_args!("&amp;{c:s}{1:s}{0:+s}{1:>3x}é{d:#(faint,)?}\\", &P(ev(0).0), &*ev(1), c = (|| ev(2))(), d = &&ev(3),)) }
        125 => { __k(stylish::format_args!("#;{:s}{:+s}{2:+?}{2:+}\\{2:>3e}{:08.1e}{2:(bg=default,bold)?}x{3:x?}{:>3s}\n\n{3:(faint,)}é", { ev(0) }, &&ev(1), ev(2), ev(3),)) }
        126 => { __k(stylish::format_args!(concat!("[{:(fg=", "red", ")e}<!-- -->"), &&ev(0),)) }
        127 => { __k(stylish::format_args!("<!-- -->{:+(bg=default,bold)s}'q'{:(fg=red)b}　{1:+?}]", ev(0), P(ev(1).0))) }
        128 => { __k(stylish::format_args!("{}<!-- -->{3:08.1s}{3:08.1(faint,)s}{:s}{3:>3b}<!-- -->{2:08.1x}{{}}{:+s}'q'", std::convert::identity(ev(0)), &*ev(1), std::convert::identity(ev(2)), *ev(3),)) }
        129 => { __k(stylish::format_args!("\0{0:e}{0:>3s}}}{0:+s}{{}}{:>3(fg=red)b}", std::convert::identity(ev(0)))) }
        130 => { __k(stylish::format_args!("}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) },)) }
        131 => { __k(stylish::format_args!("é{0:+(fg=red)o}{e:+(faint,)E}a{{b}}c{d:(bg=default,bold)s}{2:s}{1:+(fg=red)s}{0:+s}é", same!(ev(0)), (|| ev(1))(), &&ev(2), d = loop { break ev(3) }, e = { let x = ev(4); x },)) }
        132 => { __k(stylish::format_args!("1:{1:+(faint,)x?}|{0:s}<b>{0:08.1(bg=default,bold)s}", Some(ev(0)).unwrap(), *ev(1),)) }
        133 => { __k(stylish::format_args!("a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0))) }
        134 => { __k(stylish::format_args!(concat!("{0:08.1b}{:s}\t{0:08.1(faint,)x", "}lorem <i> & lo", "rem <i> & lorem <i> & lorem <i> & lorem <i> & "), Some(ev(0)).unwrap())) }
        135 => { __k(stylish::format_args!("{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1),)) }
        136 => { __k(stylish::format_args!("#;{a:>3s}{a:(faint,)x} - {a:08.1(bg=default,bold)s}&amp;{a:08.1e}%%", a = &P(ev(0).0))) }
        137 => { __k(stylish::format_args!("é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x })) }
        138 => { __k(stylish::format_args!("\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0))) }
        139 => { __k(stylish::format_args!(concat!("'q'{1:+(faint,)s}{e:+b}", "{d:08.1x}　{2", ":?}{2:08.1(bg=default,bold)x}\r{0:s}"), (ev(0),).0, *ev(1), (|| ev(2))(), d = &&ev(3), e = { ev(4) },)) }
        140 => { __k(stylish::format_args!("}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() })) }
        141 => { __k(stylish::format_args!("a{{b}}c{0:+(faint,)x}{0:08.1s}\u{feff}{0:e}]", std::convert::identity(ev(0)))) }
        142 => { __k(stylish::format_args!("{:>3(faint,)s}{2:>3x}{:(bg=default,bold)E}&{2:08.1(faint,)}{:08.1(fg=red)?}{{{3:>3s}{{}}{3:x}m0;1{:(bg=default,bold)s}%%", ev(0).me(), { let x = ev(1); x }, (|| ev(2))(), ev(3) as &P,)) }
        143 => { __k(stylish::format_args!("\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P,)) }
        144 => { __k(stylish::format_args!("é{:>3s}{:08.1E}{:08.1(faint,)x?}<!-- -->{1:#?}%%{1:+(bg=default,bold)s}m0;1{2:(fg=red)X}a{{b}}c{2:(fg=red)s}&amp;{:+(fg=red)s}{{}}{:(fg=red)?}", Some(ev(0)).unwrap(), P { 0: ev(1).0 }, same!(ev(2)), P { 0: ev(3).0 }, same!(ev(4)))) }
        145 => { __k(stylish::format_args!("{{{e:08.1x?}\\{1:(bg=default,bold)E}{2:s}|{3:+x?}m0;1{0:+(bg=default,bold)s}\u{feff}", &P(ev(0).0), (ev(1),).0, if let p = ev(2) { p } else { unreachable!() }, std::convert::identity(ev(3)), e = [ev(4)][0])) }
        146 => { __k(stylish::format_args!("{1:>3(bg=default,bold)b}{0:>3s}&", P { 0: ev(0).0 }, Some(ev(1)).unwrap())) }
        147 => { __k(stylish::format_args!("#;{0:>3s}", P { 0: ev(0).0 },)) }
        148 => { __k(stylish::format_args!("{{}}{:(fg=red)s}{2:x?}{2:#(bg=default,bold)?}{:(faint,)s}&", &*ev(0), std::convert::identity(ev(1)), { ev(2) },)) }
        149 => { __k(stylish::format_args!("\r{a:X}", a = { ev(0) })) }
        150 => { __k(stylish::format_args!("m0;1{:>3b}{0:(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", match ev(0) { p => p },)) }
        151 => { __k(stylish::format_args!("{d:08.1x?}#;{2:s}{0:+(faint,)s}{1:+X}\\n{e:(bg=default,bold)s}#;{1:#(faint,)?}\n\n{d:+(bg=default,bold)s}01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", (ev(0)), { let x = ev(1); x }, *ev(2), d = (|| ev(3))(), e = Some(ev(4)).unwrap())) }
        152 => { __k(stylish::format_args!("\t{:(faint,)o}\n\n{:s}'q'{2:08.1s}1:{:+(fg=red)s} - {:>3(bg=default,bold)s}%%", ev(0).me(), P(ev(1).0), ev(2), &*ev(3))) }
        153 => { __k(stylish::format_args!("\r\n{c:>3(faint,)s}'q'{b:>3(bg=default,bold)s}{d:s}]{a:+(bg=default,bold)s} - ", a = P(ev(0).0), b = [ev(1)][0], c = ev(2).me(), d = ev(3) as &P)) }
        154 => { __k(stylish::format_args!("{:(bg=default,bold)s}|{:(faint,)s}{:(bg=default,bold)x?}{{", same!(ev(0)), { ev(1) }, &*ev(2),)) }
        155 => { __k(stylish::format_args!("|{0:#(bg=default,bold)?}[{:(faint,)s}", { let x = ev(0); x })) }
        156 => { __k(stylish::format_args!("[{c:(fg=red)E}é{b:>3(faint,)s}{d:+(fg=red)x?}%%{0:+}m0;1{e:08.1(faint,)s}", &*ev(0), b = P(ev(1).0), c = (ev(2),).0, d = &*ev(3), e = *ev(4))) }
        157 => { __k(stylish::format_args!(concat!("\t{:+", "(fa", "int,)s}"), ev(0).me())) }
        158 => { __k(stylish::format_args!("a{{b}}c{1:08.1s}{:08.1(bg=default,bold)?}{0:#?}{:(fg=red)s}{0:s}{{{2:+(fg=red)s}{:08.1x}", &*ev(0), [ev(1)][0], &&ev(2),)) }
        159 => { __k(stylish::format_args!("{0:+(faint,)s}}}{1:(faint,)}''{1:08.1(faint,)}\"{0:08.1(bg=default,bold)s}{:+(fg=red)s}{1:(fg=red)X}\"", *ev(0), loop { break ev(1) },)) }
        160 => { __k(stylish::format_args!(concat!("[{1:(bg=default,bold)s}\"{0:s", "}é{2:>3(faint", ",)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n"), *ev(0), &*ev(1), same!(ev(2)), *ev(3),)) }
        161 => { __k(stylish::format_args!("é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:(faint,)s}{1:+(bg=default,bold)}é{:+X}\n\n{1:?}]{0:(bg=default,bold)s}", match ev(0) { p => p }, if let p = ev(1) { p } else { unreachable!() })) }
        162 => { __k(stylish::format_args!(concat!("{2:+(bg=default,bo", "ld)s}}}{1:", "s}{2:s}'q'{0:(fg=red)E}&amp;"), P(ev(0).0), Some(ev(1)).unwrap(), ev(2) as &P)) }
        163 => { __k(stylish::format_args!("m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() })) }
        164 => { __k(stylish::format_args!("''{0:08.1s}{1:e}{1:(faint,)s}é{1:s}{:#(faint,)?}{0:08.1s}{{", P { 0: ev(0).0 }, &&ev(1),)) }
        165 => { __k(stylish::format_args!("[{3:+s}é{:+(fg=red)E}\u{feff}{3:+s}{:>3(fg=red)s}a{{b}}c{:(faint,)s}{3:(bg=default,bold)s}{2:08.1(bg=default,bold)}<b>{1:s}", loop { break ev(0) }, ev(1), [ev(2)][0], ev(3),)) }
        166 => { __k(stylish::format_args!("{c:s}{b:+b}\u{feff}{a:s}", a = std::convert::identity(ev(0)), b = &&ev(1), c = (ev(2)),)) }
        167 => { __k(stylish::format_args!(concat!("{a:+(faint,)s}\n\n{b:08.1s}", "&amp;{c:+(bg=", "default,bold)e}{c:08.1o}{a:+(fg=red)s}]"), a = Some(ev(0)).unwrap(), b = match ev(1) { p => p }, c = Some(ev(2)).unwrap())) }
        168 => { __k(stylish::format_args!("{0:+(fg=red)X}　{0:>3(bg=default,bold)s} - {0:(faint,)s}\n{:08.1(fg=red)s}{0:>3x}", loop { break ev(0) },)) }
        169 => { __k(stylish::format_args!("m0;1{:08.1s}{{}}", P(ev(0).0))) }
        170 => { __k(stylish::format_args!(concat!("%%{0:+?}{0:s}{", "0:s}{:(", "fg=red)s}{0:(faint,)}"), P(ev(0).0))) }
        171 => { __k(stylish::format_args!("}}{:08.1(faint,)s}{1:+s}{1:s}{2:s}\\n{0:#(bg=default,bold)?}a{{b}}c{:>3e}&{0:b}{2:>3(faint,)E}é{1:x}{:08.1?}x{2:>3(bg=default,bold)E}é{3:08.1(fg=red)o}%%{3:(fg=red)s}\r{:>3s}{2:(fg=red)}{3:(fg=red)o}\u{feff}", { ev(0) }, P(ev(1).0), same!(ev(2)), same!(ev(3)))) }
        172 => { __k(stylish::format_args!("x{:>3(faint,)s}{3:#(faint,)?}{3:s}{:>3(fg=red)s}\\n{3:(bg=default,bold)s}é{2:+(bg=default,bold)}{:(faint,)x?}}}", { let x = ev(0); x }, &P(ev(1).0), { let x = ev(2); x }, P { 0: ev(3).0 })) }
        173 => { __k(stylish::format_args!("a{{b}}c{:+x}", ev(0))) }
        174 => { __k(stylish::format_args!("'q'{1:+x?}%%{:(fg=red)?}'q'{1:o}{:+X}{1:>3(faint,)s}{1:x?}", ev(0).me(), loop { break ev(1) },)) }
        175 => { __k(stylish::format_args!("{0:+(bg=default,bold)x}\n{0:s}&amp;{:+x?}[", &P(ev(0).0),)) }
        176 => { __k(stylish::format_args!("\\{:>3(fg=red)s}: {3:08.1(bg=default,bold)x}\\{0:08.1(fg=red)E}{1:>3(fg=red)s}{1:08.1s}\"{:08.1(bg=default,bold)s}: {:>3E}{:08.1s}", { ev(0) }, ev(1), ev(2) as &P, { let x = ev(3); x },)) }
        177 => { __k(stylish::format_args!(concat!("1:{:>3E", "}{:", "(fg=red)s}\u{feff}"), match ev(0) { p => p }, ev(1),)) }
        178 => { __k(stylish::format_args!("{0:#?}{:(faint,)s}", loop { break ev(0) },)) }
        179 => { __k(stylish::format_args!("{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap())) }
        180 => { __k(stylish::format_args!("{0:s}\n{:(bg=default,bold)E}", ev(0) as &P,)) }
        181 => { __k(stylish::format_args!("%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0),)) }
        182 => { __k(stylish::format_args!(concat!("\u{feff}{a:08.1(fg", "=red)s", "}\\{a:#?}]{a:08.1s}"), a = std::convert::identity(ev(0)))) }
        183 => { __k(stylish::format_args!("\0{:>3(fg=red)s}{0:08.1(faint,)s}", ev(0).me())) }
        184 => { __k(stylish::format_args!("{a:>3(faint,)x}{a:s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {b:+o}", a = { ev(0) }, b = P { 0: ev(1).0 },)) }
        185 => { __k(stylish::format_args!("m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0])) }
        186 => { __k(stylish::format_args!(concat!("\"{1:+(bg=default,bold)s}%%{0:0", "8.1s}\r\n{2:>3(bg", "=default,bold)s}{0:s}<b>{2:(bg=default,bold)s}"), std::convert::identity(ev(0)), match ev(1) { p => p }, std::convert::identity(ev(2)))) }
        187 => { __k(stylish::format_args!("}}{0:#(faint,)?}1:{0:08.1x}{0:s}\0", *ev(0))) }
        188 => { __k(stylish::format_args!("{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))(),)) }
        189 => { __k(stylish::format_args!(concat!("a{{b}}c{1:e}{0:08.", "1E}{1:+E}{", "1:08.1(fg=red)e}{0:s}a{{b}}c"), match ev(0) { p => p }, (|| ev(1))())) }
        190 => { __k(stylish::format_args!(concat!(": {0:(faint,)b}{", "0:X}  {0", ":(fg=red)s}{1:(faint,)x?}"), (ev(0)), if let p = ev(1) { p } else { unreachable!() },)) }
        191 => { __k(stylish::format_args!("1:{0:08.1s}\0{:(bg=default,bold)s}&{0:b}{0:>3(fg=red)x?}", loop { break ev(0) },)) }
        192 => { __k(stylish::format_args!("{1:(fg=red)s}{:#(faint,)?}{0:08.1s}{1:#(bg=default,bold)?}{:o}: ", P { 0: ev(0).0 }, P(ev(1).0))) }
        193 => { __k(stylish::format_args!("{0:08.1(bg=default,bold)s}{{}}{c:>3(faint,)X}: {c:s}#;{c:>3}{{{b:08.1(faint,)s}\0{d:+(bg=default,bold)s}\t", P(ev(0).0), b = ev(1), c = Some(ev(2)).unwrap(), d = ev(3) as &P,)) }
        194 => { __k(stylish::format_args!("a{{b}}c{d:08.1s}m0;1{c:>3(fg=red)s}{a:s}{a:#(bg=default,bold)?}\n{a:s}{b:08.1s}\\{d:>3(fg=red)s}<b>", a = (ev(0),).0, b = (|| ev(1))(), c = &&ev(2), d = loop { break ev(3) },)) }
        195 => { __k(stylish::format_args!("{:>3s}\0{:+e}1:{0:}\t", *ev(0), ev(1) as &P,)) }
        196 => { __k(stylish::format_args!(concat!(" - {:+s}x{:+(faint", ",)E}{:+X}$", "0{:08.1(bg=default,bold)e}$0"), match ev(0) { p => p }, { ev(1) }, (|| ev(2))(), (|| ev(3))())) }
        197 => { __k(stylish::format_args!("]{0:08.1(fg=red)s}1:{1:+(bg=default,bold)s}{0:s}{{}}{1:>3s}\\{1:>3(fg=red)}", *ev(0), &P(ev(1).0),)) }
        198 => { __k(stylish::format_args!("{:08.1(fg=red)s}{:(faint,)x}{:>3(faint,)o}%%{2:s}<!-- -->{3:(faint,)?}]", *ev(0), *ev(1), P(ev(2).0), if let p = ev(3) { p } else { unreachable!() })) }
        199 => { __k(stylish::format_args!("}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3))) }
        200 => { __k(stylish::format_args!("]{2:>3(faint,)x?}{4:>3s}[{1:+o}é{0:08.1s}<!-- -->{3:08.1(faint,)x?}", &P(ev(0).0), if let p = ev(1) { p } else { unreachable!() }, (ev(2)), &*ev(3), match ev(4) { p => p })) }
        201 => { __k(stylish::format_args!("\r\n{c:#(bg=default,bold)?}{c:(fg=red)x}{b:#?}\\{a:+s}{{}}{c:08.1b} - ", a = if let p = ev(0) { p } else { unreachable!() }, b = (ev(1)), c = loop { break ev(2) },)) }
        202 => { __k(stylish::format_args!("{1:s}\\{0:>3s}\"{2:(faint,)x}x{e:+(faint,)x?}{d:s}a{{b}}c{e:+(faint,)?}{1:(fg=red)s}", ev(0), loop { break ev(1) }, loop { break ev(2) }, d = ev(3) as &P, e = ev(4) as &P)) }
        203 => { __k(stylish::format_args!("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:s}{{}}{0:>3(bg=default,bold)X}m0;1{0:08.1(bg=default,bold)X}\n{:08.1(faint,)s}", ev(0))) }
        204 => { __k(stylish::format_args!("''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0)))) }
        205 => { __k(stylish::format_args!("\r\n{:08.1E}\u{feff}{:+?}{:(fg=red)s}\r\n{:s}#;", (ev(0),).0, std::convert::identity(ev(1)), (|| ev(2))(), &P(ev(3).0),)) }
        206 => { __k(stylish::format_args!("{0:+x}&{c:+(fg=red)b}{e:>3b}#;{0:>3(fg=red)s}{1:+(fg=red)o}\t{0:+}}}{d:08.1(bg=default,bold)?}", match ev(0) { p => p }, (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }, d = &*ev(3), e = ev(4),)) }
        207 => { __k(stylish::format_args!("\"{:+(fg=red)e}{:08.1(faint,)s}{:+(faint,)s}", P { 0: ev(0).0 }, *ev(1), &&ev(2))) }
        208 => { __k(stylish::format_args!("''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) },)) }
        209 => { __k(stylish::format_args!("{:+x?}$0{0:>3b}%%{0:>3}{1:b}é{:>3(fg=red)s}{:08.1(faint,)s}{2:#(bg=default,bold)?}{3:(bg=default,bold)?}\"{2:#(bg=default,bold)?}\n\n{:08.1(faint,)?}\r\n{3:>3x}{3:(faint,)s}\n", Some(ev(0)).unwrap(), [ev(1)][0], (|| ev(2))(), Some(ev(3)).unwrap())) }
        210 => { __k(stylish::format_args!(concat!("x{", ":", ">3X}"), P(ev(0).0))) }
        211 => { __k(stylish::format_args!("\n\n{:s}\u{feff}{2:(faint,)s}{3:>3(bg=default,bold)X}{2:08.1(faint,)s}[{1:>3(bg=default,bold)o}", &*ev(0), &*ev(1), P { 0: ev(2).0 }, if let p = ev(3) { p } else { unreachable!() },)) }
        212 => { __k(stylish::format_args!("{0:(fg=red)X}\t{:(bg=default,bold)}#;{:08.1(bg=default,bold)}{2:+}%%{1:>3s}m0;1{2:+(bg=default,bold)b}<b>{1:08.1(bg=default,bold)x?}: {1:(bg=default,bold)o}]{2:(fg=red)?}%%{:+?}\n{1:(fg=red)s}{3:?}\\n{:+(bg=default,bold)E}{3:(fg=red)s}{2:E}a{{b}}c", ev(0), { ev(1) }, &&ev(2), (ev(3)))) }
        213 => { __k(stylish::format_args!("{1:s}{1:>3(faint,)b}1:{c:X}|{0:>3x?}", [ev(0)][0], { ev(1) }, c = if let p = ev(2) { p } else { unreachable!() })) }
        214 => { __k(stylish::format_args!("1:{b:(fg=red)s}]{0:#(bg=default,bold)?}{0:+s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:e}: ", if let p = ev(0) { p } else { unreachable!() }, b = same!(ev(1)))) }
        215 => { __k(stylish::format_args!("{:08.1(faint,)X}{:>3s}]{:(fg=red)s}[", P(ev(0).0), [ev(1)][0], ev(2) as &P,)) }
        216 => { __k(stylish::format_args!(concat!("\r\n{0:>3(faint,)b}{{}}{1:>", "3(faint,)s}{1", ":>3(bg=default,bold)s}{2:08.1(fg=red)b}"), ev(0).me(), match ev(1) { p => p }, P { 0: ev(2).0 },)) }
        217 => { __k(stylish::format_args!("\r\n{a:#(faint,)?}]{a:>3x}  {a:(fg=red)s}{{{a:s}|", a = P { 0: ev(0).0 })) }
        218 => { __k(stylish::format_args!("<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1))) }
        219 => { __k(stylish::format_args!("{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1)))) }
        220 => { __k(stylish::format_args!("}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me())) }
        221 => { __k(stylish::format_args!("a{{b}}c{0:(faint,)s}%%{:(bg=default,bold)}{1:(fg=red)s}{1:+(faint,)s}&amp;{:08.1(faint,)b} - ", Some(ev(0)).unwrap(), ev(1),)) }
        222 => { __k(stylish::format_args!("1:{:(bg=default,bold)s}{:s}x{:(faint,)e}<b>{:(faint,)}{:>3(faint,)x}m0;1", { let x = ev(0); x }, &*ev(1), *ev(2), P { 0: ev(3).0 }, ev(4) as &P)) }
        223 => { __k(stylish::format_args!("{0:+(faint,)s} - {0:>3s}<b>{0:X}a{{b}}c", &P(ev(0).0))) }
        224 => { __k(stylish::format_args!("%%{a:+s}{a:+(faint,)?}<b>", a = ev(0),)) }
        225 => { __k(stylish::format_args!("{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))())) }
        226 => { __k(stylish::format_args!("\t{a:08.1(fg=red)}\u{feff}{a:(bg=default,bold)o}{a:x}", a = same!(ev(0)),)) }
        227 => { __k(stylish::format_args!("{a:+(faint,)}{b:#(fg=red)?}{c:08.1(fg=red)s}", a = match ev(0) { p => p }, b = (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() })) }
        228 => { __k(stylish::format_args!("{:s}é{:(bg=default,bold)s}&{:>3s}|{:08.1(bg=default,bold)E}{{}}{:08.1(faint,)b}&", *ev(0), P { 0: ev(1).0 }, match ev(2) { p => p }, &&ev(3), if let p = ev(4) { p } else { unreachable!() },)) }
        229 => { __k(stylish::format_args!("\"{1:>3s}é{0:>3(faint,)o}\"{3:>3(bg=default,bold)x}{2:b}\r{4:(faint,)s}\t", same!(ev(0)), (ev(1)), [ev(2)][0], { ev(3) }, (|| ev(4))(),)) }
        230 => { __k(stylish::format_args!("{10:s}\\{0:+(bg=default,bold)s}#;{12:+(bg=default,bold)s}{9:#?}\\{6:E}{{{2:(fg=red)}\r{1:+s}\n\n{5:>3(bg=default,bold)s}{7:+(bg=default,bold)x?}{3:08.1s}{11:+(faint,)s}{8:(bg=default,bold)e}#;{4:(fg=red)?}  ", &*ev(0), (ev(1),).0, loop { break ev(2) }, (|| ev(3))(), (ev(4)), std::convert::identity(ev(5)), (ev(6),).0, std::convert::identity(ev(7)), ev(8), &P(ev(9).0), (ev(10)), &&ev(11), &*ev(12))) }
        231 => { __k(stylish::format_args!(concat!("1:{:+(faint,)s} - {9:>3s}{1:+x}{2:s}1:{5:(fg=red)x}{2:(fg=red)E}}}{5:#?}]{8:#?}{3:(bg=default,bold", ")x}lorem <i> & lorem <i> & lorem <i> & lorem <i> ", "& lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>3(bg=default,bold)s}<b>{7:08.1(fg=red)s}]{6:+s}\u{feff}{4:08.1e}"), loop { break ev(0) }, same!(ev(1)), (|| ev(2))(), P(ev(3).0), (ev(4),).0, P(ev(5).0), &*ev(6), same!(ev(7)), loop { break ev(8) }, ev(9))) }
        232 => { __k(stylish::format_args!("&amp;{:(fg=red)s}{:08.1X}{:(bg=default,bold)s}1:{:(fg=red)s}$0{:+s}$0{:08.1s}{:08.1(faint,)s}{:(fg=red)s}\0{:(bg=default,bold)s}''{:08.1x?}{:e}{:+s}: {:08.1s}{:08.1(faint,)s}\r{:08.1(faint,)s}]{:s}{:e}{{{:08.1(fg=red)s}\\", { let x = ev(0); x }, (ev(1)), ev(2).me(), { ev(3) }, [ev(4)][0], (|| ev(5))(), *ev(6), same!(ev(7)), (|| ev(8))(), P(ev(9).0), (ev(10)), (|| ev(11))(), *ev(12), (ev(13)), ev(14) as &P, ev(15).me(), { ev(16) }, { ev(17) },)) }
        233 => { __k(stylish::format_args!("{_f:(bg=default,bold)x}{e:+(faint,)s}}}{c:08.1(fg=red)o}　{é:+x?}{width:+(fg=red)s}\t{b:(bg=default,bold)s}<b>{x:+(bg=default,bold)b}#;{s:>3o}x{p:>3(faint,)o}\n{fg:+(bg=default,bold)s}a{{b}}c{a:>3(faint,)s}\u{feff}{x1:(faint,)s}\\{d:>3(faint,)E}{bold:+s}[{n8:(fg=red)s}{d:08.1(bg=default,bold)s}", a = same!(ev(0)), b = *ev(1), c = ev(2).me(), d = (ev(3)), e = same!(ev(4)), _f = same!(ev(5)), width = if let p = ev(6) { p } else { unreachable!() }, x1 = ev(7), n8 = ev(8), é = [ev(9)][0], fg = (|| ev(10))(), bold = Some(ev(11)).unwrap(), s = *ev(12), x = ev(13), p = std::convert::identity(ev(14)))) }
        234 => { __k(stylish::format_args!(concat!("{:(faint,)X} - {:>3E}<b>{:+E}#;{:>3(faint,)s}: {:", "#(faint,)?}{:s}{:08.1(fa", "int,)e}{:>3o}{:08.1x?}{:(bg=default,bold)s}\0{:>3e}{}{:s}\\n{:08.1(faint,)s}"), (ev(0),).0, std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3), loop { break ev(4) }, *ev(5), P(ev(6).0), (ev(7),).0, &P(ev(8).0), P(ev(9).0), if let p = ev(10) { p } else { unreachable!() }, (ev(11),).0, Some(ev(12)).unwrap(), (ev(13),).0,)) }
        235 => { __k(stylish::format_args!("{d:+x}{e:08.1(bg=default,bold)s}{c:>3(fg=red)s}{b:>3(bg=default,bold)s}\n{0:#?}\\{_f:>3(bg=default,bold)s}]{width:(bg=default,bold)?} - ", { let x = ev(0); x }, b = (ev(1),).0, c = { ev(2) }, d = &P(ev(3).0), e = &&ev(4), _f = (|| ev(5))(), width = (ev(6),).0,)) }
        236 => { __k(stylish::format_args!("{1:(faint,)?}{0:08.1s}<b>{2:#(bg=default,bold)?}\"{8:+(fg=red)s}\r\n{bold:(bg=default,bold)o}m0;1{7:(faint,)s}x{5:e}{x:#(faint,)?}$0{n16:#(fg=red)?}]{p:(faint,)x?}{4:>3x?} - {x:X}\0{6:(fg=red)s}<!-- -->{10:(bg=default,bold)X}{3:+(faint,)x}é{s:+(bg=default,bold)s}{3:+(fg=red)X}x{9:08.1x?}]{6:E} - {o:08.1(fg=red)s}\r\n", &P(ev(0).0), P { 0: ev(1).0 }, std::convert::identity(ev(2)), ev(3) as &P, loop { break ev(4) }, ev(5), *ev(6), &*ev(7), P(ev(8).0), match ev(9) { p => p }, ev(10) as &P, bold = ev(11), s = ev(12), x = P(ev(13).0), p = &*ev(14), o = &*ev(15), n16 = ev(16) as &P,)) }
        237 => { __k(stylish::format_args!("\"{:(fg=red)s}\t{:08.1s}{:+s}\0{:08.1b} - {:(bg=default,bold)s}{:(faint,)X}$0{:>3(bg=default,bold)s}{:+s}{:s}{:08.1?}: {:s}{:s}{:+(fg=red)s}{:>3s}{:>3(faint,)?} - {:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }, P { 0: ev(1).0 }, ev(2).me(), *ev(3), ev(4), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, *ev(7), Some(ev(8)).unwrap(), (ev(9)), match ev(10) { p => p }, ev(11), std::convert::identity(ev(12)), std::convert::identity(ev(13)), &P(ev(14).0), (ev(15),).0)) }
        238 => { __k(stylish::format_args!("x{9:>3(bg=default,bold)s}{6:+(faint,)s}\n\n{:+(bg=default,bold)e}}}{:X}é{:(fg=red)s}|{7:>3(fg=red)o}{:+(fg=red)?}é{:x?}]{11:#(faint,)?}[{:08.1s}{:08.1x?}{:08.1(bg=default,bold)s}\"{:+}%%{12:08.1(bg=default,bold)s}\t{:08.1(fg=red)s}é{10:>3(bg=default,bold)E}#;", ev(0), P { 0: ev(1).0 }, (ev(2)), std::convert::identity(ev(3)), same!(ev(4)), ev(5), ev(6) as &P, match ev(7) { p => p }, { let x = ev(8); x }, &&ev(9), std::convert::identity(ev(10)), *ev(11), ev(12))) }
        239 => { __k(stylish::format_args!("m0;1{3:>3s}{5:+s}m0;1{2:s}<!-- -->{0:>3(fg=red)}[{4:#(bg=default,bold)?}\n\n{6:>3e}<b>{1:+s}<b>{4:(fg=red)s}　", [ev(0)][0], { let x = ev(1); x }, ev(2), { let x = ev(3); x }, std::convert::identity(ev(4)), { let x = ev(5); x }, P(ev(6).0))) }
        240 => { __k(stylish::format_args!("{_f:#(fg=red)?}{fg:s}&{width:>3(fg=red)x?}{é:>3(faint,)s}　{bold:(bg=default,bold)s}{x1:+s}{e:#(fg=red)?}{n8:+(bg=default,bold)s}\\{b:#?}\r{a:>3(fg=red)e}{x1:08.1s}\r{a:>3?}{bold:08.1s}\r\n{d:(faint,)o}$0{c:(bg=default,bold)?}\0", a = [ev(0)][0], b = &*ev(1), c = loop { break ev(2) }, d = (ev(3)), e = *ev(4), _f = &&ev(5), width = *ev(6), x1 = std::convert::identity(ev(7)), n8 = *ev(8), é = ev(9) as &P, fg = ev(10), bold = { ev(11) },)) }
        241 => { __k(stylish::format_args!("{8:(faint,)s}{5:s}{3:08.1(fg=red)?}{0:08.1X}\n\n{10:+(bg=default,bold)s}{{{2:#?}{6:+(bg=default,bold)x}{4:+(faint,)s}{7:+X}{1:(faint,)x?}{9:>3(faint,)x?}&", *ev(0), *ev(1), { let x = ev(2); x }, &P(ev(3).0), { ev(4) }, [ev(5)][0], [ev(6)][0], Some(ev(7)).unwrap(), same!(ev(8)), *ev(9), ev(10).me(),)) }
        242 => { __k(stylish::format_args!("&amp;{8:08.1E}é{15:>3?}\n{15:(faint,)x?}]{:08.1(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{12:+(bg=default,bold)X}]{:(faint,)s}{6:(fg=red)o}{:08.1(faint,)s}1:{7:(bg=default,bold)s}\0{:e}|{15:(bg=default,bold)s}$0{:+(faint,)o}\u{feff}{:(bg=default,bold)s}{16:+s}<b>{12:#(faint,)?}{13:s} - {9:08.1s}{10:08.1X}{14:+X}#;{7:(faint,)s}{11:>3(bg=default,bold)s}\\", ev(0) as &P, (|| ev(1))(), loop { break ev(2) }, &&ev(3), { let x = ev(4); x }, &*ev(5), *ev(6), (ev(7),).0, &P(ev(8).0), P(ev(9).0), ev(10).me(), (ev(11)), [ev(12)][0], ev(13).me(), Some(ev(14)).unwrap(), std::convert::identity(ev(15)), (|| ev(16))(),)) }
        243 => { __k(stylish::format_args!(concat!("{{}}{n8:+?}\n{5:08.1E}a{{b}}c{6:x?}m0;1{0:s}{2:>3x}&{3:(faint,)x}\n", "{é:>3(fg=red)s}\u{feff}{s:#(fg=red)?}{0:", "+o}{bold:(bg=default,bold)?}{fg:s}{2:+s}\r\n{1:(fg=red)s}{4:+?}{7:#(fg=red)?}&{é:(bg=default,bold)s}"), ev(0), { let x = ev(1); x }, same!(ev(2)), &P(ev(3).0), ev(4), Some(ev(5)).unwrap(), &*ev(6), *ev(7), n8 = P { 0: ev(8).0 }, é = { ev(9) }, fg = { ev(10) }, bold = P { 0: ev(11).0 }, s = &&ev(12))) }
        244 => { __k(stylish::format_args!("\r{}{0:08.1(faint,)s}{2:>3x?}\u{feff}{1:>3e}{:x}\n{:+(faint,)e}　{:(fg=red)s}{3:+(fg=red)s}]{3:#?}{4:+b}#;{5:08.1(fg=red)s}{:(bg=default,bold)?}{:>3o}{4:s}", std::convert::identity(ev(0)), ev(1).me(), std::convert::identity(ev(2)), loop { break ev(3) }, same!(ev(4)), (|| ev(5))())) }
        245 => { __k(stylish::format_args!("\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() },)) }
        246 => { __k(stylish::format_args!("{0:#?}{{}}{:>3(fg=red)s}{:08.1x?}{1:>3s}<b>{3:>3(bg=default,bold)x?}: {:#?}[{:>3(faint,)s}: {2:>3(fg=red)}  {:s}{4:(fg=red)E}{5:+s}]{3:b}{{{:+s}\n{:>3s}\r{:s}a{{b}}c{:s}{:>3(bg=default,bold)s}\t{10:08.1b}{9:(bg=default,bold)s}&amp;{10}\0{:08.1(faint,)?}''{11:08.1o}%%{11:>3(fg=red)?}　{11:08.1(faint,)o}{10:s}'q'{:>3(faint,)s}", (ev(0),).0, { let x = ev(1); x }, loop { break ev(2) }, same!(ev(3)), &*ev(4), if let p = ev(5) { p } else { unreachable!() }, { ev(6) }, &P(ev(7).0), &*ev(8), loop { break ev(9) }, loop { break ev(10) }, std::convert::identity(ev(11)),)) }
        247 => { __k(stylish::format_args!(concat!("\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0"), &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P,)) }
        248 => { __k(stylish::format_args!("{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5))) }
        249 => { __k(stylish::format_args!("　{8:E} - {12:s}\n{13:08.1(faint,)s}{17:>3s}]{1:>3s}\r{19:>3(bg=default,bold)s}{2:x}|{9:>3(faint,)s}{14:+E}\r{3:+(fg=red)b}{15:+E}{7:(bg=default,bold)s}\r{11:s}{18:(bg=default,bold)s}$0{10:+s}}}{4:08.1(faint,)?}{5:08.1(bg=default,bold)s}{16:08.1(faint,)s}{0:(fg=red)o}%%{6:>3(fg=red)}", { let x = ev(0); x }, P { 0: ev(1).0 }, &&ev(2), [ev(3)][0], ev(4), [ev(5)][0], same!(ev(6)), ev(7) as &P, (ev(8),).0, (|| ev(9))(), ev(10), (ev(11),).0, { let x = ev(12); x }, Some(ev(13)).unwrap(), (ev(14)), ev(15), ev(16), match ev(17) { p => p }, loop { break ev(18) }, match ev(19) { p => p })) }
        250 => { __k(stylish::format_args!("\\{1:x?}  {7:(fg=red)e}{{}}{9:08.1s}{4:#?}\\{0:(faint,)x}$0{7:08.1E}{10:(bg=default,bold)s}{5:(fg=red)s}''{8:(bg=default,bold)s}{6:>3b}{8:(bg=default,bold)s}}}{2:>3(fg=red)x?}{3:>3(bg=default,bold)s}<b>{9:08.1s}", (ev(0),).0, &P(ev(1).0), loop { break ev(2) }, if let p = ev(3) { p } else { unreachable!() }, &*ev(4), { ev(5) }, P(ev(6).0), &*ev(7), (ev(8)), ev(9), &&ev(10),)) }
        251 => { __k(stylish::format_args!("{:+(bg=default,bold)s}: {:b}{:08.1s}\n{:(bg=default,bold)?}\t{:08.1(bg=default,bold)E}|{:#(fg=red)?}{:+(fg=red)?}", match ev(0) { p => p }, match ev(1) { p => p }, (ev(2),).0, &P(ev(3).0), &&ev(4), loop { break ev(5) }, (|| ev(6))())) }
        252 => { __k(stylish::format_args!("m0;1{:08.1(bg=default,bold)s}\\n{:#(faint,)?}|{:(faint,)e}[{:b}{{}}{:>3s}x{:(faint,)E}", { let x = ev(0); x }, P { 0: ev(1).0 }, *ev(2), std::convert::identity(ev(3)), ev(4), (ev(5),).0)) }
        253 => { __k(stylish::format_args!(concat!("{b:(faint,)s}\n\n{width:>3(fg=red)x?}", "{d:o}{_f:+(faint,", ")s}<b>{width:s}\0{c:+e}{e:x?}''{c:o}\\{0:+x?}{_f:+X}'q'"), &P(ev(0).0), b = if let p = ev(1) { p } else { unreachable!() }, c = ev(2) as &P, d = match ev(3) { p => p }, e = [ev(4)][0], _f = [ev(5)][0], width = if let p = ev(6) { p } else { unreachable!() },)) }
        254 => { __k(stylish::format_args!("&amp;{1:s}\r{9:08.1s}m0;1{3:08.1(faint,)s}1:{4:08.1(faint,)s}　{9:+(fg=red)s}{13:#(fg=red)?}é{7:08.1(faint,)b}x{2:#?}{8:+x?}{5:>3b}a{{b}}c{17:>3(fg=red)s}<!-- -->{15:x}#;{14:s}'q'{11:>3(faint,)E}[{10:+(faint,)E}|{16:+}\n{0:(fg=red)s}{12:+(faint,)s}{6:08.1(bg=default,bold)s}&{16:e}", &&ev(0), *ev(1), same!(ev(2)), ev(3) as &P, &&ev(4), (ev(5),).0, *ev(6), match ev(7) { p => p }, ev(8) as &P, (ev(9)), ev(10), ev(11), ev(12).me(), match ev(13) { p => p }, (ev(14)), { ev(15) }, *ev(16), *ev(17),)) }
        255 => { __k(stylish::format_args!("é{0:b}{3:+s}{{{5:+(faint,)s}{4:+s}\u{feff}{3:(faint,)E}$0{7:08.1s}　{8:08.1x}{6:>3(fg=red)o}\r{1:+s}{2:s}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, *ev(2), &&ev(3), ev(4).me(), P { 0: ev(5).0 }, ev(6), *ev(7), { ev(8) },)) }
        256 => { __k(stylish::format_args!(concat!("{:(faint,)?}{:08.1(faint,)s}\t{:+s}a{{b}}c{:b}1:{:08.1b}\\{:08.1}\0{:08.1s}", "{:08.1?}{:(bg=default,bold)X}{:>3o}{", ":08.1s}{:s}{:>3(bg=default,bold)s}\0{:>3s}\n\n{:08.1(fg=red)b}1:{:08.1s}[{:#(faint,)?}&amp;{:(bg=default,bold)X}"), ev(0), [ev(1)][0], { ev(2) }, P(ev(3).0), ev(4).me(), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, Some(ev(7)).unwrap(), P { 0: ev(8).0 }, (|| ev(9))(), P(ev(10).0), (ev(11),).0, *ev(12), std::convert::identity(ev(13)), (ev(14),).0, { ev(15) }, std::convert::identity(ev(16)), &&ev(17))) }
        257 => { __k(stylish::format_args!("{:+?}|{0:+x?}{0:+?}<b>{1:X}'q'{:+s}{:(bg=default,bold)E}\\n{3:08.1s}&{:(faint,)s}#;{3:o}\\{:#?}[{:+s}{:#?}{6:08.1(faint,)X}<b>{6:#?}{7:+x}%%{:+(fg=red)x}'q'{9:>3?}{:+s} - {9:>3(faint,)s}|{:(fg=red)E}{9:(bg=default,bold)X}#;{10:>3}&{9:(bg=default,bold)s}1:{:>3(faint,)} - {9:(fg=red)s}é{:+x}{12:+(fg=red)?}<b>{11:+(faint,)s}{13:(bg=default,bold)o}{:>3(bg=default,bold)s}\\{14:08.1s}{{{:(faint,)b}[{:08.1(faint,)s}\n\n{14:>3E}{:+(faint,)}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{15:>3(faint,)s}", match ev(0) { p => p }, std::convert::identity(ev(1)), same!(ev(2)), std::convert::identity(ev(3)), (ev(4),).0, ev(5) as &P, ev(6).me(), loop { break ev(7) }, [ev(8)][0], ev(9), same!(ev(10)), loop { break ev(11) }, &&ev(12), { let x = ev(13); x }, (ev(14)), Some(ev(15)).unwrap())) }
        258 => { __k(stylish::format_args!("{{{n8:o}#;{s:>3(faint,)s}m0;1{fg:(faint,)E}{3:(fg=red)e}{{{é:+(fg=red)s}\r{bold:>3s}: {x1:08.1(fg=red)s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {0:08.1(faint,)s}x{width:}{2:+(faint,)s}#;{1:08.1(fg=red)e}  {4:>3(fg=red)s}: {x:#(faint,)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{5:08.1(faint,)X}\"", std::convert::identity(ev(0)), P(ev(1).0), ev(2).me(), Some(ev(3)).unwrap(), P(ev(4).0), &&ev(5), width = std::convert::identity(ev(6)), x1 = &&ev(7), n8 = (ev(8),).0, é = *ev(9), fg = { let x = ev(10); x }, bold = &&ev(11), s = ev(12), x = ev(13) as &P,)) }
        259 => { __k(stylish::format_args!("'q'{n8:08.1b}<!-- -->{x1:+(bg=default,bold)?}: {0:#(fg=red)?}%%{0:+o}{fg:08.1(faint,)s}\n\n{2:+(faint,)s}: {1:(bg=default,bold)}}}{width:>3(fg=red)s}{é:(fg=red)s}&amp;{3:(fg=red)s}{_f:#?}}}{s:08.1(bg=default,bold)}\r{bold:08.1(faint,)}{e:08.1(faint,)s}<b>{width:+(faint,)}{1:(faint,)x}#;", (ev(0)), &*ev(1), ev(2), { let x = ev(3); x }, e = [ev(4)][0], _f = (|| ev(5))(), width = ev(6), x1 = P(ev(7).0), n8 = [ev(8)][0], é = match ev(9) { p => p }, fg = same!(ev(10)), bold = *ev(11), s = (ev(12),).0,)) }
        260 => { let args = ev(0); let export = ev(1); __k(stylish::format_args!("a{{b}}c{args:#(bg=default,bold)s}|{args:(fg=red)s}m0;1{export:E}")) }
        261 => { let x = ev(0); let r#match = ev(1); let self_ = ev(2); __k(stylish::format_args!("{0:X}x{match:>3s}{x:>3(fg=red)E}{match:(bg=default,bold)X}\t{self_:s}{match:s}", { ev(3) },)) }
        262 => { let f = ev(0); let export = ev(1); __k(stylish::format_args!("  {f:>3b}{f:>3(fg=red)?}{{}}{f:s}{export:(fg=red)X}%%{export:(fg=red)s}")) }
        263 => { let f = ev(0); __k(stylish::format_args!("\r{f:#x?}{{{f:>3(fg=red)E}{f:#(bg=default,bold)}")) }
        264 => { let inner = ev(0); let export = ev(1); __k(stylish::format_args!("{export:(fg=red)s}\u{feff}{export:>3(fg=red)E}#;{inner:#(bg=default,bold)s}#;{inner:#?}{export:(fg=red)}")) }
        265 => { let arg = ev(0); let r#match = ev(1); let Some_ = ev(2); __k(stylish::format_args!("{{{arg:(fg=red)b}|{match:>3(bg=default,bold)b}{arg:e}{x:(bg=default,bold)E}\\{Some_:(bg=default,bold)?}{Some_:>3(fg=red)s}{match:>3s}", x = match ev(3) { p => p })) }
        266 => { let x = ev(0); let arg = ev(1); __k(stylish::format_args!("\u{feff}{arg:>3(bg=default,bold)}{x:s} - {x:s}{arg:(fg=red)E}é{x:#(bg=default,bold)x}")) }
        267 => { let r#fn = ev(0); let diff = ev(1); __k(stylish::format_args!(": {0:#(bg=default,bold)e}\\{fn:?}{{}}{diff:s}{arg:>3(fg=red)E}", Some(ev(2)).unwrap(), arg = &P(ev(3).0),)) }
        268 => { let export = ev(0); let formatter = ev(1); let r#fn = ev(2); let args = ev(3); __k(stylish::format_args!("é{args:s}\n\n{args:(fg=red)?}m0;1{q4:>3(bg=default,bold)s}{fn:#(bg=default,bold)?}\\{export:(bg=default,bold)x?}{formatter:(bg=default,bold)x}", q4 = Some(ev(4)).unwrap())) }
        269 => { let inner = ev(0); __k(stylish::format_args!("{inner:(bg=default,bold)?}\u{feff}{inner:(bg=default,bold)x?}|{inner:>3s}{{{inner:(bg=default,bold)s}")) }
        270 => { let f = ev(0); __k(stylish::format_args!("{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me(),)) }
        271 => { let arg = ev(0); let r#loop = ev(1); let Some_ = ev(2); __k(stylish::format_args!("{arg:#(fg=red)}{Some_:(bg=default,bold)x}''{Some_:>3e}{loop:s}")) }
        272 => { let i = ev(0); let w = ev(1); __k(stylish::format_args!("\"{i:(fg=red)X}\r\n{w:>3s}{args:(bg=default,bold)o}&amp;{i:>3s}''{i:>3(fg=red)?}\r{Some_:x?}", Some_ = &&ev(2), args = *ev(3),)) }
        273 => { let diff = ev(0); __k(stylish::format_args!("{diff:X}é{diff:s}")) }
        274 => { let style = ev(0); let r#match = ev(1); __k(stylish::format_args!("{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}")) }
        275 => { let e = ev(0); let x = ev(1); __k(stylish::format_args!("{{}}{0:?}{e:>3E}\t{x:>3s}\\{0:?}{x:x}\\n{e:(fg=red)s}", std::convert::identity(ev(2)),)) }
        276 => { let r = ev(0); let style = ev(1); let formatter = ev(2); __k(stylish::format_args!("{style:>3(fg=red)E}'q'{style:#(bg=default,bold)x}{q3:>3(fg=red)s}{q3:#s}\u{feff}{r:#(bg=default,bold)}<b>{formatter:>3(bg=default,bold)s}", q3 = match ev(3) { p => p })) }
        277 => { let inner = ev(0); let args = ev(1); __k(stylish::format_args!("{inner:x?}<!-- -->{args:>3(bg=default,bold)s}{inner:>3s}|{inner:s}")) }
        278 => { let Some_ = ev(0); let r = ev(1); __k(stylish::format_args!("{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}")) }
        279 => { let r = ev(0); __k(stylish::format_args!("{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p })) }
        280 => { let i = ev(0); let diff = ev(1); let arg = ev(2); let self_ = ev(3); __k(stylish::format_args!("\u{feff}{diff:>3s}$0{i:(bg=default,bold)o}[{arg:(fg=red)e}{arg:s}{self_:s}")) }
        281 => { let f = ev(0); __k(stylish::format_args!("  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))())) }
        282 => { let style = ev(0); let arg = ev(1); let r#match = ev(2); __k(stylish::format_args!("%%{match:>3E} - {0:>3?}#;{arg:(bg=default,bold)s}{Some_:#X}{0:>3(bg=default,bold)e}{{{style:#(bg=default,bold)s}: {0:>3x?}", ev(3).me(), Some_ = Some(ev(4)).unwrap())) }
        283 => { let inner = ev(0); let arg = ev(1); __k(stylish::format_args!("{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me(),)) }
        284 => { let r = ev(0); let i = ev(1); __k(stylish::format_args!("{r:#(bg=default,bold)s}\n\n{i:(fg=red)o}]{q2:>3s}{i:>3(bg=default,bold)s}", q2 = match ev(2) { p => p },)) }
        285 => { let args = ev(0); __k(stylish::format_args!("{{}}{0:(bg=default,bold)s}{{{args:#s}[{x:s}{x:(bg=default,bold)s}", ev(1), x = Some(ev(2)).unwrap(),)) }
        286 => { let self_ = ev(0); let arg = ev(1); __k(stylish::format_args!("[{arg:(bg=default,bold)}{self_:(bg=default,bold)s}{self_:(fg=red)s}\\{self_:#(bg=default,bold)s}")) }
        287 => { let formatter = ev(0); __k(stylish::format_args!("{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() },)) }
        288 => { let f = ev(0); __k(stylish::format_args!("{f:s}\n{0:?}{1:#(bg=default,bold)b}|{f:(fg=red)?}{0:s}{q3:>3s}", ev(1).me(), *ev(2), q3 = ev(3),)) }
        289 => { let formatter = ev(0); __k(stylish::format_args!("é{f:>3(fg=red)x}{formatter:x?}", f = *ev(1))) }
        290 => { let export = ev(0); let Some_ = ev(1); __k(stylish::format_args!(": {Some_:(fg=red)x}{export:(fg=red)s}")) }
        291 => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); __k(stylish::format_args!("{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}")) }
        292 => { let r#match = ev(0); __k(stylish::format_args!("{match:>3s}{match:(fg=red)s}{match:>3s}")) }
        293 => { let arg = ev(0); __k(stylish::format_args!("{arg:#s}a{{b}}c{arg:(bg=default,bold)E}")) }
        294 => { let f = ev(0); __k(stylish::format_args!("{f:(bg=default,bold)s}''{0:>3s}", std::convert::identity(ev(1)),)) }
        295 => { let x = ev(0); __k(stylish::format_args!("　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}")) }
        296 => { let args = ev(0); __k(stylish::format_args!("<!-- -->{args:>3(bg=default,bold)s}")) }
        297 => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); __k(stylish::format_args!("{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}")) }
        298 => { let diff = ev(0); let Some_ = ev(1); __k(stylish::format_args!("<b>{1:#E}{Some_:(fg=red)s}\r\n{0:(fg=red)s}{1:s}{diff:#(fg=red)X}{diff:(bg=default,bold)x?}\n\n{diff:s}", *ev(2), same!(ev(3)))) }
        299 => { let inner = ev(0); __k(stylish::format_args!("{inner:(bg=default,bold)X}{inner:#(bg=default,bold)?}\n\n{inner:#s}{inner:(bg=default,bold)e}")) }
        300 => { let f = ev(0); let self_ = ev(1); let args = ev(2); let e = ev(3); __k(stylish::format_args!("&{self_:#E}&{args:#(fg=red)s}\r{x:#X}{self_:#(bg=default,bold)?}{e:#s}|{f:x?}", x = *ev(4),)) }
        301 => { let arg = ev(0); __k(stylish::format_args!("{0:s}[{arg:>3(bg=default,bold)s}", ev(1))) }
        302 => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); __k(stylish::format_args!("\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}")) }
        303 => { let i = ev(0); let r#loop = ev(1); __k(stylish::format_args!("{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4))) }
        304 => { let args = ev(0); let f = ev(1); let self_ = ev(2); __k(stylish::format_args!("\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}")) }
        305 => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); __k(stylish::format_args!("{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}")) }
        306 => { let args = ev(0); let r = ev(1); __k(stylish::format_args!("é{export:>3s}<!-- -->{args:>3e}]{r:E}{args:#X}", export = same!(ev(2)),)) }
        307 => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); __k(stylish::format_args!("{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}")) }
        308 => { let r = ev(0); __k(stylish::format_args!("{2:(fg=red)s}\u{feff}{r:#s}]{0:#s}%%{0:#s}{r:s}{r:>3s}{{{1:o}", std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3))) }
        309 => { let Some_ = ev(0); let r = ev(1); __k(stylish::format_args!("{r:s}{Some_:#s}\u{feff}{Some_:#(bg=default,bold)s}{r:X}{Some_:(fg=red)x}")) }
        _ => unreachable!(),
    }
}

/// The same through the one-shot and writing macros.
pub fn eval_plain(i: usize, ev: &dyn Fn(usize) -> &'static P) -> String {
    match i {
        0 => { stylish::plain::format!(concat!("m0;1{c:>3x?}: ", "{a:+s}{", "a:(fg=red)b}é{b:X}1:"), a = &&ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = *ev(2)) }
        1 => { stylish::plain::format!("é{4:08.1(fg=red)s}{3:>3s}{:+(faint,)e}\r{:(bg=default,bold)x}{:>3E}{1:+(faint,)o}", ev(0), *ev(1), *ev(2), [ev(3)][0], ev(4)) }
        2 => { stylish::plain::format!("|{:08.1(fg=red)s}", { let x = ev(0); x }) }
        3 => { stylish::plain::format!("m0;1{0:?}'q'{:+(bg=default,bold)s}{0:+(bg=default,bold)s}{{}}{0:+(fg=red)e}\n", ev(0) as &P) }
        4 => { stylish::plain::format!("{0:s}{:+(bg=default,bold)E}{0:08.1s}", (ev(0),).0) }
        5 => { stylish::plain::format!("{:+(bg=default,bold)s}''{1:(fg=red)x?}<b>{1:+}{:(faint,)s}x{2:>3s}{2:(fg=red)s}", (ev(0)), [ev(1)][0], (ev(2))) }
        6 => { stylish::plain::format!("{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p }) }
        7 => { stylish::plain::format!(concat!("{0:>3(bg=default,bold)?}{", "b:(faint,)o}1", ":{b:s}\"{0:(fg=red)?}|{b:08.1(faint,)?}]"), std::convert::identity(ev(0)), b = P(ev(1).0)) }
        8 => { stylish::plain::format!("{}{:+(bg=default,bold)o}\t{:(faint,)s}{:s}", ev(0) as &P, std::convert::identity(ev(1)), { ev(2) }, (ev(3))) }
        9 => { stylish::plain::format!("\r{b:+s}<!-- -->{a:>3s}'q'{b:>3(fg=red)x?}\\n{a}", a = &&ev(0), b = *ev(1)) }
        10 => { stylish::plain::format!("{:#(bg=default,bold)?}{4:e}é{3:>3(bg=default,bold)b}  {0:+x?}{3:08.1(fg=red)x}{:>3(faint,)x}{1:>3s}{:s}<!-- -->{4:b}", &*ev(0), &P(ev(1).0), &&ev(2), &P(ev(3).0), (|| ev(4))()) }
        11 => { stylish::plain::format!("{{}}{:(fg=red)s}{3:>3(faint,)X}{1:+}<!-- -->{0:(faint,)o}&{2:>3s}", P { 0: ev(0).0 }, { ev(1) }, Some(ev(2)).unwrap(), ev(3)) }
        12 => { stylish::plain::format!("\u{feff}{4:+(fg=red)s}{2:s}{3:+x}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1x?}{3:08.1(bg=default,bold)E}]{3:s}{{}}{1:(fg=red)s}&amp;{0:08.1(fg=red)}\\", *ev(0), (|| ev(1))(), &*ev(2), Some(ev(3)).unwrap(), Some(ev(4)).unwrap()) }
        13 => { stylish::plain::format!("\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0)) }
        14 => { stylish::plain::format!(concat!("$0{:o}{:08.1s}[{:+(bg", "=default,b", "old)b}\u{feff}{:+(bg=default,bold)s} - "), (|| ev(0))(), Some(ev(1)).unwrap(), loop { break ev(2) }, [ev(3)][0]) }
        15 => { stylish::plain::format!("{:>3(fg=red)b}: ", ev(0)) }
        16 => { stylish::plain::format!(": {2:#(faint,)?}{2:+(faint,)s}{1:+(faint,)X}{1:e}\n{0:08.1s}\n\n", P(ev(0).0), (ev(1),).0, match ev(2) { p => p }) }
        17 => { stylish::plain::format!("\r{:>3(fg=red)?}\\{0:08.1(bg=default,bold)s}{0:(fg=red)}<!-- -->{0:+E}{:08.1(faint,)E}]{:s}\n\n{1:+s}\r\n{:>3(faint,)b}\t", loop { break ev(0) }, ev(1), if let p = ev(2) { p } else { unreachable!() }, Some(ev(3)).unwrap()) }
        18 => { stylish::plain::format!("{1:08.1(fg=red)s}{0:(fg=red)s} - {2:}é", std::convert::identity(ev(0)), { let x = ev(1); x }, loop { break ev(2) }) }
        19 => { stylish::plain::format!("{{}}{:(bg=default,bold)s}{:+(fg=red)E}1:{2:+(bg=default,bold)x?}&amp;{1:+o}1:{:#(faint,)?}{:>3s}", *ev(0), match ev(1) { p => p }, loop { break ev(2) }, [ev(3)][0]) }
        20 => { stylish::plain::format!(concat!("{0:>3(bg=default,bold)e}&{0:(bg=", "default,bold)E}{0", ":+s}{:+(bg=default,bold)s}{0:+(fg=red)s}&amp;{:s}"), P(ev(0).0), Some(ev(1)).unwrap()) }
        21 => { stylish::plain::format!("é{3:08.1x?}  {3:>3s}{:+(bg=default,bold)s}\\n{:(fg=red)s}\n\n{:>3e}", if let p = ev(0) { p } else { unreachable!() }, ev(1) as &P, match ev(2) { p => p }, ev(3).me()) }
        22 => { stylish::plain::format!(concat!("{:08.1(bg=default,bold)", "s}%%{0:>3e}{", "0:(fg=red)X}<b>{:>3e}\n\n{:+e}{0:+b}\\"), *ev(0), Some(ev(1)).unwrap(), std::convert::identity(ev(2))) }
        23 => { stylish::plain::format!("m0;1{:s}", std::convert::identity(ev(0))) }
        24 => { stylish::plain::format!("\u{feff}{0:s}<b>{0:(fg=red)s}{:+s}x{0:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }) }
        25 => { stylish::plain::format!("{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) }) }
        26 => { stylish::plain::format!("{1:+b}{2:s}{d:08.1s}1:{0:+(faint,)}}}", ev(0) as &P, [ev(1)][0], &P(ev(2).0), d = std::convert::identity(ev(3))) }
        27 => { stylish::plain::format!("{:08.1s}{:>3(fg=red)s}<!-- -->", (ev(0),).0, std::convert::identity(ev(1))) }
        28 => { stylish::plain::format!("}}{c:>3(faint,)b}{c:+(bg=default,bold)x}1:{d:>3(bg=default,bold)s}{b:#(fg=red)?}#;{a:>3s}{d:>3(fg=red)b}x{a:s}", a = Some(ev(0)).unwrap(), b = P { 0: ev(1).0 }, c = ev(2), d = &*ev(3)) }
        29 => { stylish::plain::format!("x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me()) }
        30 => { stylish::plain::format!("'q'{:+(faint,)?}　{:(bg=default,bold)s}  {:#(bg=default,bold)?}", ev(0).me(), (ev(1),).0, ev(2)) }
        31 => { stylish::plain::format!("\\{:(bg=default,bold)X}", ev(0)) }
        32 => { stylish::plain::format!(concat!("#;{0:>3(fg=", "red)s}", "%%{0:>3(fg=red)s}\n"), ev(0) as &P) }
        33 => { stylish::plain::format!("{0:o} - {:+(fg=red)e}1:{1:x}{1:+b}\r\n{:(faint,)e}", ev(0) as &P, &&ev(1)) }
        34 => { stylish::plain::format!("x{1:08.1s}{:(faint,)x?}\r\n{:E}{1:(bg=default,bold)x}{1:>3(fg=red)s}$0{0:(bg=default,bold)?}", &*ev(0), P(ev(1).0)) }
        35 => { stylish::plain::format!(concat!("{0:+(fg=r", "ed)b}", "{0:+(fg=red)s}"), P(ev(0).0)) }
        36 => { stylish::plain::format!(": {2:08.1s}é{1:(faint,)s}{0:08.1b}{0:>3(faint,)s}#;", ev(0).me(), ev(1), same!(ev(2))) }
        37 => { stylish::plain::format!("{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0))) }
        38 => { stylish::plain::format!("{2:s}é{0:08.1(fg=red)X}a{{b}}c{:(fg=red)s}{:#(faint,)?}&amp;{}{0:08.1s}{3:>3s} - {:#(faint,)?}  ", { let x = ev(0); x }, &*ev(1), P { 0: ev(2).0 }, (ev(3),).0) }
        39 => { stylish::plain::format!("é{d:08.1(fg=red)s}]{a:(faint,)X}<!-- -->{c:#(bg=default,bold)?}\n{b:+X}  ", a = { ev(0) }, b = P { 0: ev(1).0 }, c = ev(2) as &P, d = std::convert::identity(ev(3))) }
        40 => { stylish::plain::format!("a{{b}}c{2:(fg=red)X}{{}}{4:+s}{3:(fg=red)s}{0:08.1(faint,)X}{1:08.1s}%%{3:>3s}", (ev(0)), &&ev(1), match ev(2) { p => p }, ev(3).me(), *ev(4)) }
        41 => { stylish::plain::format!(concat!("]{c:>3(faint,)s}{b:08", ".1b}{a:>3(", "faint,)s}}}{c:s}1:{b:+(faint,)s}"), a = loop { break ev(0) }, b = *ev(1), c = std::convert::identity(ev(2))) }
        42 => { stylish::plain::format!("$0{a:>3(bg=default,bold)x?}{b:08.1(faint,)x?}{b:+(bg=default,bold)E}&amp;{b:+(faint,)b}", a = ev(0), b = match ev(1) { p => p }) }
        43 => { stylish::plain::format!("a{{b}}c{:+(faint,)b}{:X}}}{1:08.1}", std::convert::identity(ev(0)), ev(1)) }
        44 => { stylish::plain::format!(concat!(" - {a:+(fai", "nt,)s}", "1:{b:>3(faint,)s}["), a = if let p = ev(0) { p } else { unreachable!() }, b = &P(ev(1).0)) }
        45 => { stylish::plain::format!("{1:+(faint,)e}%%{0:s}{2:(faint,)o}{2:s}", P(ev(0).0), *ev(1), ev(2)) }
        46 => { stylish::plain::format!("#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x }) }
        47 => { stylish::plain::format!("\\n{a:(bg=default,bold)s}{c:(fg=red)x}{d:08.1s}{e:08.1(bg=default,bold)o}%%{e:>3x?}{b:E}''{b:08.1(faint,)s}\\", a = loop { break ev(0) }, b = P(ev(1).0), c = &P(ev(2).0), d = (ev(3),).0, e = P(ev(4).0)) }
        48 => { stylish::plain::format!("é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2)) }
        49 => { stylish::plain::format!("{e:08.1(fg=red)s}é{c:08.1(fg=red)e}#;{a:(bg=default,bold)E}\t{d:+X}''{b:(bg=default,bold)s}{e:s}{c:08.1(fg=red)s}\u{feff}", a = *ev(0), b = { ev(1) }, c = std::convert::identity(ev(2)), d = *ev(3), e = (|| ev(4))()) }
        50 => { stylish::plain::format!(concat!("{4:08.1s} - {1:(bg=default,b", "old)o}a{{b}}c{", "3:+(faint,)E}{:08.1s}{4:#(faint,)?}\t{2:#?}"), [ev(0)][0], ev(1) as &P, (ev(2),).0, &P(ev(3).0), (|| ev(4))()) }
        51 => { stylish::plain::format!("$0{0:>3(fg=red)s}\\n{:08.1(faint,)x?}: {0:+(bg=default,bold)}{:>3s}{2:(faint,)s}{{{:>3s}}}{2:+(bg=default,bold)s}{{{2:s}''{2:08.1}{2:>3(faint,)x?}{:08.1s}{3:+(fg=red)s}{2:(faint,)E}&amp;", *ev(0), if let p = ev(1) { p } else { unreachable!() }, ev(2) as &P, &*ev(3)) }
        52 => { stylish::plain::format!("{:s}|{:#?}", [ev(0)][0], std::convert::identity(ev(1))) }
        53 => { stylish::plain::format!("{:+(bg=default,bold)s}\\{0:s}{0:08.1x}{0:+(fg=red)E}'q'", P(ev(0).0)) }
        54 => { stylish::plain::format!("\r\n{c:(bg=default,bold)}{a:+s}\t{d:+s}{a:(faint,)e}{e:(bg=default,bold)s}{b:08.1s}", a = std::convert::identity(ev(0)), b = std::convert::identity(ev(1)), c = { let x = ev(2); x }, d = ev(3), e = same!(ev(4))) }
        55 => { stylish::plain::format!("{1:08.1b}|{:08.1o}#;{:+(bg=default,bold)b}{2:x?}{:b}\\{4:?}{3:(faint,)s}é{2:X}\r\n{:08.1(fg=red)e}<b>{3:08.1(bg=default,bold)s}{4:+(bg=default,bold)s}{{}}{3:(fg=red)o}{:(faint,)x}{4:08.1?}''", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), { let x = ev(3); x }, { ev(4) }) }
        56 => { stylish::plain::format!("é{:08.1(fg=red)s}{:+s}\n\n{:>3(bg=default,bold)E}\r{:X}: ", (ev(0),).0, ev(1), { let x = ev(2); x }, ev(3)) }
        57 => { stylish::plain::format!("\t{0:08.1e}: {:+s}<b>", (ev(0),).0) }
        58 => { stylish::plain::format!("\\n{2:08.1(bg=default,bold)s}\n\n{0:+(fg=red)s}<b>{3:(bg=default,bold)o}&{3:>3(fg=red)b} - {1:+s} - {2:08.1x}\r{1:#(faint,)?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", P { 0: ev(0).0 }, same!(ev(1)), ev(2) as &P, *ev(3)) }
        59 => { stylish::plain::format!("{:(fg=red)s}{:08.1x}{:08.1(bg=default,bold)s}{:08.1(fg=red)x?}$0{:E}", { ev(0) }, { ev(1) }, *ev(2), ev(3).me(), [ev(4)][0]) }
        60 => { stylish::plain::format!(concat!("\"{1:08.1(fg=red)s}é{2:08.1(bg=default", ",bold)?}{{{1:>3s}''", "{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}"), (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) }) }
        61 => { stylish::plain::format!("\n\n{b:(bg=default,bold)e}]{e:s}{a:08.1(faint,)e}\"{d:>3(fg=red)s}a{{b}}c{c:s}　{c:>3(faint,)s}\n\n{d:+(fg=red)s}", a = (|| ev(0))(), b = Some(ev(1)).unwrap(), c = ev(2), d = P { 0: ev(3).0 }, e = (|| ev(4))()) }
        62 => { stylish::plain::format!(concat!("[{0:+(fai", "nt,)x", "}|{:+(fg=red)}"), ev(0) as &P) }
        63 => { stylish::plain::format!("{:?}{:>3(fg=red)}\r\n{:s}{:08.1b}", ev(0), if let p = ev(1) { p } else { unreachable!() }, same!(ev(2)), Some(ev(3)).unwrap()) }
        64 => { stylish::plain::format!(concat!("{{}}{a:s}<!-- -->{a:+", "(faint,)s}", "{a:>3(bg=default,bold)s}{a:>3o}&"), a = std::convert::identity(ev(0))) }
        65 => { stylish::plain::format!(concat!("&{0:(fg", "=re", "d)o}\0{0:x?}"), std::convert::identity(ev(0))) }
        66 => { stylish::plain::format!("{0:(fg=red)s}\\{1:(faint,)x}m0;1{2:>3(bg=default,bold)E}: ", P { 0: ev(0).0 }, Some(ev(1)).unwrap(), [ev(2)][0]) }
        67 => { stylish::plain::format!("{c:s}{{{c:s}{1:+(faint,)E}\\{0:08.1x}{1:08.1(bg=default,bold)b}  {1:>3s}&amp;", std::convert::identity(ev(0)), match ev(1) { p => p }, c = (ev(2))) }
        68 => { stylish::plain::format!("{0:b}", ev(0)) }
        69 => { stylish::plain::format!("a{{b}}c{1:s}{{{:>3(fg=red)s}é{0:(bg=default,bold)s}%%{1:+(fg=red)b}{1:+(bg=default,bold)e}x{1:+(faint,)e}{:+s}\r\n", std::convert::identity(ev(0)), loop { break ev(1) }) }
        70 => { stylish::plain::format!("{:>3(bg=default,bold)?}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {1:(bg=default,bold)?}[{2:#(fg=red)?}é{2:(faint,)o}{1:(fg=red)x?}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, ev(2)) }
        71 => { stylish::plain::format!("<!-- -->{0:#?}a{{b}}c{:x}{0:+(fg=red)s}{0:+s}x", (ev(0),).0) }
        72 => { stylish::plain::format!("\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2)) }
        73 => { stylish::plain::format!("#;{0:08.1(fg=red)E}\u{feff}{1:(faint,)s}{2:08.1(fg=red)s}{4:>3(faint,)s}{3:08.1e}\n", P(ev(0).0), std::convert::identity(ev(1)), (ev(2)), ev(3) as &P, (ev(4),).0) }
        74 => { stylish::plain::format!("}}{2:(fg=red)s}{3:s}}}{4:s}{:s}|{1:s}$0{4:(faint,)s}　{0:(fg=red)s}{1:>3s}\"", *ev(0), (ev(1),).0, same!(ev(2)), ev(3).me(), P { 0: ev(4).0 }) }
        75 => { stylish::plain::format!("\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me()) }
        76 => { stylish::plain::format!("\t{0:(fg=red)s}  {:08.1(faint,)s}", loop { break ev(0) }) }
        77 => { stylish::plain::format!("\t{2:s}\\{4:+E}é{3:(bg=default,bold)e}a{{b}}c{3:+(faint,)s}{1:>3(fg=red)s}: {0:>3(fg=red)o}", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), ev(3).me(), loop { break ev(4) }) }
        78 => { stylish::plain::format!("é{:s}a{{b}}c{1:08.1(faint,)s}{{{1:>3(bg=default,bold)s}{1:+(fg=red)s}[{1:s}\r\n{0:E}m0;1{1:08.1(bg=default,bold)b}[{:#?}\0{:s}{:>3?}{3:+(faint,)E}\u{feff}", *ev(0), (ev(1),).0, P { 0: ev(2).0 }, std::convert::identity(ev(3))) }
        79 => { stylish::plain::format!("%%{a:#?}{b:(fg=red)s}é{a:#?}", a = { let x = ev(0); x }, b = ev(1)) }
        80 => { stylish::plain::format!("{1:>3(faint,)s}]{:x}$0{:>3(faint,)s}[{0:(bg=default,bold)?}{0:(bg=default,bold)s}{:+s}1:{:08.1(faint,)s}1:{3:(fg=red)s}{3:>3(faint,)s}{3:(fg=red)s}{:(bg=default,bold)b}{4:#?}\r\n", &&ev(0), same!(ev(1)), &&ev(2), match ev(3) { p => p }, &P(ev(4).0)) }
        81 => { stylish::plain::format!(concat!("{0:(fg=red)s}  {:s}''{0:>3(faint,)e}\"{0:s}\u{feff}{:(faint,)s}'q'{:08.1}'q'{1:(faint", ",)s}&{3:08.1(fg=red)x}{3:+s}é{:+s}]{3:", "(bg=default,bold)s}\0{4:s}\r\n{:08.1E}x{4:08.1(fg=red)x}{4:s}é{4:08.1(bg=default,bold)s}<!-- -->{4:(bg=default,bold)s}\\"), { let x = ev(0); x }, ev(1), *ev(2), *ev(3), P { 0: ev(4).0 }) }
        82 => { stylish::plain::format!("{1:+(fg=red)e}{2:08.1(fg=red)s}{{}}{0:+s}{3:08.1(faint,)e}\n\n{:08.1}{2:08.1s}$0{:s}: {0}\"", *ev(0), std::convert::identity(ev(1)), ev(2), *ev(3)) }
        83 => { stylish::plain::format!(concat!("\\n{:08.1(fa", "int,)}", "\\n{:08.1(faint,)X}"), *ev(0), same!(ev(1))) }
        84 => { stylish::plain::format!("{:>3(fg=red)X}　{:+}: {:>3s}", ev(0), std::convert::identity(ev(1)), P { 0: ev(2).0 }) }
        85 => { stylish::plain::format!("{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P) }
        86 => { stylish::plain::format!("{2:(fg=red)?}}}{:(fg=red)E}{2:>3s}: {2:(bg=default,bold)s} - {2:x?}a{{b}}c{1:+(bg=default,bold)s}1:", *ev(0), if let p = ev(1) { p } else { unreachable!() }, &&ev(2)) }
        87 => { stylish::plain::format!("{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))()) }
        88 => { stylish::plain::format!("  {2:s}é{0:#(faint,)?}{1:>3s}[{1:(bg=default,bold)E}{0:+(fg=red)x}{1:>3(faint,)s}", { ev(0) }, match ev(1) { p => p }, (ev(2),).0) }
        89 => { stylish::plain::format!("}}{:(fg=red)s}é{0:08.1(fg=red)E} - {1:(faint,)b}\\n{:#?}{1:>3E}&{:08.1(bg=default,bold)o}\n{:(faint,)s}　{2:+s}", (ev(0)), same!(ev(1)), ev(2), &*ev(3)) }
        90 => { stylish::plain::format!("1:{:>3}<!-- -->{:>3(bg=default,bold)s}{:+(faint,)b}\n", &&ev(0), same!(ev(1)), &*ev(2)) }
        91 => { stylish::plain::format!(": {1:+(fg=red)}: {1:+(fg=red)s}a{{b}}c{0:+(fg=red)s}{:(faint,)o}{1:>3(faint,)s}{0:(faint,)s} - {1:+s}{0:s}\n{:08.1(fg=red)s}'q'{1:(faint,)E}{0:08.1(bg=default,bold)}$0", { let x = ev(0); x }, ev(1) as &P) }
        92 => { stylish::plain::format!("\0{c:08.1(fg=red)?}]{d:(faint,)o}{a:08.1?}\u{feff}{c:>3E}{b:(bg=default,bold)s}\\{d:>3(faint,)E}", a = *ev(0), b = [ev(1)][0], c = &&ev(2), d = &*ev(3)) }
        93 => { stylish::plain::format!("{a:>3s}%%", a = *ev(0)) }
        94 => { stylish::plain::format!("{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1))) }
        95 => { stylish::plain::format!("  {b:(faint,)s}$0{c:(fg=red)s}\n\n{b:x}1:{d:+s}''{a:(fg=red)s}", a = &*ev(0), b = *ev(1), c = *ev(2), d = *ev(3)) }
        96 => { stylish::plain::format!("&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x }) }
        97 => { stylish::plain::format!(concat!("{0:08.1x?}<b>{0:#(fg=red)?}{{}}{:08.1x}{2:x?}x{:e}  {", ":+(faint,)X}\\{2:(fg=red)x}a", "{{b}}c{3:>3s}　{3:(faint,)s}{2:08.1x?}$0{2:(fg=red)o}{:+s}1:{3:(bg=default,bold)x}"), *ev(0), &*ev(1), P(ev(2).0), Some(ev(3)).unwrap()) }
        98 => { stylish::plain::format!("{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1))) }
        99 => { stylish::plain::format!("\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4)) }
        100 => { stylish::plain::format!(": {a:(bg=default,bold)X}\0", a = ev(0) as &P) }
        101 => { stylish::plain::format!("{:>3s}%%{:>3x?}'q'{:(fg=red)e}<!-- -->{:08.1(fg=red)s}", &*ev(0), P(ev(1).0), &*ev(2), [ev(3)][0]) }
        102 => { stylish::plain::format!(concat!("{c:(fg=red)s}{", "a:+s}{{", "}}{b:+E}{a:(fg=red)?}"), a = [ev(0)][0], b = std::convert::identity(ev(1)), c = Some(ev(2)).unwrap()) }
        103 => { stylish::plain::format!(concat!("é{1:(fg=red)s}\r\n{4:s}#;{4:s}　{0:", "#?}\0{3:08.1(faint", ",)s}m0;1{1:>3s} - {2:>3(bg=default,bold)s}a{{b}}c"), { let x = ev(0); x }, P(ev(1).0), (ev(2),).0, ev(3).me(), ev(4).me()) }
        104 => { stylish::plain::format!("{:08.1(faint,)o}\u{feff}{:08.1(fg=red)}{{}}", std::convert::identity(ev(0)), { let x = ev(1); x }) }
        105 => { stylish::plain::format!("{0:x}\r{:s}", ev(0) as &P) }
        106 => { stylish::plain::format!("{:>3s}{2:(bg=default,bold)?}{:(fg=red)o}{:>3(faint,)s}　", (ev(0)), ev(1) as &P, ev(2).me()) }
        107 => { stylish::plain::format!("{:08.1(fg=red)o}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:>3(faint,)s}", (|| ev(0))(), ev(1).me()) }
        108 => { stylish::plain::format!("{1:#(fg=red)?}&amp;{3:s}{2:(faint,)s}{0:>3(faint,)X}{{{0:>3(fg=red)s}{1:s}\"{2:(fg=red)s}", ev(0).me(), ev(1), &P(ev(2).0), *ev(3)) }
        109 => { stylish::plain::format!("1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() }) }
        110 => { stylish::plain::format!("{1:>3(faint,)s}\\n{3:>3(faint,)s}{:s}: {:08.1s}{0:+s}{3:(faint,)s}{4:s}{:08.1(bg=default,bold)b}", (ev(0)), { ev(1) }, &*ev(2), Some(ev(3)).unwrap(), P { 0: ev(4).0 }) }
        111 => { stylish::plain::format!(concat!("<!-- -->{b:(bg=defaul", "t,bold)s}{", "{}}{c:+s}}}{a:+(faint,)X}a{{b}}c"), a = if let p = ev(0) { p } else { unreachable!() }, b = &&ev(1), c = [ev(2)][0]) }
        112 => { stylish::plain::format!(concat!("{:>3(faint,", ")o}{:0", "8.1E}{:+(fg=red)x}"), ev(0), if let p = ev(1) { p } else { unreachable!() }, &*ev(2)) }
        113 => { stylish::plain::format!("{0:o}|{c:(faint,)}{1:(bg=default,bold)s}", ev(0).me(), std::convert::identity(ev(1)), c = match ev(2) { p => p }) }
        114 => { stylish::plain::format!("{{{0:b}\r{0:s}\r\n{0:(faint,)s}  ", &&ev(0)) }
        115 => { stylish::plain::format!("[{0:+E}$0{1:?}: {1:(fg=red)}#;{0:+(bg=default,bold)b}}}{0:(fg=red)s}{0:+(bg=default,bold)s}\0{1:(faint,)x?}{1:08.1(fg=red)s}%%{0:08.1(fg=red)s}\u{feff}{:>3(faint,)s}{2:#(bg=default,bold)?}{:>3s}{{}}{:+(bg=default,bold)x?}\t{2:08.1(bg=default,bold)X}é{2:>3(faint,)s}{2:(bg=default,bold)?}&amp;{1:(fg=red)s}{2:08.1x}\n\n{1:(faint,)s}", std::convert::identity(ev(0)), ev(1), (|| ev(2))()) }
        116 => { stylish::plain::format!("{{{:+(bg=default,bold)s}{:(bg=default,bold)s}{:08.1(fg=red)b}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me(), P { 0: ev(2).0 }) }
        117 => { stylish::plain::format!("x{0:#?}é{c:08.1(faint,)X}\t{b:>3s}{c:>3X}{b:>3(bg=default,bold)?}]{d:s}'q'{d:08.1s}'q'", { ev(0) }, b = &&ev(1), c = [ev(2)][0], d = *ev(3)) }
        118 => { stylish::plain::format!("{{{:(fg=red)s}1:{1:08.1(fg=red)?}<!-- -->{0:X}\r\n{1:08.1b}{0:(fg=red)s}{1:s}　{1:(faint,)b}{:+(fg=red)s}m0;1{0:s}{1:s}é{2:+(fg=red)s}<b>{2:s}}}{2:08.1s}{}\r{2:(faint,)s}1:{2:08.1s}", ev(0), P { 0: ev(1).0 }, P(ev(2).0)) }
        119 => { stylish::plain::format!("\n\n{:+E}\n\n{1:+(fg=red)s}{0:08.1e}{0:08.1(bg=default,bold)s}\\{:(bg=default,bold)s}{1:+(faint,)}  {0:08.1(faint,)}a{{b}}c{:#(bg=default,bold)?}{3:x?}{{{2:(faint,)E}1:{:(fg=red)b}$0{3:+X}\"", { let x = ev(0); x }, &&ev(1), (ev(2),).0, (ev(3))) }
        120 => { stylish::plain::format!("%%{:s}{2:>3(bg=default,bold)X}{0:(faint,)s}\"{:s}[{:>3E}é{2:>3E}{{}}{3:(faint,)s}{2:+(faint,)E}{4:(fg=red)e}|{3:b}{:08.1s}'q'{3:08.1s}: {4:s}: {:08.1(fg=red)e}]{3:s}\n\n{4:>3}\\", ev(0).me(), loop { break ev(1) }, P { 0: ev(2).0 }, (ev(3)), (|| ev(4))()) }
        121 => { stylish::plain::format!("{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0)) }
        122 => { stylish::plain::format!("{1:>3E}''{:(bg=default,bold)e}''{2:>3(bg=default,bold)s}m0;1{2:?}é{:?}é{2:>3(bg=default,bold)b}x{:(bg=default,bold)s}", &&ev(0), match ev(1) { p => p }, std::convert::identity(ev(2))) }
        123 => { stylish::plain::format!("\"{b:+(faint,)e}{b:>3(bg=default,bold)o}x{a:#?}&amp;{a:>3(fg=red)s}{e:s} - {d:08.1s}[{c:#?}", a = (|| ev(0))(), b = std::convert::identity(ev(1)), c = match ev(2) { p => p }, d = ev(3), e = same!(ev(4))) }
        124 => { stylish::plain::format!("&amp;{c:s}{1:s}{0:+s}{1:>3x}é{d:#(faint,)?}\\", &P(ev(0).0), &*ev(1), c = (|| ev(2))(), d = &&ev(3)) }
        125 => { stylish::plain::format!("#;{:s}{:+s}{2:+?}{2:+}\\{2:>3e}{:08.1e}{2:(bg=default,bold)?}x{3:x?}{:>3s}\n\n{3:(faint,)}é", { ev(0) }, &&ev(1), ev(2), ev(3)) }
        126 => { stylish::plain::format!(concat!("[{:(fg=", "red", ")e}<!-- -->"), &&ev(0)) }
        127 => { stylish::plain::format!("<!-- -->{:+(bg=default,bold)s}'q'{:(fg=red)b}　{1:+?}]", ev(0), P(ev(1).0)) }
        128 => { stylish::plain::format!("{}<!-- -->{3:08.1s}{3:08.1(faint,)s}{:s}{3:>3b}<!-- -->{2:08.1x}{{}}{:+s}'q'", std::convert::identity(ev(0)), &*ev(1), std::convert::identity(ev(2)), *ev(3)) }
        129 => { stylish::plain::format!("\0{0:e}{0:>3s}}}{0:+s}{{}}{:>3(fg=red)b}", std::convert::identity(ev(0))) }
        130 => { stylish::plain::format!("}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) }) }
        131 => { stylish::plain::format!("é{0:+(fg=red)o}{e:+(faint,)E}a{{b}}c{d:(bg=default,bold)s}{2:s}{1:+(fg=red)s}{0:+s}é", same!(ev(0)), (|| ev(1))(), &&ev(2), d = loop { break ev(3) }, e = { let x = ev(4); x }) }
        132 => { stylish::plain::format!("1:{1:+(faint,)x?}|{0:s}<b>{0:08.1(bg=default,bold)s}", Some(ev(0)).unwrap(), *ev(1)) }
        133 => { stylish::plain::format!("a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0)) }
        134 => { stylish::plain::format!(concat!("{0:08.1b}{:s}\t{0:08.1(faint,)x", "}lorem <i> & lo", "rem <i> & lorem <i> & lorem <i> & lorem <i> & "), Some(ev(0)).unwrap()) }
        135 => { stylish::plain::format!("{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1)) }
        136 => { stylish::plain::format!("#;{a:>3s}{a:(faint,)x} - {a:08.1(bg=default,bold)s}&amp;{a:08.1e}%%", a = &P(ev(0).0)) }
        137 => { stylish::plain::format!("é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x }) }
        138 => { stylish::plain::format!("\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0)) }
        139 => { stylish::plain::format!(concat!("'q'{1:+(faint,)s}{e:+b}", "{d:08.1x}　{2", ":?}{2:08.1(bg=default,bold)x}\r{0:s}"), (ev(0),).0, *ev(1), (|| ev(2))(), d = &&ev(3), e = { ev(4) }) }
        140 => { stylish::plain::format!("}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() }) }
        141 => { stylish::plain::format!("a{{b}}c{0:+(faint,)x}{0:08.1s}\u{feff}{0:e}]", std::convert::identity(ev(0))) }
        142 => { stylish::plain::format!("{:>3(faint,)s}{2:>3x}{:(bg=default,bold)E}&{2:08.1(faint,)}{:08.1(fg=red)?}{{{3:>3s}{{}}{3:x}m0;1{:(bg=default,bold)s}%%", ev(0).me(), { let x = ev(1); x }, (|| ev(2))(), ev(3) as &P) }
        143 => { stylish::plain::format!("\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P) }
        144 => { stylish::plain::format!("é{:>3s}{:08.1E}{:08.1(faint,)x?}<!-- -->{1:#?}%%{1:+(bg=default,bold)s}m0;1{2:(fg=red)X}a{{b}}c{2:(fg=red)s}&amp;{:+(fg=red)s}{{}}{:(fg=red)?}", Some(ev(0)).unwrap(), P { 0: ev(1).0 }, same!(ev(2)), P { 0: ev(3).0 }, same!(ev(4))) }
        145 => { stylish::plain::format!("{{{e:08.1x?}\\{1:(bg=default,bold)E}{2:s}|{3:+x?}m0;1{0:+(bg=default,bold)s}\u{feff}", &P(ev(0).0), (ev(1),).0, if let p = ev(2) { p } else { unreachable!() }, std::convert::identity(ev(3)), e = [ev(4)][0]) }
        146 => { stylish::plain::format!("{1:>3(bg=default,bold)b}{0:>3s}&", P { 0: ev(0).0 }, Some(ev(1)).unwrap()) }
        147 => { stylish::plain::format!("#;{0:>3s}", P { 0: ev(0).0 }) }
        148 => { stylish::plain::format!("{{}}{:(fg=red)s}{2:x?}{2:#(bg=default,bold)?}{:(faint,)s}&", &*ev(0), std::convert::identity(ev(1)), { ev(2) }) }
        149 => { stylish::plain::format!("\r{a:X}", a = { ev(0) }) }
        150 => { stylish::plain::format!("m0;1{:>3b}{0:(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", match ev(0) { p => p }) }
        151 => { stylish::plain::format!("{d:08.1x?}#;{2:s}{0:+(faint,)s}{1:+X}\\n{e:(bg=default,bold)s}#;{1:#(faint,)?}\n\n{d:+(bg=default,bold)s}01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", (ev(0)), { let x = ev(1); x }, *ev(2), d = (|| ev(3))(), e = Some(ev(4)).unwrap()) }
        152 => { stylish::plain::format!("\t{:(faint,)o}\n\n{:s}'q'{2:08.1s}1:{:+(fg=red)s} - {:>3(bg=default,bold)s}%%", ev(0).me(), P(ev(1).0), ev(2), &*ev(3)) }
        153 => { stylish::plain::format!("\r\n{c:>3(faint,)s}'q'{b:>3(bg=default,bold)s}{d:s}]{a:+(bg=default,bold)s} - ", a = P(ev(0).0), b = [ev(1)][0], c = ev(2).me(), d = ev(3) as &P) }
        154 => { stylish::plain::format!("{:(bg=default,bold)s}|{:(faint,)s}{:(bg=default,bold)x?}{{", same!(ev(0)), { ev(1) }, &*ev(2)) }
        155 => { stylish::plain::format!("|{0:#(bg=default,bold)?}[{:(faint,)s}", { let x = ev(0); x }) }
        156 => { stylish::plain::format!("[{c:(fg=red)E}é{b:>3(faint,)s}{d:+(fg=red)x?}%%{0:+}m0;1{e:08.1(faint,)s}", &*ev(0), b = P(ev(1).0), c = (ev(2),).0, d = &*ev(3), e = *ev(4)) }
        157 => { stylish::plain::format!(concat!("\t{:+", "(fa", "int,)s}"), ev(0).me()) }
        158 => { stylish::plain::format!("a{{b}}c{1:08.1s}{:08.1(bg=default,bold)?}{0:#?}{:(fg=red)s}{0:s}{{{2:+(fg=red)s}{:08.1x}", &*ev(0), [ev(1)][0], &&ev(2)) }
        159 => { stylish::plain::format!("{0:+(faint,)s}}}{1:(faint,)}''{1:08.1(faint,)}\"{0:08.1(bg=default,bold)s}{:+(fg=red)s}{1:(fg=red)X}\"", *ev(0), loop { break ev(1) }) }
        160 => { stylish::plain::format!(concat!("[{1:(bg=default,bold)s}\"{0:s", "}é{2:>3(faint", ",)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n"), *ev(0), &*ev(1), same!(ev(2)), *ev(3)) }
        161 => { stylish::plain::format!("é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:(faint,)s}{1:+(bg=default,bold)}é{:+X}\n\n{1:?}]{0:(bg=default,bold)s}", match ev(0) { p => p }, if let p = ev(1) { p } else { unreachable!() }) }
        162 => { stylish::plain::format!(concat!("{2:+(bg=default,bo", "ld)s}}}{1:", "s}{2:s}'q'{0:(fg=red)E}&amp;"), P(ev(0).0), Some(ev(1)).unwrap(), ev(2) as &P) }
        163 => { stylish::plain::format!("m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() }) }
        164 => { stylish::plain::format!("''{0:08.1s}{1:e}{1:(faint,)s}é{1:s}{:#(faint,)?}{0:08.1s}{{", P { 0: ev(0).0 }, &&ev(1)) }
        165 => { stylish::plain::format!("[{3:+s}é{:+(fg=red)E}\u{feff}{3:+s}{:>3(fg=red)s}a{{b}}c{:(faint,)s}{3:(bg=default,bold)s}{2:08.1(bg=default,bold)}<b>{1:s}", loop { break ev(0) }, ev(1), [ev(2)][0], ev(3)) }
        166 => { stylish::plain::format!("{c:s}{b:+b}\u{feff}{a:s}", a = std::convert::identity(ev(0)), b = &&ev(1), c = (ev(2))) }
        167 => { stylish::plain::format!(concat!("{a:+(faint,)s}\n\n{b:08.1s}", "&amp;{c:+(bg=", "default,bold)e}{c:08.1o}{a:+(fg=red)s}]"), a = Some(ev(0)).unwrap(), b = match ev(1) { p => p }, c = Some(ev(2)).unwrap()) }
        168 => { stylish::plain::format!("{0:+(fg=red)X}　{0:>3(bg=default,bold)s} - {0:(faint,)s}\n{:08.1(fg=red)s}{0:>3x}", loop { break ev(0) }) }
        169 => { stylish::plain::format!("m0;1{:08.1s}{{}}", P(ev(0).0)) }
        170 => { stylish::plain::format!(concat!("%%{0:+?}{0:s}{", "0:s}{:(", "fg=red)s}{0:(faint,)}"), P(ev(0).0)) }
        171 => { stylish::plain::format!("}}{:08.1(faint,)s}{1:+s}{1:s}{2:s}\\n{0:#(bg=default,bold)?}a{{b}}c{:>3e}&{0:b}{2:>3(faint,)E}é{1:x}{:08.1?}x{2:>3(bg=default,bold)E}é{3:08.1(fg=red)o}%%{3:(fg=red)s}\r{:>3s}{2:(fg=red)}{3:(fg=red)o}\u{feff}", { ev(0) }, P(ev(1).0), same!(ev(2)), same!(ev(3))) }
        172 => { stylish::plain::format!("x{:>3(faint,)s}{3:#(faint,)?}{3:s}{:>3(fg=red)s}\\n{3:(bg=default,bold)s}é{2:+(bg=default,bold)}{:(faint,)x?}}}", { let x = ev(0); x }, &P(ev(1).0), { let x = ev(2); x }, P { 0: ev(3).0 }) }
        173 => { stylish::plain::format!("a{{b}}c{:+x}", ev(0)) }
        174 => { stylish::plain::format!("'q'{1:+x?}%%{:(fg=red)?}'q'{1:o}{:+X}{1:>3(faint,)s}{1:x?}", ev(0).me(), loop { break ev(1) }) }
        175 => { stylish::plain::format!("{0:+(bg=default,bold)x}\n{0:s}&amp;{:+x?}[", &P(ev(0).0)) }
        176 => { stylish::plain::format!("\\{:>3(fg=red)s}: {3:08.1(bg=default,bold)x}\\{0:08.1(fg=red)E}{1:>3(fg=red)s}{1:08.1s}\"{:08.1(bg=default,bold)s}: {:>3E}{:08.1s}", { ev(0) }, ev(1), ev(2) as &P, { let x = ev(3); x }) }
        177 => { stylish::plain::format!(concat!("1:{:>3E", "}{:", "(fg=red)s}\u{feff}"), match ev(0) { p => p }, ev(1)) }
        178 => { stylish::plain::format!("{0:#?}{:(faint,)s}", loop { break ev(0) }) }
        179 => { stylish::plain::format!("{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap()) }
        180 => { stylish::plain::format!("{0:s}\n{:(bg=default,bold)E}", ev(0) as &P) }
        181 => { stylish::plain::format!("%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0)) }
        182 => { stylish::plain::format!(concat!("\u{feff}{a:08.1(fg", "=red)s", "}\\{a:#?}]{a:08.1s}"), a = std::convert::identity(ev(0))) }
        183 => { stylish::plain::format!("\0{:>3(fg=red)s}{0:08.1(faint,)s}", ev(0).me()) }
        184 => { stylish::plain::format!("{a:>3(faint,)x}{a:s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {b:+o}", a = { ev(0) }, b = P { 0: ev(1).0 }) }
        185 => { stylish::plain::format!("m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0]) }
        186 => { stylish::plain::format!(concat!("\"{1:+(bg=default,bold)s}%%{0:0", "8.1s}\r\n{2:>3(bg", "=default,bold)s}{0:s}<b>{2:(bg=default,bold)s}"), std::convert::identity(ev(0)), match ev(1) { p => p }, std::convert::identity(ev(2))) }
        187 => { stylish::plain::format!("}}{0:#(faint,)?}1:{0:08.1x}{0:s}\0", *ev(0)) }
        188 => { stylish::plain::format!("{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))()) }
        189 => { stylish::plain::format!(concat!("a{{b}}c{1:e}{0:08.", "1E}{1:+E}{", "1:08.1(fg=red)e}{0:s}a{{b}}c"), match ev(0) { p => p }, (|| ev(1))()) }
        190 => { stylish::plain::format!(concat!(": {0:(faint,)b}{", "0:X}  {0", ":(fg=red)s}{1:(faint,)x?}"), (ev(0)), if let p = ev(1) { p } else { unreachable!() }) }
        191 => { stylish::plain::format!("1:{0:08.1s}\0{:(bg=default,bold)s}&{0:b}{0:>3(fg=red)x?}", loop { break ev(0) }) }
        192 => { stylish::plain::format!("{1:(fg=red)s}{:#(faint,)?}{0:08.1s}{1:#(bg=default,bold)?}{:o}: ", P { 0: ev(0).0 }, P(ev(1).0)) }
        193 => { stylish::plain::format!("{0:08.1(bg=default,bold)s}{{}}{c:>3(faint,)X}: {c:s}#;{c:>3}{{{b:08.1(faint,)s}\0{d:+(bg=default,bold)s}\t", P(ev(0).0), b = ev(1), c = Some(ev(2)).unwrap(), d = ev(3) as &P) }
        194 => { stylish::plain::format!("a{{b}}c{d:08.1s}m0;1{c:>3(fg=red)s}{a:s}{a:#(bg=default,bold)?}\n{a:s}{b:08.1s}\\{d:>3(fg=red)s}<b>", a = (ev(0),).0, b = (|| ev(1))(), c = &&ev(2), d = loop { break ev(3) }) }
        195 => { stylish::plain::format!("{:>3s}\0{:+e}1:{0:}\t", *ev(0), ev(1) as &P) }
        196 => { stylish::plain::format!(concat!(" - {:+s}x{:+(faint", ",)E}{:+X}$", "0{:08.1(bg=default,bold)e}$0"), match ev(0) { p => p }, { ev(1) }, (|| ev(2))(), (|| ev(3))()) }
        197 => { stylish::plain::format!("]{0:08.1(fg=red)s}1:{1:+(bg=default,bold)s}{0:s}{{}}{1:>3s}\\{1:>3(fg=red)}", *ev(0), &P(ev(1).0)) }
        198 => { stylish::plain::format!("{:08.1(fg=red)s}{:(faint,)x}{:>3(faint,)o}%%{2:s}<!-- -->{3:(faint,)?}]", *ev(0), *ev(1), P(ev(2).0), if let p = ev(3) { p } else { unreachable!() }) }
        199 => { stylish::plain::format!("}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3)) }
        200 => { stylish::plain::format!("]{2:>3(faint,)x?}{4:>3s}[{1:+o}é{0:08.1s}<!-- -->{3:08.1(faint,)x?}", &P(ev(0).0), if let p = ev(1) { p } else { unreachable!() }, (ev(2)), &*ev(3), match ev(4) { p => p }) }
        201 => { stylish::plain::format!("\r\n{c:#(bg=default,bold)?}{c:(fg=red)x}{b:#?}\\{a:+s}{{}}{c:08.1b} - ", a = if let p = ev(0) { p } else { unreachable!() }, b = (ev(1)), c = loop { break ev(2) }) }
        202 => { stylish::plain::format!("{1:s}\\{0:>3s}\"{2:(faint,)x}x{e:+(faint,)x?}{d:s}a{{b}}c{e:+(faint,)?}{1:(fg=red)s}", ev(0), loop { break ev(1) }, loop { break ev(2) }, d = ev(3) as &P, e = ev(4) as &P) }
        203 => { stylish::plain::format!("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:s}{{}}{0:>3(bg=default,bold)X}m0;1{0:08.1(bg=default,bold)X}\n{:08.1(faint,)s}", ev(0)) }
        204 => { stylish::plain::format!("''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0))) }
        205 => { stylish::plain::format!("\r\n{:08.1E}\u{feff}{:+?}{:(fg=red)s}\r\n{:s}#;", (ev(0),).0, std::convert::identity(ev(1)), (|| ev(2))(), &P(ev(3).0)) }
        206 => { stylish::plain::format!("{0:+x}&{c:+(fg=red)b}{e:>3b}#;{0:>3(fg=red)s}{1:+(fg=red)o}\t{0:+}}}{d:08.1(bg=default,bold)?}", match ev(0) { p => p }, (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }, d = &*ev(3), e = ev(4)) }
        207 => { stylish::plain::format!("\"{:+(fg=red)e}{:08.1(faint,)s}{:+(faint,)s}", P { 0: ev(0).0 }, *ev(1), &&ev(2)) }
        208 => { stylish::plain::format!("''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) }) }
        209 => { stylish::plain::format!("{:+x?}$0{0:>3b}%%{0:>3}{1:b}é{:>3(fg=red)s}{:08.1(faint,)s}{2:#(bg=default,bold)?}{3:(bg=default,bold)?}\"{2:#(bg=default,bold)?}\n\n{:08.1(faint,)?}\r\n{3:>3x}{3:(faint,)s}\n", Some(ev(0)).unwrap(), [ev(1)][0], (|| ev(2))(), Some(ev(3)).unwrap()) }
        210 => { stylish::plain::format!(concat!("x{", ":", ">3X}"), P(ev(0).0)) }
        211 => { stylish::plain::format!("\n\n{:s}\u{feff}{2:(faint,)s}{3:>3(bg=default,bold)X}{2:08.1(faint,)s}[{1:>3(bg=default,bold)o}", &*ev(0), &*ev(1), P { 0: ev(2).0 }, if let p = ev(3) { p } else { unreachable!() }) }
        212 => { stylish::plain::format!("{0:(fg=red)X}\t{:(bg=default,bold)}#;{:08.1(bg=default,bold)}{2:+}%%{1:>3s}m0;1{2:+(bg=default,bold)b}<b>{1:08.1(bg=default,bold)x?}: {1:(bg=default,bold)o}]{2:(fg=red)?}%%{:+?}\n{1:(fg=red)s}{3:?}\\n{:+(bg=default,bold)E}{3:(fg=red)s}{2:E}a{{b}}c", ev(0), { ev(1) }, &&ev(2), (ev(3))) }
        213 => { stylish::plain::format!("{1:s}{1:>3(faint,)b}1:{c:X}|{0:>3x?}", [ev(0)][0], { ev(1) }, c = if let p = ev(2) { p } else { unreachable!() }) }
        214 => { stylish::plain::format!("1:{b:(fg=red)s}]{0:#(bg=default,bold)?}{0:+s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:e}: ", if let p = ev(0) { p } else { unreachable!() }, b = same!(ev(1))) }
        215 => { stylish::plain::format!("{:08.1(faint,)X}{:>3s}]{:(fg=red)s}[", P(ev(0).0), [ev(1)][0], ev(2) as &P) }
        216 => { stylish::plain::format!(concat!("\r\n{0:>3(faint,)b}{{}}{1:>", "3(faint,)s}{1", ":>3(bg=default,bold)s}{2:08.1(fg=red)b}"), ev(0).me(), match ev(1) { p => p }, P { 0: ev(2).0 }) }
        217 => { stylish::plain::format!("\r\n{a:#(faint,)?}]{a:>3x}  {a:(fg=red)s}{{{a:s}|", a = P { 0: ev(0).0 }) }
        218 => { stylish::plain::format!("<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1)) }
        219 => { stylish::plain::format!("{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1))) }
        220 => { stylish::plain::format!("}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me()) }
        221 => { stylish::plain::format!("a{{b}}c{0:(faint,)s}%%{:(bg=default,bold)}{1:(fg=red)s}{1:+(faint,)s}&amp;{:08.1(faint,)b} - ", Some(ev(0)).unwrap(), ev(1)) }
        222 => { stylish::plain::format!("1:{:(bg=default,bold)s}{:s}x{:(faint,)e}<b>{:(faint,)}{:>3(faint,)x}m0;1", { let x = ev(0); x }, &*ev(1), *ev(2), P { 0: ev(3).0 }, ev(4) as &P) }
        223 => { stylish::plain::format!("{0:+(faint,)s} - {0:>3s}<b>{0:X}a{{b}}c", &P(ev(0).0)) }
        224 => { stylish::plain::format!("%%{a:+s}{a:+(faint,)?}<b>", a = ev(0)) }
        225 => { stylish::plain::format!("{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))()) }
        226 => { stylish::plain::format!("\t{a:08.1(fg=red)}\u{feff}{a:(bg=default,bold)o}{a:x}", a = same!(ev(0))) }
        227 => { stylish::plain::format!("{a:+(faint,)}{b:#(fg=red)?}{c:08.1(fg=red)s}", a = match ev(0) { p => p }, b = (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }) }
        228 => { stylish::plain::format!("{:s}é{:(bg=default,bold)s}&{:>3s}|{:08.1(bg=default,bold)E}{{}}{:08.1(faint,)b}&", *ev(0), P { 0: ev(1).0 }, match ev(2) { p => p }, &&ev(3), if let p = ev(4) { p } else { unreachable!() }) }
        229 => { stylish::plain::format!("\"{1:>3s}é{0:>3(faint,)o}\"{3:>3(bg=default,bold)x}{2:b}\r{4:(faint,)s}\t", same!(ev(0)), (ev(1)), [ev(2)][0], { ev(3) }, (|| ev(4))()) }
        230 => { stylish::plain::format!("{10:s}\\{0:+(bg=default,bold)s}#;{12:+(bg=default,bold)s}{9:#?}\\{6:E}{{{2:(fg=red)}\r{1:+s}\n\n{5:>3(bg=default,bold)s}{7:+(bg=default,bold)x?}{3:08.1s}{11:+(faint,)s}{8:(bg=default,bold)e}#;{4:(fg=red)?}  ", &*ev(0), (ev(1),).0, loop { break ev(2) }, (|| ev(3))(), (ev(4)), std::convert::identity(ev(5)), (ev(6),).0, std::convert::identity(ev(7)), ev(8), &P(ev(9).0), (ev(10)), &&ev(11), &*ev(12)) }
        231 => { stylish::plain::format!(concat!("1:{:+(faint,)s} - {9:>3s}{1:+x}{2:s}1:{5:(fg=red)x}{2:(fg=red)E}}}{5:#?}]{8:#?}{3:(bg=default,bold", ")x}lorem <i> & lorem <i> & lorem <i> & lorem <i> ", "& lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>3(bg=default,bold)s}<b>{7:08.1(fg=red)s}]{6:+s}\u{feff}{4:08.1e}"), loop { break ev(0) }, same!(ev(1)), (|| ev(2))(), P(ev(3).0), (ev(4),).0, P(ev(5).0), &*ev(6), same!(ev(7)), loop { break ev(8) }, ev(9)) }
        232 => { stylish::plain::format!("&amp;{:(fg=red)s}{:08.1X}{:(bg=default,bold)s}1:{:(fg=red)s}$0{:+s}$0{:08.1s}{:08.1(faint,)s}{:(fg=red)s}\0{:(bg=default,bold)s}''{:08.1x?}{:e}{:+s}: {:08.1s}{:08.1(faint,)s}\r{:08.1(faint,)s}]{:s}{:e}{{{:08.1(fg=red)s}\\", { let x = ev(0); x }, (ev(1)), ev(2).me(), { ev(3) }, [ev(4)][0], (|| ev(5))(), *ev(6), same!(ev(7)), (|| ev(8))(), P(ev(9).0), (ev(10)), (|| ev(11))(), *ev(12), (ev(13)), ev(14) as &P, ev(15).me(), { ev(16) }, { ev(17) }) }
        233 => { stylish::plain::format!("{_f:(bg=default,bold)x}{e:+(faint,)s}}}{c:08.1(fg=red)o}　{é:+x?}{width:+(fg=red)s}\t{b:(bg=default,bold)s}<b>{x:+(bg=default,bold)b}#;{s:>3o}x{p:>3(faint,)o}\n{fg:+(bg=default,bold)s}a{{b}}c{a:>3(faint,)s}\u{feff}{x1:(faint,)s}\\{d:>3(faint,)E}{bold:+s}[{n8:(fg=red)s}{d:08.1(bg=default,bold)s}", a = same!(ev(0)), b = *ev(1), c = ev(2).me(), d = (ev(3)), e = same!(ev(4)), _f = same!(ev(5)), width = if let p = ev(6) { p } else { unreachable!() }, x1 = ev(7), n8 = ev(8), é = [ev(9)][0], fg = (|| ev(10))(), bold = Some(ev(11)).unwrap(), s = *ev(12), x = ev(13), p = std::convert::identity(ev(14))) }
        234 => { stylish::plain::format!(concat!("{:(faint,)X} - {:>3E}<b>{:+E}#;{:>3(faint,)s}: {:", "#(faint,)?}{:s}{:08.1(fa", "int,)e}{:>3o}{:08.1x?}{:(bg=default,bold)s}\0{:>3e}{}{:s}\\n{:08.1(faint,)s}"), (ev(0),).0, std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3), loop { break ev(4) }, *ev(5), P(ev(6).0), (ev(7),).0, &P(ev(8).0), P(ev(9).0), if let p = ev(10) { p } else { unreachable!() }, (ev(11),).0, Some(ev(12)).unwrap(), (ev(13),).0) }
        235 => { stylish::plain::format!("{d:+x}{e:08.1(bg=default,bold)s}{c:>3(fg=red)s}{b:>3(bg=default,bold)s}\n{0:#?}\\{_f:>3(bg=default,bold)s}]{width:(bg=default,bold)?} - ", { let x = ev(0); x }, b = (ev(1),).0, c = { ev(2) }, d = &P(ev(3).0), e = &&ev(4), _f = (|| ev(5))(), width = (ev(6),).0) }
        236 => { stylish::plain::format!("{1:(faint,)?}{0:08.1s}<b>{2:#(bg=default,bold)?}\"{8:+(fg=red)s}\r\n{bold:(bg=default,bold)o}m0;1{7:(faint,)s}x{5:e}{x:#(faint,)?}$0{n16:#(fg=red)?}]{p:(faint,)x?}{4:>3x?} - {x:X}\0{6:(fg=red)s}<!-- -->{10:(bg=default,bold)X}{3:+(faint,)x}é{s:+(bg=default,bold)s}{3:+(fg=red)X}x{9:08.1x?}]{6:E} - {o:08.1(fg=red)s}\r\n", &P(ev(0).0), P { 0: ev(1).0 }, std::convert::identity(ev(2)), ev(3) as &P, loop { break ev(4) }, ev(5), *ev(6), &*ev(7), P(ev(8).0), match ev(9) { p => p }, ev(10) as &P, bold = ev(11), s = ev(12), x = P(ev(13).0), p = &*ev(14), o = &*ev(15), n16 = ev(16) as &P) }
        237 => { stylish::plain::format!("\"{:(fg=red)s}\t{:08.1s}{:+s}\0{:08.1b} - {:(bg=default,bold)s}{:(faint,)X}$0{:>3(bg=default,bold)s}{:+s}{:s}{:08.1?}: {:s}{:s}{:+(fg=red)s}{:>3s}{:>3(faint,)?} - {:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }, P { 0: ev(1).0 }, ev(2).me(), *ev(3), ev(4), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, *ev(7), Some(ev(8)).unwrap(), (ev(9)), match ev(10) { p => p }, ev(11), std::convert::identity(ev(12)), std::convert::identity(ev(13)), &P(ev(14).0), (ev(15),).0) }
        238 => { stylish::plain::format!("x{9:>3(bg=default,bold)s}{6:+(faint,)s}\n\n{:+(bg=default,bold)e}}}{:X}é{:(fg=red)s}|{7:>3(fg=red)o}{:+(fg=red)?}é{:x?}]{11:#(faint,)?}[{:08.1s}{:08.1x?}{:08.1(bg=default,bold)s}\"{:+}%%{12:08.1(bg=default,bold)s}\t{:08.1(fg=red)s}é{10:>3(bg=default,bold)E}#;", ev(0), P { 0: ev(1).0 }, (ev(2)), std::convert::identity(ev(3)), same!(ev(4)), ev(5), ev(6) as &P, match ev(7) { p => p }, { let x = ev(8); x }, &&ev(9), std::convert::identity(ev(10)), *ev(11), ev(12)) }
        239 => { stylish::plain::format!("m0;1{3:>3s}{5:+s}m0;1{2:s}<!-- -->{0:>3(fg=red)}[{4:#(bg=default,bold)?}\n\n{6:>3e}<b>{1:+s}<b>{4:(fg=red)s}　", [ev(0)][0], { let x = ev(1); x }, ev(2), { let x = ev(3); x }, std::convert::identity(ev(4)), { let x = ev(5); x }, P(ev(6).0)) }
        240 => { stylish::plain::format!("{_f:#(fg=red)?}{fg:s}&{width:>3(fg=red)x?}{é:>3(faint,)s}　{bold:(bg=default,bold)s}{x1:+s}{e:#(fg=red)?}{n8:+(bg=default,bold)s}\\{b:#?}\r{a:>3(fg=red)e}{x1:08.1s}\r{a:>3?}{bold:08.1s}\r\n{d:(faint,)o}$0{c:(bg=default,bold)?}\0", a = [ev(0)][0], b = &*ev(1), c = loop { break ev(2) }, d = (ev(3)), e = *ev(4), _f = &&ev(5), width = *ev(6), x1 = std::convert::identity(ev(7)), n8 = *ev(8), é = ev(9) as &P, fg = ev(10), bold = { ev(11) }) }
        241 => { stylish::plain::format!("{8:(faint,)s}{5:s}{3:08.1(fg=red)?}{0:08.1X}\n\n{10:+(bg=default,bold)s}{{{2:#?}{6:+(bg=default,bold)x}{4:+(faint,)s}{7:+X}{1:(faint,)x?}{9:>3(faint,)x?}&", *ev(0), *ev(1), { let x = ev(2); x }, &P(ev(3).0), { ev(4) }, [ev(5)][0], [ev(6)][0], Some(ev(7)).unwrap(), same!(ev(8)), *ev(9), ev(10).me()) }
        242 => { stylish::plain::format!("&amp;{8:08.1E}é{15:>3?}\n{15:(faint,)x?}]{:08.1(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{12:+(bg=default,bold)X}]{:(faint,)s}{6:(fg=red)o}{:08.1(faint,)s}1:{7:(bg=default,bold)s}\0{:e}|{15:(bg=default,bold)s}$0{:+(faint,)o}\u{feff}{:(bg=default,bold)s}{16:+s}<b>{12:#(faint,)?}{13:s} - {9:08.1s}{10:08.1X}{14:+X}#;{7:(faint,)s}{11:>3(bg=default,bold)s}\\", ev(0) as &P, (|| ev(1))(), loop { break ev(2) }, &&ev(3), { let x = ev(4); x }, &*ev(5), *ev(6), (ev(7),).0, &P(ev(8).0), P(ev(9).0), ev(10).me(), (ev(11)), [ev(12)][0], ev(13).me(), Some(ev(14)).unwrap(), std::convert::identity(ev(15)), (|| ev(16))()) }
        243 => { stylish::plain::format!(concat!("{{}}{n8:+?}\n{5:08.1E}a{{b}}c{6:x?}m0;1{0:s}{2:>3x}&{3:(faint,)x}\n", "{é:>3(fg=red)s}\u{feff}{s:#(fg=red)?}{0:", "+o}{bold:(bg=default,bold)?}{fg:s}{2:+s}\r\n{1:(fg=red)s}{4:+?}{7:#(fg=red)?}&{é:(bg=default,bold)s}"), ev(0), { let x = ev(1); x }, same!(ev(2)), &P(ev(3).0), ev(4), Some(ev(5)).unwrap(), &*ev(6), *ev(7), n8 = P { 0: ev(8).0 }, é = { ev(9) }, fg = { ev(10) }, bold = P { 0: ev(11).0 }, s = &&ev(12)) }
        244 => { stylish::plain::format!("\r{}{0:08.1(faint,)s}{2:>3x?}\u{feff}{1:>3e}{:x}\n{:+(faint,)e}　{:(fg=red)s}{3:+(fg=red)s}]{3:#?}{4:+b}#;{5:08.1(fg=red)s}{:(bg=default,bold)?}{:>3o}{4:s}", std::convert::identity(ev(0)), ev(1).me(), std::convert::identity(ev(2)), loop { break ev(3) }, same!(ev(4)), (|| ev(5))()) }
        245 => { stylish::plain::format!("\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() }) }
        246 => { stylish::plain::format!("{0:#?}{{}}{:>3(fg=red)s}{:08.1x?}{1:>3s}<b>{3:>3(bg=default,bold)x?}: {:#?}[{:>3(faint,)s}: {2:>3(fg=red)}  {:s}{4:(fg=red)E}{5:+s}]{3:b}{{{:+s}\n{:>3s}\r{:s}a{{b}}c{:s}{:>3(bg=default,bold)s}\t{10:08.1b}{9:(bg=default,bold)s}&amp;{10}\0{:08.1(faint,)?}''{11:08.1o}%%{11:>3(fg=red)?}　{11:08.1(faint,)o}{10:s}'q'{:>3(faint,)s}", (ev(0),).0, { let x = ev(1); x }, loop { break ev(2) }, same!(ev(3)), &*ev(4), if let p = ev(5) { p } else { unreachable!() }, { ev(6) }, &P(ev(7).0), &*ev(8), loop { break ev(9) }, loop { break ev(10) }, std::convert::identity(ev(11))) }
        247 => { stylish::plain::format!(concat!("\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0"), &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P) }
        248 => { stylish::plain::format!("{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5)) }
        249 => { stylish::plain::format!("　{8:E} - {12:s}\n{13:08.1(faint,)s}{17:>3s}]{1:>3s}\r{19:>3(bg=default,bold)s}{2:x}|{9:>3(faint,)s}{14:+E}\r{3:+(fg=red)b}{15:+E}{7:(bg=default,bold)s}\r{11:s}{18:(bg=default,bold)s}$0{10:+s}}}{4:08.1(faint,)?}{5:08.1(bg=default,bold)s}{16:08.1(faint,)s}{0:(fg=red)o}%%{6:>3(fg=red)}", { let x = ev(0); x }, P { 0: ev(1).0 }, &&ev(2), [ev(3)][0], ev(4), [ev(5)][0], same!(ev(6)), ev(7) as &P, (ev(8),).0, (|| ev(9))(), ev(10), (ev(11),).0, { let x = ev(12); x }, Some(ev(13)).unwrap(), (ev(14)), ev(15), ev(16), match ev(17) { p => p }, loop { break ev(18) }, match ev(19) { p => p }) }
        250 => { stylish::plain::format!("\\{1:x?}  {7:(fg=red)e}{{}}{9:08.1s}{4:#?}\\{0:(faint,)x}$0{7:08.1E}{10:(bg=default,bold)s}{5:(fg=red)s}''{8:(bg=default,bold)s}{6:>3b}{8:(bg=default,bold)s}}}{2:>3(fg=red)x?}{3:>3(bg=default,bold)s}<b>{9:08.1s}", (ev(0),).0, &P(ev(1).0), loop { break ev(2) }, if let p = ev(3) { p } else { unreachable!() }, &*ev(4), { ev(5) }, P(ev(6).0), &*ev(7), (ev(8)), ev(9), &&ev(10)) }
        251 => { stylish::plain::format!("{:+(bg=default,bold)s}: {:b}{:08.1s}\n{:(bg=default,bold)?}\t{:08.1(bg=default,bold)E}|{:#(fg=red)?}{:+(fg=red)?}", match ev(0) { p => p }, match ev(1) { p => p }, (ev(2),).0, &P(ev(3).0), &&ev(4), loop { break ev(5) }, (|| ev(6))()) }
        252 => { stylish::plain::format!("m0;1{:08.1(bg=default,bold)s}\\n{:#(faint,)?}|{:(faint,)e}[{:b}{{}}{:>3s}x{:(faint,)E}", { let x = ev(0); x }, P { 0: ev(1).0 }, *ev(2), std::convert::identity(ev(3)), ev(4), (ev(5),).0) }
        253 => { stylish::plain::format!(concat!("{b:(faint,)s}\n\n{width:>3(fg=red)x?}", "{d:o}{_f:+(faint,", ")s}<b>{width:s}\0{c:+e}{e:x?}''{c:o}\\{0:+x?}{_f:+X}'q'"), &P(ev(0).0), b = if let p = ev(1) { p } else { unreachable!() }, c = ev(2) as &P, d = match ev(3) { p => p }, e = [ev(4)][0], _f = [ev(5)][0], width = if let p = ev(6) { p } else { unreachable!() }) }
        254 => { stylish::plain::format!("&amp;{1:s}\r{9:08.1s}m0;1{3:08.1(faint,)s}1:{4:08.1(faint,)s}　{9:+(fg=red)s}{13:#(fg=red)?}é{7:08.1(faint,)b}x{2:#?}{8:+x?}{5:>3b}a{{b}}c{17:>3(fg=red)s}<!-- -->{15:x}#;{14:s}'q'{11:>3(faint,)E}[{10:+(faint,)E}|{16:+}\n{0:(fg=red)s}{12:+(faint,)s}{6:08.1(bg=default,bold)s}&{16:e}", &&ev(0), *ev(1), same!(ev(2)), ev(3) as &P, &&ev(4), (ev(5),).0, *ev(6), match ev(7) { p => p }, ev(8) as &P, (ev(9)), ev(10), ev(11), ev(12).me(), match ev(13) { p => p }, (ev(14)), { ev(15) }, *ev(16), *ev(17)) }
        255 => { stylish::plain::format!("é{0:b}{3:+s}{{{5:+(faint,)s}{4:+s}\u{feff}{3:(faint,)E}$0{7:08.1s}　{8:08.1x}{6:>3(fg=red)o}\r{1:+s}{2:s}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, *ev(2), &&ev(3), ev(4).me(), P { 0: ev(5).0 }, ev(6), *ev(7), { ev(8) }) }
        256 => { stylish::plain::format!(concat!("{:(faint,)?}{:08.1(faint,)s}\t{:+s}a{{b}}c{:b}1:{:08.1b}\\{:08.1}\0{:08.1s}", "{:08.1?}{:(bg=default,bold)X}{:>3o}{", ":08.1s}{:s}{:>3(bg=default,bold)s}\0{:>3s}\n\n{:08.1(fg=red)b}1:{:08.1s}[{:#(faint,)?}&amp;{:(bg=default,bold)X}"), ev(0), [ev(1)][0], { ev(2) }, P(ev(3).0), ev(4).me(), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, Some(ev(7)).unwrap(), P { 0: ev(8).0 }, (|| ev(9))(), P(ev(10).0), (ev(11),).0, *ev(12), std::convert::identity(ev(13)), (ev(14),).0, { ev(15) }, std::convert::identity(ev(16)), &&ev(17)) }
        257 => { stylish::plain::format!("{:+?}|{0:+x?}{0:+?}<b>{1:X}'q'{:+s}{:(bg=default,bold)E}\\n{3:08.1s}&{:(faint,)s}#;{3:o}\\{:#?}[{:+s}{:#?}{6:08.1(faint,)X}<b>{6:#?}{7:+x}%%{:+(fg=red)x}'q'{9:>3?}{:+s} - {9:>3(faint,)s}|{:(fg=red)E}{9:(bg=default,bold)X}#;{10:>3}&{9:(bg=default,bold)s}1:{:>3(faint,)} - {9:(fg=red)s}é{:+x}{12:+(fg=red)?}<b>{11:+(faint,)s}{13:(bg=default,bold)o}{:>3(bg=default,bold)s}\\{14:08.1s}{{{:(faint,)b}[{:08.1(faint,)s}\n\n{14:>3E}{:+(faint,)}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{15:>3(faint,)s}", match ev(0) { p => p }, std::convert::identity(ev(1)), same!(ev(2)), std::convert::identity(ev(3)), (ev(4),).0, ev(5) as &P, ev(6).me(), loop { break ev(7) }, [ev(8)][0], ev(9), same!(ev(10)), loop { break ev(11) }, &&ev(12), { let x = ev(13); x }, (ev(14)), Some(ev(15)).unwrap()) }
        258 => { stylish::plain::format!("{{{n8:o}#;{s:>3(faint,)s}m0;1{fg:(faint,)E}{3:(fg=red)e}{{{é:+(fg=red)s}\r{bold:>3s}: {x1:08.1(fg=red)s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {0:08.1(faint,)s}x{width:}{2:+(faint,)s}#;{1:08.1(fg=red)e}  {4:>3(fg=red)s}: {x:#(faint,)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{5:08.1(faint,)X}\"", std::convert::identity(ev(0)), P(ev(1).0), ev(2).me(), Some(ev(3)).unwrap(), P(ev(4).0), &&ev(5), width = std::convert::identity(ev(6)), x1 = &&ev(7), n8 = (ev(8),).0, é = *ev(9), fg = { let x = ev(10); x }, bold = &&ev(11), s = ev(12), x = ev(13) as &P) }
        259 => { stylish::plain::format!("'q'{n8:08.1b}<!-- -->{x1:+(bg=default,bold)?}: {0:#(fg=red)?}%%{0:+o}{fg:08.1(faint,)s}\n\n{2:+(faint,)s}: {1:(bg=default,bold)}}}{width:>3(fg=red)s}{é:(fg=red)s}&amp;{3:(fg=red)s}{_f:#?}}}{s:08.1(bg=default,bold)}\r{bold:08.1(faint,)}{e:08.1(faint,)s}<b>{width:+(faint,)}{1:(faint,)x}#;", (ev(0)), &*ev(1), ev(2), { let x = ev(3); x }, e = [ev(4)][0], _f = (|| ev(5))(), width = ev(6), x1 = P(ev(7).0), n8 = [ev(8)][0], é = match ev(9) { p => p }, fg = same!(ev(10)), bold = *ev(11), s = (ev(12),).0) }
        260 => { let args = ev(0); let export = ev(1); stylish::plain::format!("a{{b}}c{args:#(bg=default,bold)s}|{args:(fg=red)s}m0;1{export:E}") }
        261 => { let x = ev(0); let r#match = ev(1); let self_ = ev(2); stylish::plain::format!("{0:X}x{match:>3s}{x:>3(fg=red)E}{match:(bg=default,bold)X}\t{self_:s}{match:s}", { ev(3) }) }
        262 => { let f = ev(0); let export = ev(1); stylish::plain::format!("  {f:>3b}{f:>3(fg=red)?}{{}}{f:s}{export:(fg=red)X}%%{export:(fg=red)s}") }
        263 => { let f = ev(0); stylish::plain::format!("\r{f:#x?}{{{f:>3(fg=red)E}{f:#(bg=default,bold)}") }
        264 => { let inner = ev(0); let export = ev(1); stylish::plain::format!("{export:(fg=red)s}\u{feff}{export:>3(fg=red)E}#;{inner:#(bg=default,bold)s}#;{inner:#?}{export:(fg=red)}") }
        265 => { let arg = ev(0); let r#match = ev(1); let Some_ = ev(2); stylish::plain::format!("{{{arg:(fg=red)b}|{match:>3(bg=default,bold)b}{arg:e}{x:(bg=default,bold)E}\\{Some_:(bg=default,bold)?}{Some_:>3(fg=red)s}{match:>3s}", x = match ev(3) { p => p }) }
        266 => { let x = ev(0); let arg = ev(1); stylish::plain::format!("\u{feff}{arg:>3(bg=default,bold)}{x:s} - {x:s}{arg:(fg=red)E}é{x:#(bg=default,bold)x}") }
        267 => { let r#fn = ev(0); let diff = ev(1); stylish::plain::format!(": {0:#(bg=default,bold)e}\\{fn:?}{{}}{diff:s}{arg:>3(fg=red)E}", Some(ev(2)).unwrap(), arg = &P(ev(3).0)) }
        268 => { let export = ev(0); let formatter = ev(1); let r#fn = ev(2); let args = ev(3); stylish::plain::format!("é{args:s}\n\n{args:(fg=red)?}m0;1{q4:>3(bg=default,bold)s}{fn:#(bg=default,bold)?}\\{export:(bg=default,bold)x?}{formatter:(bg=default,bold)x}", q4 = Some(ev(4)).unwrap()) }
        269 => { let inner = ev(0); stylish::plain::format!("{inner:(bg=default,bold)?}\u{feff}{inner:(bg=default,bold)x?}|{inner:>3s}{{{inner:(bg=default,bold)s}") }
        270 => { let f = ev(0); stylish::plain::format!("{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me()) }
        271 => { let arg = ev(0); let r#loop = ev(1); let Some_ = ev(2); stylish::plain::format!("{arg:#(fg=red)}{Some_:(bg=default,bold)x}''{Some_:>3e}{loop:s}") }
        272 => { let i = ev(0); let w = ev(1); stylish::plain::format!("\"{i:(fg=red)X}\r\n{w:>3s}{args:(bg=default,bold)o}&amp;{i:>3s}''{i:>3(fg=red)?}\r{Some_:x?}", Some_ = &&ev(2), args = *ev(3)) }
        273 => { let diff = ev(0); stylish::plain::format!("{diff:X}é{diff:s}") }
        274 => { let style = ev(0); let r#match = ev(1); stylish::plain::format!("{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}") }
        275 => { let e = ev(0); let x = ev(1); stylish::plain::format!("{{}}{0:?}{e:>3E}\t{x:>3s}\\{0:?}{x:x}\\n{e:(fg=red)s}", std::convert::identity(ev(2))) }
        276 => { let r = ev(0); let style = ev(1); let formatter = ev(2); stylish::plain::format!("{style:>3(fg=red)E}'q'{style:#(bg=default,bold)x}{q3:>3(fg=red)s}{q3:#s}\u{feff}{r:#(bg=default,bold)}<b>{formatter:>3(bg=default,bold)s}", q3 = match ev(3) { p => p }) }
        277 => { let inner = ev(0); let args = ev(1); stylish::plain::format!("{inner:x?}<!-- -->{args:>3(bg=default,bold)s}{inner:>3s}|{inner:s}") }
        278 => { let Some_ = ev(0); let r = ev(1); stylish::plain::format!("{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}") }
        279 => { let r = ev(0); stylish::plain::format!("{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p }) }
        280 => { let i = ev(0); let diff = ev(1); let arg = ev(2); let self_ = ev(3); stylish::plain::format!("\u{feff}{diff:>3s}$0{i:(bg=default,bold)o}[{arg:(fg=red)e}{arg:s}{self_:s}") }
        281 => { let f = ev(0); stylish::plain::format!("  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))()) }
        282 => { let style = ev(0); let arg = ev(1); let r#match = ev(2); stylish::plain::format!("%%{match:>3E} - {0:>3?}#;{arg:(bg=default,bold)s}{Some_:#X}{0:>3(bg=default,bold)e}{{{style:#(bg=default,bold)s}: {0:>3x?}", ev(3).me(), Some_ = Some(ev(4)).unwrap()) }
        283 => { let inner = ev(0); let arg = ev(1); stylish::plain::format!("{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me()) }
        284 => { let r = ev(0); let i = ev(1); stylish::plain::format!("{r:#(bg=default,bold)s}\n\n{i:(fg=red)o}]{q2:>3s}{i:>3(bg=default,bold)s}", q2 = match ev(2) { p => p }) }
        285 => { let args = ev(0); stylish::plain::format!("{{}}{0:(bg=default,bold)s}{{{args:#s}[{x:s}{x:(bg=default,bold)s}", ev(1), x = Some(ev(2)).unwrap()) }
        286 => { let self_ = ev(0); let arg = ev(1); stylish::plain::format!("[{arg:(bg=default,bold)}{self_:(bg=default,bold)s}{self_:(fg=red)s}\\{self_:#(bg=default,bold)s}") }
        287 => { let formatter = ev(0); stylish::plain::format!("{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() }) }
        288 => { let f = ev(0); stylish::plain::format!("{f:s}\n{0:?}{1:#(bg=default,bold)b}|{f:(fg=red)?}{0:s}{q3:>3s}", ev(1).me(), *ev(2), q3 = ev(3)) }
        289 => { let formatter = ev(0); stylish::plain::format!("é{f:>3(fg=red)x}{formatter:x?}", f = *ev(1)) }
        290 => { let export = ev(0); let Some_ = ev(1); stylish::plain::format!(": {Some_:(fg=red)x}{export:(fg=red)s}") }
        291 => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); stylish::plain::format!("{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}") }
        292 => { let r#match = ev(0); stylish::plain::format!("{match:>3s}{match:(fg=red)s}{match:>3s}") }
        293 => { let arg = ev(0); stylish::plain::format!("{arg:#s}a{{b}}c{arg:(bg=default,bold)E}") }
        294 => { let f = ev(0); stylish::plain::format!("{f:(bg=default,bold)s}''{0:>3s}", std::convert::identity(ev(1))) }
        295 => { let x = ev(0); stylish::plain::format!("　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}") }
        296 => { let args = ev(0); stylish::plain::format!("<!-- -->{args:>3(bg=default,bold)s}") }
        297 => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); stylish::plain::format!("{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}") }
        298 => { let diff = ev(0); let Some_ = ev(1); stylish::plain::format!("<b>{1:#E}{Some_:(fg=red)s}\r\n{0:(fg=red)s}{1:s}{diff:#(fg=red)X}{diff:(bg=default,bold)x?}\n\n{diff:s}", *ev(2), same!(ev(3))) }
        299 => { let inner = ev(0); stylish::plain::format!("{inner:(bg=default,bold)X}{inner:#(bg=default,bold)?}\n\n{inner:#s}{inner:(bg=default,bold)e}") }
        300 => { let f = ev(0); let self_ = ev(1); let args = ev(2); let e = ev(3); stylish::plain::format!("&{self_:#E}&{args:#(fg=red)s}\r{x:#X}{self_:#(bg=default,bold)?}{e:#s}|{f:x?}", x = *ev(4)) }
        301 => { let arg = ev(0); stylish::plain::format!("{0:s}[{arg:>3(bg=default,bold)s}", ev(1)) }
        302 => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); stylish::plain::format!("\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}") }
        303 => { let i = ev(0); let r#loop = ev(1); stylish::plain::format!("{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4)) }
        304 => { let args = ev(0); let f = ev(1); let self_ = ev(2); stylish::plain::format!("\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}") }
        305 => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); stylish::plain::format!("{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}") }
        306 => { let args = ev(0); let r = ev(1); stylish::plain::format!("é{export:>3s}<!-- -->{args:>3e}]{r:E}{args:#X}", export = same!(ev(2))) }
        307 => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); stylish::plain::format!("{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}") }
        308 => { let r = ev(0); stylish::plain::format!("{2:(fg=red)s}\u{feff}{r:#s}]{0:#s}%%{0:#s}{r:s}{r:>3s}{{{1:o}", std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3)) }
        309 => { let Some_ = ev(0); let r = ev(1); stylish::plain::format!("{r:s}{Some_:#s}\u{feff}{Some_:#(bg=default,bold)s}{r:X}{Some_:(fg=red)x}") }
        _ => unreachable!(),
    }
}

/// The destination is an expression, too.
pub fn eval_write(i: usize, ev: &dyn Fn(usize) -> &'static P, ln: bool, __dst: &dyn Fn(), __w: &mut dyn stylish::Write) -> stylish::Result {
    match (i, ln) {
        (0, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("m0;1{c:>3x?}: ", "{a:+s}{", "a:(fg=red)b}é{b:X}1:"), a = &&ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = *ev(2)) }
        (0, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{c:>3x?}: {a:+s}{a:(fg=red)b}é{b:X}1:", a = &&ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = *ev(2)) }
        (1, false) => { stylish::write!({ __dst(); &mut *__w }, "é{4:08.1(fg=red)s}{3:>3s}{:+(faint,)e}\r{:(bg=default,bold)x}{:>3E}{1:+(faint,)o}", ev(0), *ev(1), *ev(2), [ev(3)][0], ev(4)) }
        (1, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{4:08.1(fg=red)s}{3:>3s}{:+(faint,)e}\r{:(bg=default,bold)x}{:>3E}{1:+(faint,)o}", ev(0), *ev(1), *ev(2), [ev(3)][0], ev(4)) }
        (2, false) => { stylish::write!({ __dst(); &mut *__w }, "|{:08.1(fg=red)s}", { let x = ev(0); x }) }
        (2, true) => { stylish::writeln!({ __dst(); &mut *__w }, "|{:08.1(fg=red)s}", { let x = ev(0); x }) }
        (3, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{0:?}'q'{:+(bg=default,bold)s}{0:+(bg=default,bold)s}{{}}{0:+(fg=red)e}\n", ev(0) as &P) }
        (3, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{0:?}'q'{:+(bg=default,bold)s}{0:+(bg=default,bold)s}{{}}{0:+(fg=red)e}\n", ev(0) as &P) }
        (4, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:s}{:+(bg=default,bold)E}{0:08.1s}", (ev(0),).0) }
        (4, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:s}{:+(bg=default,bold)E}{0:08.1s}", (ev(0),).0) }
        (5, false) => { stylish::write!({ __dst(); &mut *__w }, "{:+(bg=default,bold)s}''{1:(fg=red)x?}<b>{1:+}{:(faint,)s}x{2:>3s}{2:(fg=red)s}", (ev(0)), [ev(1)][0], (ev(2))) }
        (5, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:+(bg=default,bold)s}''{1:(fg=red)x?}<b>{1:+}{:(faint,)s}x{2:>3s}{2:(fg=red)s}", (ev(0)), [ev(1)][0], (ev(2))) }
        (6, false) => { stylish::write!({ __dst(); &mut *__w }, "{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p }) }
        (6, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p }) }
        (7, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{0:>3(bg=default,bold)?}{", "b:(faint,)o}1", ":{b:s}\"{0:(fg=red)?}|{b:08.1(faint,)?}]"), std::convert::identity(ev(0)), b = P(ev(1).0)) }
        (7, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:>3(bg=default,bold)?}{b:(faint,)o}1:{b:s}\"{0:(fg=red)?}|{b:08.1(faint,)?}]", std::convert::identity(ev(0)), b = P(ev(1).0)) }
        (8, false) => { stylish::write!({ __dst(); &mut *__w }, "{}{:+(bg=default,bold)o}\t{:(faint,)s}{:s}", ev(0) as &P, std::convert::identity(ev(1)), { ev(2) }, (ev(3))) }
        (8, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{}{:+(bg=default,bold)o}\t{:(faint,)s}{:s}", ev(0) as &P, std::convert::identity(ev(1)), { ev(2) }, (ev(3))) }
        (9, false) => { stylish::write!({ __dst(); &mut *__w }, "\r{b:+s}<!-- -->{a:>3s}'q'{b:>3(fg=red)x?}\\n{a}", a = &&ev(0), b = *ev(1)) }
        (9, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r{b:+s}<!-- -->{a:>3s}'q'{b:>3(fg=red)x?}\\n{a}", a = &&ev(0), b = *ev(1)) }
        (10, false) => { stylish::write!({ __dst(); &mut *__w }, "{:#(bg=default,bold)?}{4:e}é{3:>3(bg=default,bold)b}  {0:+x?}{3:08.1(fg=red)x}{:>3(faint,)x}{1:>3s}{:s}<!-- -->{4:b}", &*ev(0), &P(ev(1).0), &&ev(2), &P(ev(3).0), (|| ev(4))()) }
        (10, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:#(bg=default,bold)?}{4:e}é{3:>3(bg=default,bold)b}  {0:+x?}{3:08.1(fg=red)x}{:>3(faint,)x}{1:>3s}{:s}<!-- -->{4:b}", &*ev(0), &P(ev(1).0), &&ev(2), &P(ev(3).0), (|| ev(4))()) }
        (11, false) => { stylish::write!({ __dst(); &mut *__w }, "{{}}{:(fg=red)s}{3:>3(faint,)X}{1:+}<!-- -->{0:(faint,)o}&{2:>3s}", P { 0: ev(0).0 }, { ev(1) }, Some(ev(2)).unwrap(), ev(3)) }
        (11, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{}}{:(fg=red)s}{3:>3(faint,)X}{1:+}<!-- -->{0:(faint,)o}&{2:>3s}", P { 0: ev(0).0 }, { ev(1) }, Some(ev(2)).unwrap(), ev(3)) }
        (12, false) => { stylish::write!({ __dst(); &mut *__w }, "\u{feff}{4:+(fg=red)s}{2:s}{3:+x}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1x?}{3:08.1(bg=default,bold)E}]{3:s}{{}}{1:(fg=red)s}&amp;{0:08.1(fg=red)}\\", *ev(0), (|| ev(1))(), &*ev(2), Some(ev(3)).unwrap(), Some(ev(4)).unwrap()) }
        (12, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{4:+(fg=red)s}{2:s}{3:+x}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1x?}{3:08.1(bg=default,bold)E}]{3:s}{{}}{1:(fg=red)s}&amp;{0:08.1(fg=red)}\\", *ev(0), (|| ev(1))(), &*ev(2), Some(ev(3)).unwrap(), Some(ev(4)).unwrap()) }
        (13, false) => { stylish::write!({ __dst(); &mut *__w }, "\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0)) }
        (13, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0)) }
        (14, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("$0{:o}{:08.1s}[{:+(bg", "=default,b", "old)b}\u{feff}{:+(bg=default,bold)s} - "), (|| ev(0))(), Some(ev(1)).unwrap(), loop { break ev(2) }, [ev(3)][0]) }
        (14, true) => { stylish::writeln!({ __dst(); &mut *__w }, "$0{:o}{:08.1s}[{:+(bg=default,bold)b}\u{feff}{:+(bg=default,bold)s} - ", (|| ev(0))(), Some(ev(1)).unwrap(), loop { break ev(2) }, [ev(3)][0]) }
        (15, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3(fg=red)b}: ", ev(0)) }
        (15, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3(fg=red)b}: ", ev(0)) }
        (16, false) => { stylish::write!({ __dst(); &mut *__w }, ": {2:#(faint,)?}{2:+(faint,)s}{1:+(faint,)X}{1:e}\n{0:08.1s}\n\n", P(ev(0).0), (ev(1),).0, match ev(2) { p => p }) }
        (16, true) => { stylish::writeln!({ __dst(); &mut *__w }, ": {2:#(faint,)?}{2:+(faint,)s}{1:+(faint,)X}{1:e}\n{0:08.1s}\n\n", P(ev(0).0), (ev(1),).0, match ev(2) { p => p }) }
        (17, false) => { stylish::write!({ __dst(); &mut *__w }, "\r{:>3(fg=red)?}\\{0:08.1(bg=default,bold)s}{0:(fg=red)}<!-- -->{0:+E}{:08.1(faint,)E}]{:s}\n\n{1:+s}\r\n{:>3(faint,)b}\t", loop { break ev(0) }, ev(1), if let p = ev(2) { p } else { unreachable!() }, Some(ev(3)).unwrap()) }
        (17, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r{:>3(fg=red)?}\\{0:08.1(bg=default,bold)s}{0:(fg=red)}<!-- -->{0:+E}{:08.1(faint,)E}]{:s}\n\n{1:+s}\r\n{:>3(faint,)b}\t", loop { break ev(0) }, ev(1), if let p = ev(2) { p } else { unreachable!() }, Some(ev(3)).unwrap()) }
        (18, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:08.1(fg=red)s}{0:(fg=red)s} - {2:}é", std::convert::identity(ev(0)), { let x = ev(1); x }, loop { break ev(2) }) }
        (18, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:08.1(fg=red)s}{0:(fg=red)s} - {2:}é", std::convert::identity(ev(0)), { let x = ev(1); x }, loop { break ev(2) }) }
        (19, false) => { stylish::write!({ __dst(); &mut *__w }, "{{}}{:(bg=default,bold)s}{:+(fg=red)E}1:{2:+(bg=default,bold)x?}&amp;{1:+o}1:{:#(faint,)?}{:>3s}", *ev(0), match ev(1) { p => p }, loop { break ev(2) }, [ev(3)][0]) }
        (19, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{}}{:(bg=default,bold)s}{:+(fg=red)E}1:{2:+(bg=default,bold)x?}&amp;{1:+o}1:{:#(faint,)?}{:>3s}", *ev(0), match ev(1) { p => p }, loop { break ev(2) }, [ev(3)][0]) }
        (20, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{0:>3(bg=default,bold)e}&{0:(bg=", "default,bold)E}{0", ":+s}{:+(bg=default,bold)s}{0:+(fg=red)s}&amp;{:s}"), P(ev(0).0), Some(ev(1)).unwrap()) }
        (20, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:>3(bg=default,bold)e}&{0:(bg=default,bold)E}{0:+s}{:+(bg=default,bold)s}{0:+(fg=red)s}&amp;{:s}", P(ev(0).0), Some(ev(1)).unwrap()) }
        (21, false) => { stylish::write!({ __dst(); &mut *__w }, "é{3:08.1x?}  {3:>3s}{:+(bg=default,bold)s}\\n{:(fg=red)s}\n\n{:>3e}", if let p = ev(0) { p } else { unreachable!() }, ev(1) as &P, match ev(2) { p => p }, ev(3).me()) }
        (21, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{3:08.1x?}  {3:>3s}{:+(bg=default,bold)s}\\n{:(fg=red)s}\n\n{:>3e}", if let p = ev(0) { p } else { unreachable!() }, ev(1) as &P, match ev(2) { p => p }, ev(3).me()) }
        (22, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{:08.1(bg=default,bold)", "s}%%{0:>3e}{", "0:(fg=red)X}<b>{:>3e}\n\n{:+e}{0:+b}\\"), *ev(0), Some(ev(1)).unwrap(), std::convert::identity(ev(2))) }
        (22, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1(bg=default,bold)s}%%{0:>3e}{0:(fg=red)X}<b>{:>3e}\n\n{:+e}{0:+b}\\", *ev(0), Some(ev(1)).unwrap(), std::convert::identity(ev(2))) }
        (23, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{:s}", std::convert::identity(ev(0))) }
        (23, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{:s}", std::convert::identity(ev(0))) }
        (24, false) => { stylish::write!({ __dst(); &mut *__w }, "\u{feff}{0:s}<b>{0:(fg=red)s}{:+s}x{0:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }) }
        (24, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{0:s}<b>{0:(fg=red)s}{:+s}x{0:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }) }
        (25, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) }) }
        (25, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) }) }
        (26, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:+b}{2:s}{d:08.1s}1:{0:+(faint,)}}}", ev(0) as &P, [ev(1)][0], &P(ev(2).0), d = std::convert::identity(ev(3))) }
        (26, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:+b}{2:s}{d:08.1s}1:{0:+(faint,)}}}", ev(0) as &P, [ev(1)][0], &P(ev(2).0), d = std::convert::identity(ev(3))) }
        (27, false) => { stylish::write!({ __dst(); &mut *__w }, "{:08.1s}{:>3(fg=red)s}<!-- -->", (ev(0),).0, std::convert::identity(ev(1))) }
        (27, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1s}{:>3(fg=red)s}<!-- -->", (ev(0),).0, std::convert::identity(ev(1))) }
        (28, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{c:>3(faint,)b}{c:+(bg=default,bold)x}1:{d:>3(bg=default,bold)s}{b:#(fg=red)?}#;{a:>3s}{d:>3(fg=red)b}x{a:s}", a = Some(ev(0)).unwrap(), b = P { 0: ev(1).0 }, c = ev(2), d = &*ev(3)) }
        (28, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{c:>3(faint,)b}{c:+(bg=default,bold)x}1:{d:>3(bg=default,bold)s}{b:#(fg=red)?}#;{a:>3s}{d:>3(fg=red)b}x{a:s}", a = Some(ev(0)).unwrap(), b = P { 0: ev(1).0 }, c = ev(2), d = &*ev(3)) }
        (29, false) => { stylish::write!({ __dst(); &mut *__w }, "x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me()) }
        (29, true) => { stylish::writeln!({ __dst(); &mut *__w }, "x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me()) }
        (30, false) => { stylish::write!({ __dst(); &mut *__w }, "'q'{:+(faint,)?}　{:(bg=default,bold)s}  {:#(bg=default,bold)?}", ev(0).me(), (ev(1),).0, ev(2)) }
        (30, true) => { stylish::writeln!({ __dst(); &mut *__w }, "'q'{:+(faint,)?}　{:(bg=default,bold)s}  {:#(bg=default,bold)?}", ev(0).me(), (ev(1),).0, ev(2)) }
        (31, false) => { stylish::write!({ __dst(); &mut *__w }, "\\{:(bg=default,bold)X}", ev(0)) }
        (31, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\{:(bg=default,bold)X}", ev(0)) }
        (32, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("#;{0:>3(fg=", "red)s}", "%%{0:>3(fg=red)s}\n"), ev(0) as &P) }
        (32, true) => { stylish::writeln!({ __dst(); &mut *__w }, "#;{0:>3(fg=red)s}%%{0:>3(fg=red)s}\n", ev(0) as &P) }
        (33, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:o} - {:+(fg=red)e}1:{1:x}{1:+b}\r\n{:(faint,)e}", ev(0) as &P, &&ev(1)) }
        (33, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:o} - {:+(fg=red)e}1:{1:x}{1:+b}\r\n{:(faint,)e}", ev(0) as &P, &&ev(1)) }
        (34, false) => { stylish::write!({ __dst(); &mut *__w }, "x{1:08.1s}{:(faint,)x?}\r\n{:E}{1:(bg=default,bold)x}{1:>3(fg=red)s}$0{0:(bg=default,bold)?}", &*ev(0), P(ev(1).0)) }
        (34, true) => { stylish::writeln!({ __dst(); &mut *__w }, "x{1:08.1s}{:(faint,)x?}\r\n{:E}{1:(bg=default,bold)x}{1:>3(fg=red)s}$0{0:(bg=default,bold)?}", &*ev(0), P(ev(1).0)) }
        (35, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{0:+(fg=r", "ed)b}", "{0:+(fg=red)s}"), P(ev(0).0)) }
        (35, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+(fg=red)b}{0:+(fg=red)s}", P(ev(0).0)) }
        (36, false) => { stylish::write!({ __dst(); &mut *__w }, ": {2:08.1s}é{1:(faint,)s}{0:08.1b}{0:>3(faint,)s}#;", ev(0).me(), ev(1), same!(ev(2))) }
        (36, true) => { stylish::writeln!({ __dst(); &mut *__w }, ": {2:08.1s}é{1:(faint,)s}{0:08.1b}{0:>3(faint,)s}#;", ev(0).me(), ev(1), same!(ev(2))) }
        (37, false) => { stylish::write!({ __dst(); &mut *__w }, "{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0))) }
        (37, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0))) }
        (38, false) => { stylish::write!({ __dst(); &mut *__w }, "{2:s}é{0:08.1(fg=red)X}a{{b}}c{:(fg=red)s}{:#(faint,)?}&amp;{}{0:08.1s}{3:>3s} - {:#(faint,)?}  ", { let x = ev(0); x }, &*ev(1), P { 0: ev(2).0 }, (ev(3),).0) }
        (38, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{2:s}é{0:08.1(fg=red)X}a{{b}}c{:(fg=red)s}{:#(faint,)?}&amp;{}{0:08.1s}{3:>3s} - {:#(faint,)?}  ", { let x = ev(0); x }, &*ev(1), P { 0: ev(2).0 }, (ev(3),).0) }
        (39, false) => { stylish::write!({ __dst(); &mut *__w }, "é{d:08.1(fg=red)s}]{a:(faint,)X}<!-- -->{c:#(bg=default,bold)?}\n{b:+X}  ", a = { ev(0) }, b = P { 0: ev(1).0 }, c = ev(2) as &P, d = std::convert::identity(ev(3))) }
        (39, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{d:08.1(fg=red)s}]{a:(faint,)X}<!-- -->{c:#(bg=default,bold)?}\n{b:+X}  ", a = { ev(0) }, b = P { 0: ev(1).0 }, c = ev(2) as &P, d = std::convert::identity(ev(3))) }
        (40, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{2:(fg=red)X}{{}}{4:+s}{3:(fg=red)s}{0:08.1(faint,)X}{1:08.1s}%%{3:>3s}", (ev(0)), &&ev(1), match ev(2) { p => p }, ev(3).me(), *ev(4)) }
        (40, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{2:(fg=red)X}{{}}{4:+s}{3:(fg=red)s}{0:08.1(faint,)X}{1:08.1s}%%{3:>3s}", (ev(0)), &&ev(1), match ev(2) { p => p }, ev(3).me(), *ev(4)) }
        (41, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("]{c:>3(faint,)s}{b:08", ".1b}{a:>3(", "faint,)s}}}{c:s}1:{b:+(faint,)s}"), a = loop { break ev(0) }, b = *ev(1), c = std::convert::identity(ev(2))) }
        (41, true) => { stylish::writeln!({ __dst(); &mut *__w }, "]{c:>3(faint,)s}{b:08.1b}{a:>3(faint,)s}}}{c:s}1:{b:+(faint,)s}", a = loop { break ev(0) }, b = *ev(1), c = std::convert::identity(ev(2))) }
        (42, false) => { stylish::write!({ __dst(); &mut *__w }, "$0{a:>3(bg=default,bold)x?}{b:08.1(faint,)x?}{b:+(bg=default,bold)E}&amp;{b:+(faint,)b}", a = ev(0), b = match ev(1) { p => p }) }
        (42, true) => { stylish::writeln!({ __dst(); &mut *__w }, "$0{a:>3(bg=default,bold)x?}{b:08.1(faint,)x?}{b:+(bg=default,bold)E}&amp;{b:+(faint,)b}", a = ev(0), b = match ev(1) { p => p }) }
        (43, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{:+(faint,)b}{:X}}}{1:08.1}", std::convert::identity(ev(0)), ev(1)) }
        (43, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{:+(faint,)b}{:X}}}{1:08.1}", std::convert::identity(ev(0)), ev(1)) }
        (44, false) => { stylish::write!({ __dst(); &mut *__w }, concat!(" - {a:+(fai", "nt,)s}", "1:{b:>3(faint,)s}["), a = if let p = ev(0) { p } else { unreachable!() }, b = &P(ev(1).0)) }
        (44, true) => { stylish::writeln!({ __dst(); &mut *__w }, " - {a:+(faint,)s}1:{b:>3(faint,)s}[", a = if let p = ev(0) { p } else { unreachable!() }, b = &P(ev(1).0)) }
        (45, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:+(faint,)e}%%{0:s}{2:(faint,)o}{2:s}", P(ev(0).0), *ev(1), ev(2)) }
        (45, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:+(faint,)e}%%{0:s}{2:(faint,)o}{2:s}", P(ev(0).0), *ev(1), ev(2)) }
        (46, false) => { stylish::write!({ __dst(); &mut *__w }, "#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x }) }
        (46, true) => { stylish::writeln!({ __dst(); &mut *__w }, "#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x }) }
        (47, false) => { stylish::write!({ __dst(); &mut *__w }, "\\n{a:(bg=default,bold)s}{c:(fg=red)x}{d:08.1s}{e:08.1(bg=default,bold)o}%%{e:>3x?}{b:E}''{b:08.1(faint,)s}\\", a = loop { break ev(0) }, b = P(ev(1).0), c = &P(ev(2).0), d = (ev(3),).0, e = P(ev(4).0)) }
        (47, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\n{a:(bg=default,bold)s}{c:(fg=red)x}{d:08.1s}{e:08.1(bg=default,bold)o}%%{e:>3x?}{b:E}''{b:08.1(faint,)s}\\", a = loop { break ev(0) }, b = P(ev(1).0), c = &P(ev(2).0), d = (ev(3),).0, e = P(ev(4).0)) }
        (48, false) => { stylish::write!({ __dst(); &mut *__w }, "é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2)) }
        (48, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2)) }
        (49, false) => { stylish::write!({ __dst(); &mut *__w }, "{e:08.1(fg=red)s}é{c:08.1(fg=red)e}#;{a:(bg=default,bold)E}\t{d:+X}''{b:(bg=default,bold)s}{e:s}{c:08.1(fg=red)s}\u{feff}", a = *ev(0), b = { ev(1) }, c = std::convert::identity(ev(2)), d = *ev(3), e = (|| ev(4))()) }
        (49, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{e:08.1(fg=red)s}é{c:08.1(fg=red)e}#;{a:(bg=default,bold)E}\t{d:+X}''{b:(bg=default,bold)s}{e:s}{c:08.1(fg=red)s}\u{feff}", a = *ev(0), b = { ev(1) }, c = std::convert::identity(ev(2)), d = *ev(3), e = (|| ev(4))()) }
        (50, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{4:08.1s} - {1:(bg=default,b", "old)o}a{{b}}c{", "3:+(faint,)E}{:08.1s}{4:#(faint,)?}\t{2:#?}"), [ev(0)][0], ev(1) as &P, (ev(2),).0, &P(ev(3).0), (|| ev(4))()) }
        (50, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{4:08.1s} - {1:(bg=default,bold)o}a{{b}}c{3:+(faint,)E}{:08.1s}{4:#(faint,)?}\t{2:#?}", [ev(0)][0], ev(1) as &P, (ev(2),).0, &P(ev(3).0), (|| ev(4))()) }
        (51, false) => { stylish::write!({ __dst(); &mut *__w }, "$0{0:>3(fg=red)s}\\n{:08.1(faint,)x?}: {0:+(bg=default,bold)}{:>3s}{2:(faint,)s}{{{:>3s}}}{2:+(bg=default,bold)s}{{{2:s}''{2:08.1}{2:>3(faint,)x?}{:08.1s}{3:+(fg=red)s}{2:(faint,)E}&amp;", *ev(0), if let p = ev(1) { p } else { unreachable!() }, ev(2) as &P, &*ev(3)) }
        (51, true) => { stylish::writeln!({ __dst(); &mut *__w }, "$0{0:>3(fg=red)s}\\n{:08.1(faint,)x?}: {0:+(bg=default,bold)}{:>3s}{2:(faint,)s}{{{:>3s}}}{2:+(bg=default,bold)s}{{{2:s}''{2:08.1}{2:>3(faint,)x?}{:08.1s}{3:+(fg=red)s}{2:(faint,)E}&amp;", *ev(0), if let p = ev(1) { p } else { unreachable!() }, ev(2) as &P, &*ev(3)) }
        (52, false) => { stylish::write!({ __dst(); &mut *__w }, "{:s}|{:#?}", [ev(0)][0], std::convert::identity(ev(1))) }
        (52, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:s}|{:#?}", [ev(0)][0], std::convert::identity(ev(1))) }
        (53, false) => { stylish::write!({ __dst(); &mut *__w }, "{:+(bg=default,bold)s}\\{0:s}{0:08.1x}{0:+(fg=red)E}'q'", P(ev(0).0)) }
        (53, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:+(bg=default,bold)s}\\{0:s}{0:08.1x}{0:+(fg=red)E}'q'", P(ev(0).0)) }
        (54, false) => { stylish::write!({ __dst(); &mut *__w }, "\r\n{c:(bg=default,bold)}{a:+s}\t{d:+s}{a:(faint,)e}{e:(bg=default,bold)s}{b:08.1s}", a = std::convert::identity(ev(0)), b = std::convert::identity(ev(1)), c = { let x = ev(2); x }, d = ev(3), e = same!(ev(4))) }
        (54, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r\n{c:(bg=default,bold)}{a:+s}\t{d:+s}{a:(faint,)e}{e:(bg=default,bold)s}{b:08.1s}", a = std::convert::identity(ev(0)), b = std::convert::identity(ev(1)), c = { let x = ev(2); x }, d = ev(3), e = same!(ev(4))) }
        (55, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:08.1b}|{:08.1o}#;{:+(bg=default,bold)b}{2:x?}{:b}\\{4:?}{3:(faint,)s}é{2:X}\r\n{:08.1(fg=red)e}<b>{3:08.1(bg=default,bold)s}{4:+(bg=default,bold)s}{{}}{3:(fg=red)o}{:(faint,)x}{4:08.1?}''", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), { let x = ev(3); x }, { ev(4) }) }
        (55, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:08.1b}|{:08.1o}#;{:+(bg=default,bold)b}{2:x?}{:b}\\{4:?}{3:(faint,)s}é{2:X}\r\n{:08.1(fg=red)e}<b>{3:08.1(bg=default,bold)s}{4:+(bg=default,bold)s}{{}}{3:(fg=red)o}{:(faint,)x}{4:08.1?}''", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), { let x = ev(3); x }, { ev(4) }) }
        (56, false) => { stylish::write!({ __dst(); &mut *__w }, "é{:08.1(fg=red)s}{:+s}\n\n{:>3(bg=default,bold)E}\r{:X}: ", (ev(0),).0, ev(1), { let x = ev(2); x }, ev(3)) }
        (56, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{:08.1(fg=red)s}{:+s}\n\n{:>3(bg=default,bold)E}\r{:X}: ", (ev(0),).0, ev(1), { let x = ev(2); x }, ev(3)) }
        (57, false) => { stylish::write!({ __dst(); &mut *__w }, "\t{0:08.1e}: {:+s}<b>", (ev(0),).0) }
        (57, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{0:08.1e}: {:+s}<b>", (ev(0),).0) }
        (58, false) => { stylish::write!({ __dst(); &mut *__w }, "\\n{2:08.1(bg=default,bold)s}\n\n{0:+(fg=red)s}<b>{3:(bg=default,bold)o}&{3:>3(fg=red)b} - {1:+s} - {2:08.1x}\r{1:#(faint,)?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", P { 0: ev(0).0 }, same!(ev(1)), ev(2) as &P, *ev(3)) }
        (58, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\n{2:08.1(bg=default,bold)s}\n\n{0:+(fg=red)s}<b>{3:(bg=default,bold)o}&{3:>3(fg=red)b} - {1:+s} - {2:08.1x}\r{1:#(faint,)?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", P { 0: ev(0).0 }, same!(ev(1)), ev(2) as &P, *ev(3)) }
        (59, false) => { stylish::write!({ __dst(); &mut *__w }, "{:(fg=red)s}{:08.1x}{:08.1(bg=default,bold)s}{:08.1(fg=red)x?}$0{:E}", { ev(0) }, { ev(1) }, *ev(2), ev(3).me(), [ev(4)][0]) }
        (59, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:(fg=red)s}{:08.1x}{:08.1(bg=default,bold)s}{:08.1(fg=red)x?}$0{:E}", { ev(0) }, { ev(1) }, *ev(2), ev(3).me(), [ev(4)][0]) }
        (60, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\"{1:08.1(fg=red)s}é{2:08.1(bg=default", ",bold)?}{{{1:>3s}''", "{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}"), (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) }) }
        (60, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{1:08.1(fg=red)s}é{2:08.1(bg=default,bold)?}{{{1:>3s}''{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}", (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) }) }
        (61, false) => { stylish::write!({ __dst(); &mut *__w }, "\n\n{b:(bg=default,bold)e}]{e:s}{a:08.1(faint,)e}\"{d:>3(fg=red)s}a{{b}}c{c:s}　{c:>3(faint,)s}\n\n{d:+(fg=red)s}", a = (|| ev(0))(), b = Some(ev(1)).unwrap(), c = ev(2), d = P { 0: ev(3).0 }, e = (|| ev(4))()) }
        (61, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\n\n{b:(bg=default,bold)e}]{e:s}{a:08.1(faint,)e}\"{d:>3(fg=red)s}a{{b}}c{c:s}　{c:>3(faint,)s}\n\n{d:+(fg=red)s}", a = (|| ev(0))(), b = Some(ev(1)).unwrap(), c = ev(2), d = P { 0: ev(3).0 }, e = (|| ev(4))()) }
        (62, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("[{0:+(fai", "nt,)x", "}|{:+(fg=red)}"), ev(0) as &P) }
        (62, true) => { stylish::writeln!({ __dst(); &mut *__w }, "[{0:+(faint,)x}|{:+(fg=red)}", ev(0) as &P) }
        (63, false) => { stylish::write!({ __dst(); &mut *__w }, "{:?}{:>3(fg=red)}\r\n{:s}{:08.1b}", ev(0), if let p = ev(1) { p } else { unreachable!() }, same!(ev(2)), Some(ev(3)).unwrap()) }
        (63, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:?}{:>3(fg=red)}\r\n{:s}{:08.1b}", ev(0), if let p = ev(1) { p } else { unreachable!() }, same!(ev(2)), Some(ev(3)).unwrap()) }
        (64, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{{}}{a:s}<!-- -->{a:+", "(faint,)s}", "{a:>3(bg=default,bold)s}{a:>3o}&"), a = std::convert::identity(ev(0))) }
        (64, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{}}{a:s}<!-- -->{a:+(faint,)s}{a:>3(bg=default,bold)s}{a:>3o}&", a = std::convert::identity(ev(0))) }
        (65, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("&{0:(fg", "=re", "d)o}\0{0:x?}"), std::convert::identity(ev(0))) }
        (65, true) => { stylish::writeln!({ __dst(); &mut *__w }, "&{0:(fg=red)o}\0{0:x?}", std::convert::identity(ev(0))) }
        (66, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:(fg=red)s}\\{1:(faint,)x}m0;1{2:>3(bg=default,bold)E}: ", P { 0: ev(0).0 }, Some(ev(1)).unwrap(), [ev(2)][0]) }
        (66, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:(fg=red)s}\\{1:(faint,)x}m0;1{2:>3(bg=default,bold)E}: ", P { 0: ev(0).0 }, Some(ev(1)).unwrap(), [ev(2)][0]) }
        (67, false) => { stylish::write!({ __dst(); &mut *__w }, "{c:s}{{{c:s}{1:+(faint,)E}\\{0:08.1x}{1:08.1(bg=default,bold)b}  {1:>3s}&amp;", std::convert::identity(ev(0)), match ev(1) { p => p }, c = (ev(2))) }
        (67, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{c:s}{{{c:s}{1:+(faint,)E}\\{0:08.1x}{1:08.1(bg=default,bold)b}  {1:>3s}&amp;", std::convert::identity(ev(0)), match ev(1) { p => p }, c = (ev(2))) }
        (68, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:b}", ev(0)) }
        (68, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:b}", ev(0)) }
        (69, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{1:s}{{{:>3(fg=red)s}é{0:(bg=default,bold)s}%%{1:+(fg=red)b}{1:+(bg=default,bold)e}x{1:+(faint,)e}{:+s}\r\n", std::convert::identity(ev(0)), loop { break ev(1) }) }
        (69, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{1:s}{{{:>3(fg=red)s}é{0:(bg=default,bold)s}%%{1:+(fg=red)b}{1:+(bg=default,bold)e}x{1:+(faint,)e}{:+s}\r\n", std::convert::identity(ev(0)), loop { break ev(1) }) }
        (70, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3(bg=default,bold)?}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {1:(bg=default,bold)?}[{2:#(fg=red)?}é{2:(faint,)o}{1:(fg=red)x?}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, ev(2)) }
        (70, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3(bg=default,bold)?}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {1:(bg=default,bold)?}[{2:#(fg=red)?}é{2:(faint,)o}{1:(fg=red)x?}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, ev(2)) }
        (71, false) => { stylish::write!({ __dst(); &mut *__w }, "<!-- -->{0:#?}a{{b}}c{:x}{0:+(fg=red)s}{0:+s}x", (ev(0),).0) }
        (71, true) => { stylish::writeln!({ __dst(); &mut *__w }, "<!-- -->{0:#?}a{{b}}c{:x}{0:+(fg=red)s}{0:+s}x", (ev(0),).0) }
        (72, false) => { stylish::write!({ __dst(); &mut *__w }, "\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2)) }
        (72, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2)) }
        (73, false) => { stylish::write!({ __dst(); &mut *__w }, "#;{0:08.1(fg=red)E}\u{feff}{1:(faint,)s}{2:08.1(fg=red)s}{4:>3(faint,)s}{3:08.1e}\n", P(ev(0).0), std::convert::identity(ev(1)), (ev(2)), ev(3) as &P, (ev(4),).0) }
        (73, true) => { stylish::writeln!({ __dst(); &mut *__w }, "#;{0:08.1(fg=red)E}\u{feff}{1:(faint,)s}{2:08.1(fg=red)s}{4:>3(faint,)s}{3:08.1e}\n", P(ev(0).0), std::convert::identity(ev(1)), (ev(2)), ev(3) as &P, (ev(4),).0) }
        (74, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{2:(fg=red)s}{3:s}}}{4:s}{:s}|{1:s}$0{4:(faint,)s}　{0:(fg=red)s}{1:>3s}\"", *ev(0), (ev(1),).0, same!(ev(2)), ev(3).me(), P { 0: ev(4).0 }) }
        (74, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{2:(fg=red)s}{3:s}}}{4:s}{:s}|{1:s}$0{4:(faint,)s}　{0:(fg=red)s}{1:>3s}\"", *ev(0), (ev(1),).0, same!(ev(2)), ev(3).me(), P { 0: ev(4).0 }) }
        (75, false) => { stylish::write!({ __dst(); &mut *__w }, "\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me()) }
        (75, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me()) }
        (76, false) => { stylish::write!({ __dst(); &mut *__w }, "\t{0:(fg=red)s}  {:08.1(faint,)s}", loop { break ev(0) }) }
        (76, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{0:(fg=red)s}  {:08.1(faint,)s}", loop { break ev(0) }) }
        (77, false) => { stylish::write!({ __dst(); &mut *__w }, "\t{2:s}\\{4:+E}é{3:(bg=default,bold)e}a{{b}}c{3:+(faint,)s}{1:>3(fg=red)s}: {0:>3(fg=red)o}", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), ev(3).me(), loop { break ev(4) }) }
        (77, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{2:s}\\{4:+E}é{3:(bg=default,bold)e}a{{b}}c{3:+(faint,)s}{1:>3(fg=red)s}: {0:>3(fg=red)o}", &P(ev(0).0), { let x = ev(1); x }, ev(2).me(), ev(3).me(), loop { break ev(4) }) }
        (78, false) => { stylish::write!({ __dst(); &mut *__w }, "é{:s}a{{b}}c{1:08.1(faint,)s}{{{1:>3(bg=default,bold)s}{1:+(fg=red)s}[{1:s}\r\n{0:E}m0;1{1:08.1(bg=default,bold)b}[{:#?}\0{:s}{:>3?}{3:+(faint,)E}\u{feff}", *ev(0), (ev(1),).0, P { 0: ev(2).0 }, std::convert::identity(ev(3))) }
        (78, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{:s}a{{b}}c{1:08.1(faint,)s}{{{1:>3(bg=default,bold)s}{1:+(fg=red)s}[{1:s}\r\n{0:E}m0;1{1:08.1(bg=default,bold)b}[{:#?}\0{:s}{:>3?}{3:+(faint,)E}\u{feff}", *ev(0), (ev(1),).0, P { 0: ev(2).0 }, std::convert::identity(ev(3))) }
        (79, false) => { stylish::write!({ __dst(); &mut *__w }, "%%{a:#?}{b:(fg=red)s}é{a:#?}", a = { let x = ev(0); x }, b = ev(1)) }
        (79, true) => { stylish::writeln!({ __dst(); &mut *__w }, "%%{a:#?}{b:(fg=red)s}é{a:#?}", a = { let x = ev(0); x }, b = ev(1)) }
        (80, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:>3(faint,)s}]{:x}$0{:>3(faint,)s}[{0:(bg=default,bold)?}{0:(bg=default,bold)s}{:+s}1:{:08.1(faint,)s}1:{3:(fg=red)s}{3:>3(faint,)s}{3:(fg=red)s}{:(bg=default,bold)b}{4:#?}\r\n", &&ev(0), same!(ev(1)), &&ev(2), match ev(3) { p => p }, &P(ev(4).0)) }
        (80, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:>3(faint,)s}]{:x}$0{:>3(faint,)s}[{0:(bg=default,bold)?}{0:(bg=default,bold)s}{:+s}1:{:08.1(faint,)s}1:{3:(fg=red)s}{3:>3(faint,)s}{3:(fg=red)s}{:(bg=default,bold)b}{4:#?}\r\n", &&ev(0), same!(ev(1)), &&ev(2), match ev(3) { p => p }, &P(ev(4).0)) }
        (81, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{0:(fg=red)s}  {:s}''{0:>3(faint,)e}\"{0:s}\u{feff}{:(faint,)s}'q'{:08.1}'q'{1:(faint", ",)s}&{3:08.1(fg=red)x}{3:+s}é{:+s}]{3:", "(bg=default,bold)s}\0{4:s}\r\n{:08.1E}x{4:08.1(fg=red)x}{4:s}é{4:08.1(bg=default,bold)s}<!-- -->{4:(bg=default,bold)s}\\"), { let x = ev(0); x }, ev(1), *ev(2), *ev(3), P { 0: ev(4).0 }) }
        (81, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:(fg=red)s}  {:s}''{0:>3(faint,)e}\"{0:s}\u{feff}{:(faint,)s}'q'{:08.1}'q'{1:(faint,)s}&{3:08.1(fg=red)x}{3:+s}é{:+s}]{3:(bg=default,bold)s}\0{4:s}\r\n{:08.1E}x{4:08.1(fg=red)x}{4:s}é{4:08.1(bg=default,bold)s}<!-- -->{4:(bg=default,bold)s}\\", { let x = ev(0); x }, ev(1), *ev(2), *ev(3), P { 0: ev(4).0 }) }
        (82, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:+(fg=red)e}{2:08.1(fg=red)s}{{}}{0:+s}{3:08.1(faint,)e}\n\n{:08.1}{2:08.1s}$0{:s}: {0}\"", *ev(0), std::convert::identity(ev(1)), ev(2), *ev(3)) }
        (82, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:+(fg=red)e}{2:08.1(fg=red)s}{{}}{0:+s}{3:08.1(faint,)e}\n\n{:08.1}{2:08.1s}$0{:s}: {0}\"", *ev(0), std::convert::identity(ev(1)), ev(2), *ev(3)) }
        (83, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\\n{:08.1(fa", "int,)}", "\\n{:08.1(faint,)X}"), *ev(0), same!(ev(1))) }
        (83, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\n{:08.1(faint,)}\\n{:08.1(faint,)X}", *ev(0), same!(ev(1))) }
        (84, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3(fg=red)X}　{:+}: {:>3s}", ev(0), std::convert::identity(ev(1)), P { 0: ev(2).0 }) }
        (84, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3(fg=red)X}　{:+}: {:>3s}", ev(0), std::convert::identity(ev(1)), P { 0: ev(2).0 }) }
        (85, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P) }
        (85, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P) }
        (86, false) => { stylish::write!({ __dst(); &mut *__w }, "{2:(fg=red)?}}}{:(fg=red)E}{2:>3s}: {2:(bg=default,bold)s} - {2:x?}a{{b}}c{1:+(bg=default,bold)s}1:", *ev(0), if let p = ev(1) { p } else { unreachable!() }, &&ev(2)) }
        (86, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{2:(fg=red)?}}}{:(fg=red)E}{2:>3s}: {2:(bg=default,bold)s} - {2:x?}a{{b}}c{1:+(bg=default,bold)s}1:", *ev(0), if let p = ev(1) { p } else { unreachable!() }, &&ev(2)) }
        (87, false) => { stylish::write!({ __dst(); &mut *__w }, "{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))()) }
        (87, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))()) }
        (88, false) => { stylish::write!({ __dst(); &mut *__w }, "  {2:s}é{0:#(faint,)?}{1:>3s}[{1:(bg=default,bold)E}{0:+(fg=red)x}{1:>3(faint,)s}", { ev(0) }, match ev(1) { p => p }, (ev(2),).0) }
        (88, true) => { stylish::writeln!({ __dst(); &mut *__w }, "  {2:s}é{0:#(faint,)?}{1:>3s}[{1:(bg=default,bold)E}{0:+(fg=red)x}{1:>3(faint,)s}", { ev(0) }, match ev(1) { p => p }, (ev(2),).0) }
        (89, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{:(fg=red)s}é{0:08.1(fg=red)E} - {1:(faint,)b}\\n{:#?}{1:>3E}&{:08.1(bg=default,bold)o}\n{:(faint,)s}　{2:+s}", (ev(0)), same!(ev(1)), ev(2), &*ev(3)) }
        (89, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{:(fg=red)s}é{0:08.1(fg=red)E} - {1:(faint,)b}\\n{:#?}{1:>3E}&{:08.1(bg=default,bold)o}\n{:(faint,)s}　{2:+s}", (ev(0)), same!(ev(1)), ev(2), &*ev(3)) }
        (90, false) => { stylish::write!({ __dst(); &mut *__w }, "1:{:>3}<!-- -->{:>3(bg=default,bold)s}{:+(faint,)b}\n", &&ev(0), same!(ev(1)), &*ev(2)) }
        (90, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{:>3}<!-- -->{:>3(bg=default,bold)s}{:+(faint,)b}\n", &&ev(0), same!(ev(1)), &*ev(2)) }
        (91, false) => { stylish::write!({ __dst(); &mut *__w }, ": {1:+(fg=red)}: {1:+(fg=red)s}a{{b}}c{0:+(fg=red)s}{:(faint,)o}{1:>3(faint,)s}{0:(faint,)s} - {1:+s}{0:s}\n{:08.1(fg=red)s}'q'{1:(faint,)E}{0:08.1(bg=default,bold)}$0", { let x = ev(0); x }, ev(1) as &P) }
        (91, true) => { stylish::writeln!({ __dst(); &mut *__w }, ": {1:+(fg=red)}: {1:+(fg=red)s}a{{b}}c{0:+(fg=red)s}{:(faint,)o}{1:>3(faint,)s}{0:(faint,)s} - {1:+s}{0:s}\n{:08.1(fg=red)s}'q'{1:(faint,)E}{0:08.1(bg=default,bold)}$0", { let x = ev(0); x }, ev(1) as &P) }
        (92, false) => { stylish::write!({ __dst(); &mut *__w }, "\0{c:08.1(fg=red)?}]{d:(faint,)o}{a:08.1?}\u{feff}{c:>3E}{b:(bg=default,bold)s}\\{d:>3(faint,)E}", a = *ev(0), b = [ev(1)][0], c = &&ev(2), d = &*ev(3)) }
        (92, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\0{c:08.1(fg=red)?}]{d:(faint,)o}{a:08.1?}\u{feff}{c:>3E}{b:(bg=default,bold)s}\\{d:>3(faint,)E}", a = *ev(0), b = [ev(1)][0], c = &&ev(2), d = &*ev(3)) }
        (93, false) => { stylish::write!({ __dst(); &mut *__w }, "{a:>3s}%%", a = *ev(0)) }
        (93, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{a:>3s}%%", a = *ev(0)) }
        (94, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1))) }
        (94, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1))) }
        (95, false) => { stylish::write!({ __dst(); &mut *__w }, "  {b:(faint,)s}$0{c:(fg=red)s}\n\n{b:x}1:{d:+s}''{a:(fg=red)s}", a = &*ev(0), b = *ev(1), c = *ev(2), d = *ev(3)) }
        (95, true) => { stylish::writeln!({ __dst(); &mut *__w }, "  {b:(faint,)s}$0{c:(fg=red)s}\n\n{b:x}1:{d:+s}''{a:(fg=red)s}", a = &*ev(0), b = *ev(1), c = *ev(2), d = *ev(3)) }
        (96, false) => { stylish::write!({ __dst(); &mut *__w }, "&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x }) }
        (96, true) => { stylish::writeln!({ __dst(); &mut *__w }, "&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x }) }
        (97, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{0:08.1x?}<b>{0:#(fg=red)?}{{}}{:08.1x}{2:x?}x{:e}  {", ":+(faint,)X}\\{2:(fg=red)x}a", "{{b}}c{3:>3s}　{3:(faint,)s}{2:08.1x?}$0{2:(fg=red)o}{:+s}1:{3:(bg=default,bold)x}"), *ev(0), &*ev(1), P(ev(2).0), Some(ev(3)).unwrap()) }
        (97, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:08.1x?}<b>{0:#(fg=red)?}{{}}{:08.1x}{2:x?}x{:e}  {:+(faint,)X}\\{2:(fg=red)x}a{{b}}c{3:>3s}　{3:(faint,)s}{2:08.1x?}$0{2:(fg=red)o}{:+s}1:{3:(bg=default,bold)x}", *ev(0), &*ev(1), P(ev(2).0), Some(ev(3)).unwrap()) }
        (98, false) => { stylish::write!({ __dst(); &mut *__w }, "{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1))) }
        (98, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1))) }
        (99, false) => { stylish::write!({ __dst(); &mut *__w }, "\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4)) }
        (99, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4)) }
        (100, false) => { stylish::write!({ __dst(); &mut *__w }, ": {a:(bg=default,bold)X}\0", a = ev(0) as &P) }
        (100, true) => { stylish::writeln!({ __dst(); &mut *__w }, ": {a:(bg=default,bold)X}\0", a = ev(0) as &P) }
        (101, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3s}%%{:>3x?}'q'{:(fg=red)e}<!-- -->{:08.1(fg=red)s}", &*ev(0), P(ev(1).0), &*ev(2), [ev(3)][0]) }
        (101, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3s}%%{:>3x?}'q'{:(fg=red)e}<!-- -->{:08.1(fg=red)s}", &*ev(0), P(ev(1).0), &*ev(2), [ev(3)][0]) }
        (102, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{c:(fg=red)s}{", "a:+s}{{", "}}{b:+E}{a:(fg=red)?}"), a = [ev(0)][0], b = std::convert::identity(ev(1)), c = Some(ev(2)).unwrap()) }
        (102, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{c:(fg=red)s}{a:+s}{{}}{b:+E}{a:(fg=red)?}", a = [ev(0)][0], b = std::convert::identity(ev(1)), c = Some(ev(2)).unwrap()) }
        (103, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("é{1:(fg=red)s}\r\n{4:s}#;{4:s}　{0:", "#?}\0{3:08.1(faint", ",)s}m0;1{1:>3s} - {2:>3(bg=default,bold)s}a{{b}}c"), { let x = ev(0); x }, P(ev(1).0), (ev(2),).0, ev(3).me(), ev(4).me()) }
        (103, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{1:(fg=red)s}\r\n{4:s}#;{4:s}　{0:#?}\0{3:08.1(faint,)s}m0;1{1:>3s} - {2:>3(bg=default,bold)s}a{{b}}c", { let x = ev(0); x }, P(ev(1).0), (ev(2),).0, ev(3).me(), ev(4).me()) }
        (104, false) => { stylish::write!({ __dst(); &mut *__w }, "{:08.1(faint,)o}\u{feff}{:08.1(fg=red)}{{}}", std::convert::identity(ev(0)), { let x = ev(1); x }) }
        (104, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1(faint,)o}\u{feff}{:08.1(fg=red)}{{}}", std::convert::identity(ev(0)), { let x = ev(1); x }) }
        (105, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:x}\r{:s}", ev(0) as &P) }
        (105, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:x}\r{:s}", ev(0) as &P) }
        (106, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3s}{2:(bg=default,bold)?}{:(fg=red)o}{:>3(faint,)s}　", (ev(0)), ev(1) as &P, ev(2).me()) }
        (106, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3s}{2:(bg=default,bold)?}{:(fg=red)o}{:>3(faint,)s}　", (ev(0)), ev(1) as &P, ev(2).me()) }
        (107, false) => { stylish::write!({ __dst(); &mut *__w }, "{:08.1(fg=red)o}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:>3(faint,)s}", (|| ev(0))(), ev(1).me()) }
        (107, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1(fg=red)o}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:>3(faint,)s}", (|| ev(0))(), ev(1).me()) }
        (108, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:#(fg=red)?}&amp;{3:s}{2:(faint,)s}{0:>3(faint,)X}{{{0:>3(fg=red)s}{1:s}\"{2:(fg=red)s}", ev(0).me(), ev(1), &P(ev(2).0), *ev(3)) }
        (108, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:#(fg=red)?}&amp;{3:s}{2:(faint,)s}{0:>3(faint,)X}{{{0:>3(fg=red)s}{1:s}\"{2:(fg=red)s}", ev(0).me(), ev(1), &P(ev(2).0), *ev(3)) }
        (109, false) => { stylish::write!({ __dst(); &mut *__w }, "1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() }) }
        (109, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() }) }
        (110, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:>3(faint,)s}\\n{3:>3(faint,)s}{:s}: {:08.1s}{0:+s}{3:(faint,)s}{4:s}{:08.1(bg=default,bold)b}", (ev(0)), { ev(1) }, &*ev(2), Some(ev(3)).unwrap(), P { 0: ev(4).0 }) }
        (110, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:>3(faint,)s}\\n{3:>3(faint,)s}{:s}: {:08.1s}{0:+s}{3:(faint,)s}{4:s}{:08.1(bg=default,bold)b}", (ev(0)), { ev(1) }, &*ev(2), Some(ev(3)).unwrap(), P { 0: ev(4).0 }) }
        (111, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("<!-- -->{b:(bg=defaul", "t,bold)s}{", "{}}{c:+s}}}{a:+(faint,)X}a{{b}}c"), a = if let p = ev(0) { p } else { unreachable!() }, b = &&ev(1), c = [ev(2)][0]) }
        (111, true) => { stylish::writeln!({ __dst(); &mut *__w }, "<!-- -->{b:(bg=default,bold)s}{{}}{c:+s}}}{a:+(faint,)X}a{{b}}c", a = if let p = ev(0) { p } else { unreachable!() }, b = &&ev(1), c = [ev(2)][0]) }
        (112, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{:>3(faint,", ")o}{:0", "8.1E}{:+(fg=red)x}"), ev(0), if let p = ev(1) { p } else { unreachable!() }, &*ev(2)) }
        (112, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3(faint,)o}{:08.1E}{:+(fg=red)x}", ev(0), if let p = ev(1) { p } else { unreachable!() }, &*ev(2)) }
        (113, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:o}|{c:(faint,)}{1:(bg=default,bold)s}", ev(0).me(), std::convert::identity(ev(1)), c = match ev(2) { p => p }) }
        (113, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:o}|{c:(faint,)}{1:(bg=default,bold)s}", ev(0).me(), std::convert::identity(ev(1)), c = match ev(2) { p => p }) }
        (114, false) => { stylish::write!({ __dst(); &mut *__w }, "{{{0:b}\r{0:s}\r\n{0:(faint,)s}  ", &&ev(0)) }
        (114, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{{0:b}\r{0:s}\r\n{0:(faint,)s}  ", &&ev(0)) }
        (115, false) => { stylish::write!({ __dst(); &mut *__w }, "[{0:+E}$0{1:?}: {1:(fg=red)}#;{0:+(bg=default,bold)b}}}{0:(fg=red)s}{0:+(bg=default,bold)s}\0{1:(faint,)x?}{1:08.1(fg=red)s}%%{0:08.1(fg=red)s}\u{feff}{:>3(faint,)s}{2:#(bg=default,bold)?}{:>3s}{{}}{:+(bg=default,bold)x?}\t{2:08.1(bg=default,bold)X}é{2:>3(faint,)s}{2:(bg=default,bold)?}&amp;{1:(fg=red)s}{2:08.1x}\n\n{1:(faint,)s}", std::convert::identity(ev(0)), ev(1), (|| ev(2))()) }
        (115, true) => { stylish::writeln!({ __dst(); &mut *__w }, "[{0:+E}$0{1:?}: {1:(fg=red)}#;{0:+(bg=default,bold)b}}}{0:(fg=red)s}{0:+(bg=default,bold)s}\0{1:(faint,)x?}{1:08.1(fg=red)s}%%{0:08.1(fg=red)s}\u{feff}{:>3(faint,)s}{2:#(bg=default,bold)?}{:>3s}{{}}{:+(bg=default,bold)x?}\t{2:08.1(bg=default,bold)X}é{2:>3(faint,)s}{2:(bg=default,bold)?}&amp;{1:(fg=red)s}{2:08.1x}\n\n{1:(faint,)s}", std::convert::identity(ev(0)), ev(1), (|| ev(2))()) }
        (116, false) => { stylish::write!({ __dst(); &mut *__w }, "{{{:+(bg=default,bold)s}{:(bg=default,bold)s}{:08.1(fg=red)b}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me(), P { 0: ev(2).0 }) }
        (116, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{{:+(bg=default,bold)s}{:(bg=default,bold)s}{:08.1(fg=red)b}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me(), P { 0: ev(2).0 }) }
        (117, false) => { stylish::write!({ __dst(); &mut *__w }, "x{0:#?}é{c:08.1(faint,)X}\t{b:>3s}{c:>3X}{b:>3(bg=default,bold)?}]{d:s}'q'{d:08.1s}'q'", { ev(0) }, b = &&ev(1), c = [ev(2)][0], d = *ev(3)) }
        (117, true) => { stylish::writeln!({ __dst(); &mut *__w }, "x{0:#?}é{c:08.1(faint,)X}\t{b:>3s}{c:>3X}{b:>3(bg=default,bold)?}]{d:s}'q'{d:08.1s}'q'", { ev(0) }, b = &&ev(1), c = [ev(2)][0], d = *ev(3)) }
        (118, false) => { stylish::write!({ __dst(); &mut *__w }, "{{{:(fg=red)s}1:{1:08.1(fg=red)?}<!-- -->{0:X}\r\n{1:08.1b}{0:(fg=red)s}{1:s}　{1:(faint,)b}{:+(fg=red)s}m0;1{0:s}{1:s}é{2:+(fg=red)s}<b>{2:s}}}{2:08.1s}{}\r{2:(faint,)s}1:{2:08.1s}", ev(0), P { 0: ev(1).0 }, P(ev(2).0)) }
        (118, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{{:(fg=red)s}1:{1:08.1(fg=red)?}<!-- -->{0:X}\r\n{1:08.1b}{0:(fg=red)s}{1:s}　{1:(faint,)b}{:+(fg=red)s}m0;1{0:s}{1:s}é{2:+(fg=red)s}<b>{2:s}}}{2:08.1s}{}\r{2:(faint,)s}1:{2:08.1s}", ev(0), P { 0: ev(1).0 }, P(ev(2).0)) }
        (119, false) => { stylish::write!({ __dst(); &mut *__w }, "\n\n{:+E}\n\n{1:+(fg=red)s}{0:08.1e}{0:08.1(bg=default,bold)s}\\{:(bg=default,bold)s}{1:+(faint,)}  {0:08.1(faint,)}a{{b}}c{:#(bg=default,bold)?}{3:x?}{{{2:(faint,)E}1:{:(fg=red)b}$0{3:+X}\"", { let x = ev(0); x }, &&ev(1), (ev(2),).0, (ev(3))) }
        (119, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\n\n{:+E}\n\n{1:+(fg=red)s}{0:08.1e}{0:08.1(bg=default,bold)s}\\{:(bg=default,bold)s}{1:+(faint,)}  {0:08.1(faint,)}a{{b}}c{:#(bg=default,bold)?}{3:x?}{{{2:(faint,)E}1:{:(fg=red)b}$0{3:+X}\"", { let x = ev(0); x }, &&ev(1), (ev(2),).0, (ev(3))) }
        (120, false) => { stylish::write!({ __dst(); &mut *__w }, "%%{:s}{2:>3(bg=default,bold)X}{0:(faint,)s}\"{:s}[{:>3E}é{2:>3E}{{}}{3:(faint,)s}{2:+(faint,)E}{4:(fg=red)e}|{3:b}{:08.1s}'q'{3:08.1s}: {4:s}: {:08.1(fg=red)e}]{3:s}\n\n{4:>3}\\", ev(0).me(), loop { break ev(1) }, P { 0: ev(2).0 }, (ev(3)), (|| ev(4))()) }
        (120, true) => { stylish::writeln!({ __dst(); &mut *__w }, "%%{:s}{2:>3(bg=default,bold)X}{0:(faint,)s}\"{:s}[{:>3E}é{2:>3E}{{}}{3:(faint,)s}{2:+(faint,)E}{4:(fg=red)e}|{3:b}{:08.1s}'q'{3:08.1s}: {4:s}: {:08.1(fg=red)e}]{3:s}\n\n{4:>3}\\", ev(0).me(), loop { break ev(1) }, P { 0: ev(2).0 }, (ev(3)), (|| ev(4))()) }
        (121, false) => { stylish::write!({ __dst(); &mut *__w }, "{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0)) }
        (121, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0)) }
        (122, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:>3E}''{:(bg=default,bold)e}''{2:>3(bg=default,bold)s}m0;1{2:?}é{:?}é{2:>3(bg=default,bold)b}x{:(bg=default,bold)s}", &&ev(0), match ev(1) { p => p }, std::convert::identity(ev(2))) }
        (122, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:>3E}''{:(bg=default,bold)e}''{2:>3(bg=default,bold)s}m0;1{2:?}é{:?}é{2:>3(bg=default,bold)b}x{:(bg=default,bold)s}", &&ev(0), match ev(1) { p => p }, std::convert::identity(ev(2))) }
        (123, false) => { stylish::write!({ __dst(); &mut *__w }, "\"{b:+(faint,)e}{b:>3(bg=default,bold)o}x{a:#?}&amp;{a:>3(fg=red)s}{e:s} - {d:08.1s}[{c:#?}", a = (|| ev(0))(), b = std::convert::identity(ev(1)), c = match ev(2) { p => p }, d = ev(3), e = same!(ev(4))) }
        (123, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{b:+(faint,)e}{b:>3(bg=default,bold)o}x{a:#?}&amp;{a:>3(fg=red)s}{e:s} - {d:08.1s}[{c:#?}", a = (|| ev(0))(), b = std::convert::identity(ev(1)), c = match ev(2) { p => p }, d = ev(3), e = same!(ev(4))) }
        (124, false) => { stylish::write!({ __dst(); &mut *__w }, "&amp;{c:s}{1:s}{0:+s}{1:>3x}é{d:#(faint,)?}\\", &P(ev(0).0), &*ev(1), c = (|| ev(2))(), d = &&ev(3)) }
        (124, true) => { stylish::writeln!({ __dst(); &mut *__w }, "&amp;{c:s}{1:s}{0:+s}{1:>3x}é{d:#(faint,)?}\\", &P(ev(0).0), &*ev(1), c = (|| ev(2))(), d = &&ev(3)) }
        (125, false) => { stylish::write!({ __dst(); &mut *__w }, "#;{:s}{:+s}{2:+?}{2:+}\\{2:>3e}{:08.1e}{2:(bg=default,bold)?}x{3:x?}{:>3s}\n\n{3:(faint,)}é", { ev(0) }, &&ev(1), ev(2), ev(3)) }
        (125, true) => { stylish::writeln!({ __dst(); &mut *__w }, "#;{:s}{:+s}{2:+?}{2:+}\\{2:>3e}{:08.1e}{2:(bg=default,bold)?}x{3:x?}{:>3s}\n\n{3:(faint,)}é", { ev(0) }, &&ev(1), ev(2), ev(3)) }
        (126, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("[{:(fg=", "red", ")e}<!-- -->"), &&ev(0)) }
        (126, true) => { stylish::writeln!({ __dst(); &mut *__w }, "[{:(fg=red)e}<!-- -->", &&ev(0)) }
        (127, false) => { stylish::write!({ __dst(); &mut *__w }, "<!-- -->{:+(bg=default,bold)s}'q'{:(fg=red)b}　{1:+?}]", ev(0), P(ev(1).0)) }
        (127, true) => { stylish::writeln!({ __dst(); &mut *__w }, "<!-- -->{:+(bg=default,bold)s}'q'{:(fg=red)b}　{1:+?}]", ev(0), P(ev(1).0)) }
        (128, false) => { stylish::write!({ __dst(); &mut *__w }, "{}<!-- -->{3:08.1s}{3:08.1(faint,)s}{:s}{3:>3b}<!-- -->{2:08.1x}{{}}{:+s}'q'", std::convert::identity(ev(0)), &*ev(1), std::convert::identity(ev(2)), *ev(3)) }
        (128, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{}<!-- -->{3:08.1s}{3:08.1(faint,)s}{:s}{3:>3b}<!-- -->{2:08.1x}{{}}{:+s}'q'", std::convert::identity(ev(0)), &*ev(1), std::convert::identity(ev(2)), *ev(3)) }
        (129, false) => { stylish::write!({ __dst(); &mut *__w }, "\0{0:e}{0:>3s}}}{0:+s}{{}}{:>3(fg=red)b}", std::convert::identity(ev(0))) }
        (129, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\0{0:e}{0:>3s}}}{0:+s}{{}}{:>3(fg=red)b}", std::convert::identity(ev(0))) }
        (130, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) }) }
        (130, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) }) }
        (131, false) => { stylish::write!({ __dst(); &mut *__w }, "é{0:+(fg=red)o}{e:+(faint,)E}a{{b}}c{d:(bg=default,bold)s}{2:s}{1:+(fg=red)s}{0:+s}é", same!(ev(0)), (|| ev(1))(), &&ev(2), d = loop { break ev(3) }, e = { let x = ev(4); x }) }
        (131, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{0:+(fg=red)o}{e:+(faint,)E}a{{b}}c{d:(bg=default,bold)s}{2:s}{1:+(fg=red)s}{0:+s}é", same!(ev(0)), (|| ev(1))(), &&ev(2), d = loop { break ev(3) }, e = { let x = ev(4); x }) }
        (132, false) => { stylish::write!({ __dst(); &mut *__w }, "1:{1:+(faint,)x?}|{0:s}<b>{0:08.1(bg=default,bold)s}", Some(ev(0)).unwrap(), *ev(1)) }
        (132, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{1:+(faint,)x?}|{0:s}<b>{0:08.1(bg=default,bold)s}", Some(ev(0)).unwrap(), *ev(1)) }
        (133, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0)) }
        (133, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0)) }
        (134, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{0:08.1b}{:s}\t{0:08.1(faint,)x", "}lorem <i> & lo", "rem <i> & lorem <i> & lorem <i> & lorem <i> & "), Some(ev(0)).unwrap()) }
        (134, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:08.1b}{:s}\t{0:08.1(faint,)x}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & ", Some(ev(0)).unwrap()) }
        (135, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1)) }
        (135, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1)) }
        (136, false) => { stylish::write!({ __dst(); &mut *__w }, "#;{a:>3s}{a:(faint,)x} - {a:08.1(bg=default,bold)s}&amp;{a:08.1e}%%", a = &P(ev(0).0)) }
        (136, true) => { stylish::writeln!({ __dst(); &mut *__w }, "#;{a:>3s}{a:(faint,)x} - {a:08.1(bg=default,bold)s}&amp;{a:08.1e}%%", a = &P(ev(0).0)) }
        (137, false) => { stylish::write!({ __dst(); &mut *__w }, "é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x }) }
        (137, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x }) }
        (138, false) => { stylish::write!({ __dst(); &mut *__w }, "\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0)) }
        (138, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0)) }
        (139, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("'q'{1:+(faint,)s}{e:+b}", "{d:08.1x}　{2", ":?}{2:08.1(bg=default,bold)x}\r{0:s}"), (ev(0),).0, *ev(1), (|| ev(2))(), d = &&ev(3), e = { ev(4) }) }
        (139, true) => { stylish::writeln!({ __dst(); &mut *__w }, "'q'{1:+(faint,)s}{e:+b}{d:08.1x}　{2:?}{2:08.1(bg=default,bold)x}\r{0:s}", (ev(0),).0, *ev(1), (|| ev(2))(), d = &&ev(3), e = { ev(4) }) }
        (140, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() }) }
        (140, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() }) }
        (141, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{0:+(faint,)x}{0:08.1s}\u{feff}{0:e}]", std::convert::identity(ev(0))) }
        (141, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{0:+(faint,)x}{0:08.1s}\u{feff}{0:e}]", std::convert::identity(ev(0))) }
        (142, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3(faint,)s}{2:>3x}{:(bg=default,bold)E}&{2:08.1(faint,)}{:08.1(fg=red)?}{{{3:>3s}{{}}{3:x}m0;1{:(bg=default,bold)s}%%", ev(0).me(), { let x = ev(1); x }, (|| ev(2))(), ev(3) as &P) }
        (142, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3(faint,)s}{2:>3x}{:(bg=default,bold)E}&{2:08.1(faint,)}{:08.1(fg=red)?}{{{3:>3s}{{}}{3:x}m0;1{:(bg=default,bold)s}%%", ev(0).me(), { let x = ev(1); x }, (|| ev(2))(), ev(3) as &P) }
        (143, false) => { stylish::write!({ __dst(); &mut *__w }, "\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P) }
        (143, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P) }
        (144, false) => { stylish::write!({ __dst(); &mut *__w }, "é{:>3s}{:08.1E}{:08.1(faint,)x?}<!-- -->{1:#?}%%{1:+(bg=default,bold)s}m0;1{2:(fg=red)X}a{{b}}c{2:(fg=red)s}&amp;{:+(fg=red)s}{{}}{:(fg=red)?}", Some(ev(0)).unwrap(), P { 0: ev(1).0 }, same!(ev(2)), P { 0: ev(3).0 }, same!(ev(4))) }
        (144, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{:>3s}{:08.1E}{:08.1(faint,)x?}<!-- -->{1:#?}%%{1:+(bg=default,bold)s}m0;1{2:(fg=red)X}a{{b}}c{2:(fg=red)s}&amp;{:+(fg=red)s}{{}}{:(fg=red)?}", Some(ev(0)).unwrap(), P { 0: ev(1).0 }, same!(ev(2)), P { 0: ev(3).0 }, same!(ev(4))) }
        (145, false) => { stylish::write!({ __dst(); &mut *__w }, "{{{e:08.1x?}\\{1:(bg=default,bold)E}{2:s}|{3:+x?}m0;1{0:+(bg=default,bold)s}\u{feff}", &P(ev(0).0), (ev(1),).0, if let p = ev(2) { p } else { unreachable!() }, std::convert::identity(ev(3)), e = [ev(4)][0]) }
        (145, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{{e:08.1x?}\\{1:(bg=default,bold)E}{2:s}|{3:+x?}m0;1{0:+(bg=default,bold)s}\u{feff}", &P(ev(0).0), (ev(1),).0, if let p = ev(2) { p } else { unreachable!() }, std::convert::identity(ev(3)), e = [ev(4)][0]) }
        (146, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:>3(bg=default,bold)b}{0:>3s}&", P { 0: ev(0).0 }, Some(ev(1)).unwrap()) }
        (146, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:>3(bg=default,bold)b}{0:>3s}&", P { 0: ev(0).0 }, Some(ev(1)).unwrap()) }
        (147, false) => { stylish::write!({ __dst(); &mut *__w }, "#;{0:>3s}", P { 0: ev(0).0 }) }
        (147, true) => { stylish::writeln!({ __dst(); &mut *__w }, "#;{0:>3s}", P { 0: ev(0).0 }) }
        (148, false) => { stylish::write!({ __dst(); &mut *__w }, "{{}}{:(fg=red)s}{2:x?}{2:#(bg=default,bold)?}{:(faint,)s}&", &*ev(0), std::convert::identity(ev(1)), { ev(2) }) }
        (148, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{}}{:(fg=red)s}{2:x?}{2:#(bg=default,bold)?}{:(faint,)s}&", &*ev(0), std::convert::identity(ev(1)), { ev(2) }) }
        (149, false) => { stylish::write!({ __dst(); &mut *__w }, "\r{a:X}", a = { ev(0) }) }
        (149, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r{a:X}", a = { ev(0) }) }
        (150, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{:>3b}{0:(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", match ev(0) { p => p }) }
        (150, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{:>3b}{0:(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", match ev(0) { p => p }) }
        (151, false) => { stylish::write!({ __dst(); &mut *__w }, "{d:08.1x?}#;{2:s}{0:+(faint,)s}{1:+X}\\n{e:(bg=default,bold)s}#;{1:#(faint,)?}\n\n{d:+(bg=default,bold)s}01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", (ev(0)), { let x = ev(1); x }, *ev(2), d = (|| ev(3))(), e = Some(ev(4)).unwrap()) }
        (151, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{d:08.1x?}#;{2:s}{0:+(faint,)s}{1:+X}\\n{e:(bg=default,bold)s}#;{1:#(faint,)?}\n\n{d:+(bg=default,bold)s}01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", (ev(0)), { let x = ev(1); x }, *ev(2), d = (|| ev(3))(), e = Some(ev(4)).unwrap()) }
        (152, false) => { stylish::write!({ __dst(); &mut *__w }, "\t{:(faint,)o}\n\n{:s}'q'{2:08.1s}1:{:+(fg=red)s} - {:>3(bg=default,bold)s}%%", ev(0).me(), P(ev(1).0), ev(2), &*ev(3)) }
        (152, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{:(faint,)o}\n\n{:s}'q'{2:08.1s}1:{:+(fg=red)s} - {:>3(bg=default,bold)s}%%", ev(0).me(), P(ev(1).0), ev(2), &*ev(3)) }
        (153, false) => { stylish::write!({ __dst(); &mut *__w }, "\r\n{c:>3(faint,)s}'q'{b:>3(bg=default,bold)s}{d:s}]{a:+(bg=default,bold)s} - ", a = P(ev(0).0), b = [ev(1)][0], c = ev(2).me(), d = ev(3) as &P) }
        (153, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r\n{c:>3(faint,)s}'q'{b:>3(bg=default,bold)s}{d:s}]{a:+(bg=default,bold)s} - ", a = P(ev(0).0), b = [ev(1)][0], c = ev(2).me(), d = ev(3) as &P) }
        (154, false) => { stylish::write!({ __dst(); &mut *__w }, "{:(bg=default,bold)s}|{:(faint,)s}{:(bg=default,bold)x?}{{", same!(ev(0)), { ev(1) }, &*ev(2)) }
        (154, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:(bg=default,bold)s}|{:(faint,)s}{:(bg=default,bold)x?}{{", same!(ev(0)), { ev(1) }, &*ev(2)) }
        (155, false) => { stylish::write!({ __dst(); &mut *__w }, "|{0:#(bg=default,bold)?}[{:(faint,)s}", { let x = ev(0); x }) }
        (155, true) => { stylish::writeln!({ __dst(); &mut *__w }, "|{0:#(bg=default,bold)?}[{:(faint,)s}", { let x = ev(0); x }) }
        (156, false) => { stylish::write!({ __dst(); &mut *__w }, "[{c:(fg=red)E}é{b:>3(faint,)s}{d:+(fg=red)x?}%%{0:+}m0;1{e:08.1(faint,)s}", &*ev(0), b = P(ev(1).0), c = (ev(2),).0, d = &*ev(3), e = *ev(4)) }
        (156, true) => { stylish::writeln!({ __dst(); &mut *__w }, "[{c:(fg=red)E}é{b:>3(faint,)s}{d:+(fg=red)x?}%%{0:+}m0;1{e:08.1(faint,)s}", &*ev(0), b = P(ev(1).0), c = (ev(2),).0, d = &*ev(3), e = *ev(4)) }
        (157, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\t{:+", "(fa", "int,)s}"), ev(0).me()) }
        (157, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{:+(faint,)s}", ev(0).me()) }
        (158, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{1:08.1s}{:08.1(bg=default,bold)?}{0:#?}{:(fg=red)s}{0:s}{{{2:+(fg=red)s}{:08.1x}", &*ev(0), [ev(1)][0], &&ev(2)) }
        (158, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{1:08.1s}{:08.1(bg=default,bold)?}{0:#?}{:(fg=red)s}{0:s}{{{2:+(fg=red)s}{:08.1x}", &*ev(0), [ev(1)][0], &&ev(2)) }
        (159, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:+(faint,)s}}}{1:(faint,)}''{1:08.1(faint,)}\"{0:08.1(bg=default,bold)s}{:+(fg=red)s}{1:(fg=red)X}\"", *ev(0), loop { break ev(1) }) }
        (159, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+(faint,)s}}}{1:(faint,)}''{1:08.1(faint,)}\"{0:08.1(bg=default,bold)s}{:+(fg=red)s}{1:(fg=red)X}\"", *ev(0), loop { break ev(1) }) }
        (160, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("[{1:(bg=default,bold)s}\"{0:s", "}é{2:>3(faint", ",)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n"), *ev(0), &*ev(1), same!(ev(2)), *ev(3)) }
        (160, true) => { stylish::writeln!({ __dst(); &mut *__w }, "[{1:(bg=default,bold)s}\"{0:s}é{2:>3(faint,)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n", *ev(0), &*ev(1), same!(ev(2)), *ev(3)) }
        (161, false) => { stylish::write!({ __dst(); &mut *__w }, "é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:(faint,)s}{1:+(bg=default,bold)}é{:+X}\n\n{1:?}]{0:(bg=default,bold)s}", match ev(0) { p => p }, if let p = ev(1) { p } else { unreachable!() }) }
        (161, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:(faint,)s}{1:+(bg=default,bold)}é{:+X}\n\n{1:?}]{0:(bg=default,bold)s}", match ev(0) { p => p }, if let p = ev(1) { p } else { unreachable!() }) }
        (162, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{2:+(bg=default,bo", "ld)s}}}{1:", "s}{2:s}'q'{0:(fg=red)E}&amp;"), P(ev(0).0), Some(ev(1)).unwrap(), ev(2) as &P) }
        (162, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{2:+(bg=default,bold)s}}}{1:s}{2:s}'q'{0:(fg=red)E}&amp;", P(ev(0).0), Some(ev(1)).unwrap(), ev(2) as &P) }
        (163, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() }) }
        (163, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() }) }
        (164, false) => { stylish::write!({ __dst(); &mut *__w }, "''{0:08.1s}{1:e}{1:(faint,)s}é{1:s}{:#(faint,)?}{0:08.1s}{{", P { 0: ev(0).0 }, &&ev(1)) }
        (164, true) => { stylish::writeln!({ __dst(); &mut *__w }, "''{0:08.1s}{1:e}{1:(faint,)s}é{1:s}{:#(faint,)?}{0:08.1s}{{", P { 0: ev(0).0 }, &&ev(1)) }
        (165, false) => { stylish::write!({ __dst(); &mut *__w }, "[{3:+s}é{:+(fg=red)E}\u{feff}{3:+s}{:>3(fg=red)s}a{{b}}c{:(faint,)s}{3:(bg=default,bold)s}{2:08.1(bg=default,bold)}<b>{1:s}", loop { break ev(0) }, ev(1), [ev(2)][0], ev(3)) }
        (165, true) => { stylish::writeln!({ __dst(); &mut *__w }, "[{3:+s}é{:+(fg=red)E}\u{feff}{3:+s}{:>3(fg=red)s}a{{b}}c{:(faint,)s}{3:(bg=default,bold)s}{2:08.1(bg=default,bold)}<b>{1:s}", loop { break ev(0) }, ev(1), [ev(2)][0], ev(3)) }
        (166, false) => { stylish::write!({ __dst(); &mut *__w }, "{c:s}{b:+b}\u{feff}{a:s}", a = std::convert::identity(ev(0)), b = &&ev(1), c = (ev(2))) }
        (166, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{c:s}{b:+b}\u{feff}{a:s}", a = std::convert::identity(ev(0)), b = &&ev(1), c = (ev(2))) }
        (167, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{a:+(faint,)s}\n\n{b:08.1s}", "&amp;{c:+(bg=", "default,bold)e}{c:08.1o}{a:+(fg=red)s}]"), a = Some(ev(0)).unwrap(), b = match ev(1) { p => p }, c = Some(ev(2)).unwrap()) }
        (167, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{a:+(faint,)s}\n\n{b:08.1s}&amp;{c:+(bg=default,bold)e}{c:08.1o}{a:+(fg=red)s}]", a = Some(ev(0)).unwrap(), b = match ev(1) { p => p }, c = Some(ev(2)).unwrap()) }
        (168, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:+(fg=red)X}　{0:>3(bg=default,bold)s} - {0:(faint,)s}\n{:08.1(fg=red)s}{0:>3x}", loop { break ev(0) }) }
        (168, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+(fg=red)X}　{0:>3(bg=default,bold)s} - {0:(faint,)s}\n{:08.1(fg=red)s}{0:>3x}", loop { break ev(0) }) }
        (169, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{:08.1s}{{}}", P(ev(0).0)) }
        (169, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{:08.1s}{{}}", P(ev(0).0)) }
        (170, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("%%{0:+?}{0:s}{", "0:s}{:(", "fg=red)s}{0:(faint,)}"), P(ev(0).0)) }
        (170, true) => { stylish::writeln!({ __dst(); &mut *__w }, "%%{0:+?}{0:s}{0:s}{:(fg=red)s}{0:(faint,)}", P(ev(0).0)) }
        (171, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{:08.1(faint,)s}{1:+s}{1:s}{2:s}\\n{0:#(bg=default,bold)?}a{{b}}c{:>3e}&{0:b}{2:>3(faint,)E}é{1:x}{:08.1?}x{2:>3(bg=default,bold)E}é{3:08.1(fg=red)o}%%{3:(fg=red)s}\r{:>3s}{2:(fg=red)}{3:(fg=red)o}\u{feff}", { ev(0) }, P(ev(1).0), same!(ev(2)), same!(ev(3))) }
        (171, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{:08.1(faint,)s}{1:+s}{1:s}{2:s}\\n{0:#(bg=default,bold)?}a{{b}}c{:>3e}&{0:b}{2:>3(faint,)E}é{1:x}{:08.1?}x{2:>3(bg=default,bold)E}é{3:08.1(fg=red)o}%%{3:(fg=red)s}\r{:>3s}{2:(fg=red)}{3:(fg=red)o}\u{feff}", { ev(0) }, P(ev(1).0), same!(ev(2)), same!(ev(3))) }
        (172, false) => { stylish::write!({ __dst(); &mut *__w }, "x{:>3(faint,)s}{3:#(faint,)?}{3:s}{:>3(fg=red)s}\\n{3:(bg=default,bold)s}é{2:+(bg=default,bold)}{:(faint,)x?}}}", { let x = ev(0); x }, &P(ev(1).0), { let x = ev(2); x }, P { 0: ev(3).0 }) }
        (172, true) => { stylish::writeln!({ __dst(); &mut *__w }, "x{:>3(faint,)s}{3:#(faint,)?}{3:s}{:>3(fg=red)s}\\n{3:(bg=default,bold)s}é{2:+(bg=default,bold)}{:(faint,)x?}}}", { let x = ev(0); x }, &P(ev(1).0), { let x = ev(2); x }, P { 0: ev(3).0 }) }
        (173, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{:+x}", ev(0)) }
        (173, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{:+x}", ev(0)) }
        (174, false) => { stylish::write!({ __dst(); &mut *__w }, "'q'{1:+x?}%%{:(fg=red)?}'q'{1:o}{:+X}{1:>3(faint,)s}{1:x?}", ev(0).me(), loop { break ev(1) }) }
        (174, true) => { stylish::writeln!({ __dst(); &mut *__w }, "'q'{1:+x?}%%{:(fg=red)?}'q'{1:o}{:+X}{1:>3(faint,)s}{1:x?}", ev(0).me(), loop { break ev(1) }) }
        (175, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:+(bg=default,bold)x}\n{0:s}&amp;{:+x?}[", &P(ev(0).0)) }
        (175, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+(bg=default,bold)x}\n{0:s}&amp;{:+x?}[", &P(ev(0).0)) }
        (176, false) => { stylish::write!({ __dst(); &mut *__w }, "\\{:>3(fg=red)s}: {3:08.1(bg=default,bold)x}\\{0:08.1(fg=red)E}{1:>3(fg=red)s}{1:08.1s}\"{:08.1(bg=default,bold)s}: {:>3E}{:08.1s}", { ev(0) }, ev(1), ev(2) as &P, { let x = ev(3); x }) }
        (176, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\{:>3(fg=red)s}: {3:08.1(bg=default,bold)x}\\{0:08.1(fg=red)E}{1:>3(fg=red)s}{1:08.1s}\"{:08.1(bg=default,bold)s}: {:>3E}{:08.1s}", { ev(0) }, ev(1), ev(2) as &P, { let x = ev(3); x }) }
        (177, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("1:{:>3E", "}{:", "(fg=red)s}\u{feff}"), match ev(0) { p => p }, ev(1)) }
        (177, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{:>3E}{:(fg=red)s}\u{feff}", match ev(0) { p => p }, ev(1)) }
        (178, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:#?}{:(faint,)s}", loop { break ev(0) }) }
        (178, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:#?}{:(faint,)s}", loop { break ev(0) }) }
        (179, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap()) }
        (179, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap()) }
        (180, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:s}\n{:(bg=default,bold)E}", ev(0) as &P) }
        (180, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:s}\n{:(bg=default,bold)E}", ev(0) as &P) }
        (181, false) => { stylish::write!({ __dst(); &mut *__w }, "%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0)) }
        (181, true) => { stylish::writeln!({ __dst(); &mut *__w }, "%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0)) }
        (182, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\u{feff}{a:08.1(fg", "=red)s", "}\\{a:#?}]{a:08.1s}"), a = std::convert::identity(ev(0))) }
        (182, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{a:08.1(fg=red)s}\\{a:#?}]{a:08.1s}", a = std::convert::identity(ev(0))) }
        (183, false) => { stylish::write!({ __dst(); &mut *__w }, "\0{:>3(fg=red)s}{0:08.1(faint,)s}", ev(0).me()) }
        (183, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\0{:>3(fg=red)s}{0:08.1(faint,)s}", ev(0).me()) }
        (184, false) => { stylish::write!({ __dst(); &mut *__w }, "{a:>3(faint,)x}{a:s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {b:+o}", a = { ev(0) }, b = P { 0: ev(1).0 }) }
        (184, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{a:>3(faint,)x}{a:s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {b:+o}", a = { ev(0) }, b = P { 0: ev(1).0 }) }
        (185, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0]) }
        (185, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0]) }
        (186, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\"{1:+(bg=default,bold)s}%%{0:0", "8.1s}\r\n{2:>3(bg", "=default,bold)s}{0:s}<b>{2:(bg=default,bold)s}"), std::convert::identity(ev(0)), match ev(1) { p => p }, std::convert::identity(ev(2))) }
        (186, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{1:+(bg=default,bold)s}%%{0:08.1s}\r\n{2:>3(bg=default,bold)s}{0:s}<b>{2:(bg=default,bold)s}", std::convert::identity(ev(0)), match ev(1) { p => p }, std::convert::identity(ev(2))) }
        (187, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{0:#(faint,)?}1:{0:08.1x}{0:s}\0", *ev(0)) }
        (187, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{0:#(faint,)?}1:{0:08.1x}{0:s}\0", *ev(0)) }
        (188, false) => { stylish::write!({ __dst(); &mut *__w }, "{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))()) }
        (188, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))()) }
        (189, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("a{{b}}c{1:e}{0:08.", "1E}{1:+E}{", "1:08.1(fg=red)e}{0:s}a{{b}}c"), match ev(0) { p => p }, (|| ev(1))()) }
        (189, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{1:e}{0:08.1E}{1:+E}{1:08.1(fg=red)e}{0:s}a{{b}}c", match ev(0) { p => p }, (|| ev(1))()) }
        (190, false) => { stylish::write!({ __dst(); &mut *__w }, concat!(": {0:(faint,)b}{", "0:X}  {0", ":(fg=red)s}{1:(faint,)x?}"), (ev(0)), if let p = ev(1) { p } else { unreachable!() }) }
        (190, true) => { stylish::writeln!({ __dst(); &mut *__w }, ": {0:(faint,)b}{0:X}  {0:(fg=red)s}{1:(faint,)x?}", (ev(0)), if let p = ev(1) { p } else { unreachable!() }) }
        (191, false) => { stylish::write!({ __dst(); &mut *__w }, "1:{0:08.1s}\0{:(bg=default,bold)s}&{0:b}{0:>3(fg=red)x?}", loop { break ev(0) }) }
        (191, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{0:08.1s}\0{:(bg=default,bold)s}&{0:b}{0:>3(fg=red)x?}", loop { break ev(0) }) }
        (192, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:(fg=red)s}{:#(faint,)?}{0:08.1s}{1:#(bg=default,bold)?}{:o}: ", P { 0: ev(0).0 }, P(ev(1).0)) }
        (192, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:(fg=red)s}{:#(faint,)?}{0:08.1s}{1:#(bg=default,bold)?}{:o}: ", P { 0: ev(0).0 }, P(ev(1).0)) }
        (193, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:08.1(bg=default,bold)s}{{}}{c:>3(faint,)X}: {c:s}#;{c:>3}{{{b:08.1(faint,)s}\0{d:+(bg=default,bold)s}\t", P(ev(0).0), b = ev(1), c = Some(ev(2)).unwrap(), d = ev(3) as &P) }
        (193, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:08.1(bg=default,bold)s}{{}}{c:>3(faint,)X}: {c:s}#;{c:>3}{{{b:08.1(faint,)s}\0{d:+(bg=default,bold)s}\t", P(ev(0).0), b = ev(1), c = Some(ev(2)).unwrap(), d = ev(3) as &P) }
        (194, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{d:08.1s}m0;1{c:>3(fg=red)s}{a:s}{a:#(bg=default,bold)?}\n{a:s}{b:08.1s}\\{d:>3(fg=red)s}<b>", a = (ev(0),).0, b = (|| ev(1))(), c = &&ev(2), d = loop { break ev(3) }) }
        (194, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{d:08.1s}m0;1{c:>3(fg=red)s}{a:s}{a:#(bg=default,bold)?}\n{a:s}{b:08.1s}\\{d:>3(fg=red)s}<b>", a = (ev(0),).0, b = (|| ev(1))(), c = &&ev(2), d = loop { break ev(3) }) }
        (195, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3s}\0{:+e}1:{0:}\t", *ev(0), ev(1) as &P) }
        (195, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3s}\0{:+e}1:{0:}\t", *ev(0), ev(1) as &P) }
        (196, false) => { stylish::write!({ __dst(); &mut *__w }, concat!(" - {:+s}x{:+(faint", ",)E}{:+X}$", "0{:08.1(bg=default,bold)e}$0"), match ev(0) { p => p }, { ev(1) }, (|| ev(2))(), (|| ev(3))()) }
        (196, true) => { stylish::writeln!({ __dst(); &mut *__w }, " - {:+s}x{:+(faint,)E}{:+X}$0{:08.1(bg=default,bold)e}$0", match ev(0) { p => p }, { ev(1) }, (|| ev(2))(), (|| ev(3))()) }
        (197, false) => { stylish::write!({ __dst(); &mut *__w }, "]{0:08.1(fg=red)s}1:{1:+(bg=default,bold)s}{0:s}{{}}{1:>3s}\\{1:>3(fg=red)}", *ev(0), &P(ev(1).0)) }
        (197, true) => { stylish::writeln!({ __dst(); &mut *__w }, "]{0:08.1(fg=red)s}1:{1:+(bg=default,bold)s}{0:s}{{}}{1:>3s}\\{1:>3(fg=red)}", *ev(0), &P(ev(1).0)) }
        (198, false) => { stylish::write!({ __dst(); &mut *__w }, "{:08.1(fg=red)s}{:(faint,)x}{:>3(faint,)o}%%{2:s}<!-- -->{3:(faint,)?}]", *ev(0), *ev(1), P(ev(2).0), if let p = ev(3) { p } else { unreachable!() }) }
        (198, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1(fg=red)s}{:(faint,)x}{:>3(faint,)o}%%{2:s}<!-- -->{3:(faint,)?}]", *ev(0), *ev(1), P(ev(2).0), if let p = ev(3) { p } else { unreachable!() }) }
        (199, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3)) }
        (199, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3)) }
        (200, false) => { stylish::write!({ __dst(); &mut *__w }, "]{2:>3(faint,)x?}{4:>3s}[{1:+o}é{0:08.1s}<!-- -->{3:08.1(faint,)x?}", &P(ev(0).0), if let p = ev(1) { p } else { unreachable!() }, (ev(2)), &*ev(3), match ev(4) { p => p }) }
        (200, true) => { stylish::writeln!({ __dst(); &mut *__w }, "]{2:>3(faint,)x?}{4:>3s}[{1:+o}é{0:08.1s}<!-- -->{3:08.1(faint,)x?}", &P(ev(0).0), if let p = ev(1) { p } else { unreachable!() }, (ev(2)), &*ev(3), match ev(4) { p => p }) }
        (201, false) => { stylish::write!({ __dst(); &mut *__w }, "\r\n{c:#(bg=default,bold)?}{c:(fg=red)x}{b:#?}\\{a:+s}{{}}{c:08.1b} - ", a = if let p = ev(0) { p } else { unreachable!() }, b = (ev(1)), c = loop { break ev(2) }) }
        (201, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r\n{c:#(bg=default,bold)?}{c:(fg=red)x}{b:#?}\\{a:+s}{{}}{c:08.1b} - ", a = if let p = ev(0) { p } else { unreachable!() }, b = (ev(1)), c = loop { break ev(2) }) }
        (202, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:s}\\{0:>3s}\"{2:(faint,)x}x{e:+(faint,)x?}{d:s}a{{b}}c{e:+(faint,)?}{1:(fg=red)s}", ev(0), loop { break ev(1) }, loop { break ev(2) }, d = ev(3) as &P, e = ev(4) as &P) }
        (202, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:s}\\{0:>3s}\"{2:(faint,)x}x{e:+(faint,)x?}{d:s}a{{b}}c{e:+(faint,)?}{1:(fg=red)s}", ev(0), loop { break ev(1) }, loop { break ev(2) }, d = ev(3) as &P, e = ev(4) as &P) }
        (203, false) => { stylish::write!({ __dst(); &mut *__w }, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:s}{{}}{0:>3(bg=default,bold)X}m0;1{0:08.1(bg=default,bold)X}\n{:08.1(faint,)s}", ev(0)) }
        (203, true) => { stylish::writeln!({ __dst(); &mut *__w }, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:s}{{}}{0:>3(bg=default,bold)X}m0;1{0:08.1(bg=default,bold)X}\n{:08.1(faint,)s}", ev(0)) }
        (204, false) => { stylish::write!({ __dst(); &mut *__w }, "''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0))) }
        (204, true) => { stylish::writeln!({ __dst(); &mut *__w }, "''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0))) }
        (205, false) => { stylish::write!({ __dst(); &mut *__w }, "\r\n{:08.1E}\u{feff}{:+?}{:(fg=red)s}\r\n{:s}#;", (ev(0),).0, std::convert::identity(ev(1)), (|| ev(2))(), &P(ev(3).0)) }
        (205, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r\n{:08.1E}\u{feff}{:+?}{:(fg=red)s}\r\n{:s}#;", (ev(0),).0, std::convert::identity(ev(1)), (|| ev(2))(), &P(ev(3).0)) }
        (206, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:+x}&{c:+(fg=red)b}{e:>3b}#;{0:>3(fg=red)s}{1:+(fg=red)o}\t{0:+}}}{d:08.1(bg=default,bold)?}", match ev(0) { p => p }, (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }, d = &*ev(3), e = ev(4)) }
        (206, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+x}&{c:+(fg=red)b}{e:>3b}#;{0:>3(fg=red)s}{1:+(fg=red)o}\t{0:+}}}{d:08.1(bg=default,bold)?}", match ev(0) { p => p }, (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }, d = &*ev(3), e = ev(4)) }
        (207, false) => { stylish::write!({ __dst(); &mut *__w }, "\"{:+(fg=red)e}{:08.1(faint,)s}{:+(faint,)s}", P { 0: ev(0).0 }, *ev(1), &&ev(2)) }
        (207, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{:+(fg=red)e}{:08.1(faint,)s}{:+(faint,)s}", P { 0: ev(0).0 }, *ev(1), &&ev(2)) }
        (208, false) => { stylish::write!({ __dst(); &mut *__w }, "''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) }) }
        (208, true) => { stylish::writeln!({ __dst(); &mut *__w }, "''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) }) }
        (209, false) => { stylish::write!({ __dst(); &mut *__w }, "{:+x?}$0{0:>3b}%%{0:>3}{1:b}é{:>3(fg=red)s}{:08.1(faint,)s}{2:#(bg=default,bold)?}{3:(bg=default,bold)?}\"{2:#(bg=default,bold)?}\n\n{:08.1(faint,)?}\r\n{3:>3x}{3:(faint,)s}\n", Some(ev(0)).unwrap(), [ev(1)][0], (|| ev(2))(), Some(ev(3)).unwrap()) }
        (209, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:+x?}$0{0:>3b}%%{0:>3}{1:b}é{:>3(fg=red)s}{:08.1(faint,)s}{2:#(bg=default,bold)?}{3:(bg=default,bold)?}\"{2:#(bg=default,bold)?}\n\n{:08.1(faint,)?}\r\n{3:>3x}{3:(faint,)s}\n", Some(ev(0)).unwrap(), [ev(1)][0], (|| ev(2))(), Some(ev(3)).unwrap()) }
        (210, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("x{", ":", ">3X}"), P(ev(0).0)) }
        (210, true) => { stylish::writeln!({ __dst(); &mut *__w }, "x{:>3X}", P(ev(0).0)) }
        (211, false) => { stylish::write!({ __dst(); &mut *__w }, "\n\n{:s}\u{feff}{2:(faint,)s}{3:>3(bg=default,bold)X}{2:08.1(faint,)s}[{1:>3(bg=default,bold)o}", &*ev(0), &*ev(1), P { 0: ev(2).0 }, if let p = ev(3) { p } else { unreachable!() }) }
        (211, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\n\n{:s}\u{feff}{2:(faint,)s}{3:>3(bg=default,bold)X}{2:08.1(faint,)s}[{1:>3(bg=default,bold)o}", &*ev(0), &*ev(1), P { 0: ev(2).0 }, if let p = ev(3) { p } else { unreachable!() }) }
        (212, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:(fg=red)X}\t{:(bg=default,bold)}#;{:08.1(bg=default,bold)}{2:+}%%{1:>3s}m0;1{2:+(bg=default,bold)b}<b>{1:08.1(bg=default,bold)x?}: {1:(bg=default,bold)o}]{2:(fg=red)?}%%{:+?}\n{1:(fg=red)s}{3:?}\\n{:+(bg=default,bold)E}{3:(fg=red)s}{2:E}a{{b}}c", ev(0), { ev(1) }, &&ev(2), (ev(3))) }
        (212, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:(fg=red)X}\t{:(bg=default,bold)}#;{:08.1(bg=default,bold)}{2:+}%%{1:>3s}m0;1{2:+(bg=default,bold)b}<b>{1:08.1(bg=default,bold)x?}: {1:(bg=default,bold)o}]{2:(fg=red)?}%%{:+?}\n{1:(fg=red)s}{3:?}\\n{:+(bg=default,bold)E}{3:(fg=red)s}{2:E}a{{b}}c", ev(0), { ev(1) }, &&ev(2), (ev(3))) }
        (213, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:s}{1:>3(faint,)b}1:{c:X}|{0:>3x?}", [ev(0)][0], { ev(1) }, c = if let p = ev(2) { p } else { unreachable!() }) }
        (213, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:s}{1:>3(faint,)b}1:{c:X}|{0:>3x?}", [ev(0)][0], { ev(1) }, c = if let p = ev(2) { p } else { unreachable!() }) }
        (214, false) => { stylish::write!({ __dst(); &mut *__w }, "1:{b:(fg=red)s}]{0:#(bg=default,bold)?}{0:+s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:e}: ", if let p = ev(0) { p } else { unreachable!() }, b = same!(ev(1))) }
        (214, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{b:(fg=red)s}]{0:#(bg=default,bold)?}{0:+s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:e}: ", if let p = ev(0) { p } else { unreachable!() }, b = same!(ev(1))) }
        (215, false) => { stylish::write!({ __dst(); &mut *__w }, "{:08.1(faint,)X}{:>3s}]{:(fg=red)s}[", P(ev(0).0), [ev(1)][0], ev(2) as &P) }
        (215, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1(faint,)X}{:>3s}]{:(fg=red)s}[", P(ev(0).0), [ev(1)][0], ev(2) as &P) }
        (216, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\r\n{0:>3(faint,)b}{{}}{1:>", "3(faint,)s}{1", ":>3(bg=default,bold)s}{2:08.1(fg=red)b}"), ev(0).me(), match ev(1) { p => p }, P { 0: ev(2).0 }) }
        (216, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r\n{0:>3(faint,)b}{{}}{1:>3(faint,)s}{1:>3(bg=default,bold)s}{2:08.1(fg=red)b}", ev(0).me(), match ev(1) { p => p }, P { 0: ev(2).0 }) }
        (217, false) => { stylish::write!({ __dst(); &mut *__w }, "\r\n{a:#(faint,)?}]{a:>3x}  {a:(fg=red)s}{{{a:s}|", a = P { 0: ev(0).0 }) }
        (217, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r\n{a:#(faint,)?}]{a:>3x}  {a:(fg=red)s}{{{a:s}|", a = P { 0: ev(0).0 }) }
        (218, false) => { stylish::write!({ __dst(); &mut *__w }, "<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1)) }
        (218, true) => { stylish::writeln!({ __dst(); &mut *__w }, "<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1)) }
        (219, false) => { stylish::write!({ __dst(); &mut *__w }, "{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1))) }
        (219, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1))) }
        (220, false) => { stylish::write!({ __dst(); &mut *__w }, "}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me()) }
        (220, true) => { stylish::writeln!({ __dst(); &mut *__w }, "}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me()) }
        (221, false) => { stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{0:(faint,)s}%%{:(bg=default,bold)}{1:(fg=red)s}{1:+(faint,)s}&amp;{:08.1(faint,)b} - ", Some(ev(0)).unwrap(), ev(1)) }
        (221, true) => { stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{0:(faint,)s}%%{:(bg=default,bold)}{1:(fg=red)s}{1:+(faint,)s}&amp;{:08.1(faint,)b} - ", Some(ev(0)).unwrap(), ev(1)) }
        (222, false) => { stylish::write!({ __dst(); &mut *__w }, "1:{:(bg=default,bold)s}{:s}x{:(faint,)e}<b>{:(faint,)}{:>3(faint,)x}m0;1", { let x = ev(0); x }, &*ev(1), *ev(2), P { 0: ev(3).0 }, ev(4) as &P) }
        (222, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{:(bg=default,bold)s}{:s}x{:(faint,)e}<b>{:(faint,)}{:>3(faint,)x}m0;1", { let x = ev(0); x }, &*ev(1), *ev(2), P { 0: ev(3).0 }, ev(4) as &P) }
        (223, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:+(faint,)s} - {0:>3s}<b>{0:X}a{{b}}c", &P(ev(0).0)) }
        (223, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:+(faint,)s} - {0:>3s}<b>{0:X}a{{b}}c", &P(ev(0).0)) }
        (224, false) => { stylish::write!({ __dst(); &mut *__w }, "%%{a:+s}{a:+(faint,)?}<b>", a = ev(0)) }
        (224, true) => { stylish::writeln!({ __dst(); &mut *__w }, "%%{a:+s}{a:+(faint,)?}<b>", a = ev(0)) }
        (225, false) => { stylish::write!({ __dst(); &mut *__w }, "{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))()) }
        (225, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))()) }
        (226, false) => { stylish::write!({ __dst(); &mut *__w }, "\t{a:08.1(fg=red)}\u{feff}{a:(bg=default,bold)o}{a:x}", a = same!(ev(0))) }
        (226, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{a:08.1(fg=red)}\u{feff}{a:(bg=default,bold)o}{a:x}", a = same!(ev(0))) }
        (227, false) => { stylish::write!({ __dst(); &mut *__w }, "{a:+(faint,)}{b:#(fg=red)?}{c:08.1(fg=red)s}", a = match ev(0) { p => p }, b = (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }) }
        (227, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{a:+(faint,)}{b:#(fg=red)?}{c:08.1(fg=red)s}", a = match ev(0) { p => p }, b = (|| ev(1))(), c = if let p = ev(2) { p } else { unreachable!() }) }
        (228, false) => { stylish::write!({ __dst(); &mut *__w }, "{:s}é{:(bg=default,bold)s}&{:>3s}|{:08.1(bg=default,bold)E}{{}}{:08.1(faint,)b}&", *ev(0), P { 0: ev(1).0 }, match ev(2) { p => p }, &&ev(3), if let p = ev(4) { p } else { unreachable!() }) }
        (228, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:s}é{:(bg=default,bold)s}&{:>3s}|{:08.1(bg=default,bold)E}{{}}{:08.1(faint,)b}&", *ev(0), P { 0: ev(1).0 }, match ev(2) { p => p }, &&ev(3), if let p = ev(4) { p } else { unreachable!() }) }
        (229, false) => { stylish::write!({ __dst(); &mut *__w }, "\"{1:>3s}é{0:>3(faint,)o}\"{3:>3(bg=default,bold)x}{2:b}\r{4:(faint,)s}\t", same!(ev(0)), (ev(1)), [ev(2)][0], { ev(3) }, (|| ev(4))()) }
        (229, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{1:>3s}é{0:>3(faint,)o}\"{3:>3(bg=default,bold)x}{2:b}\r{4:(faint,)s}\t", same!(ev(0)), (ev(1)), [ev(2)][0], { ev(3) }, (|| ev(4))()) }
        (230, false) => { stylish::write!({ __dst(); &mut *__w }, "{10:s}\\{0:+(bg=default,bold)s}#;{12:+(bg=default,bold)s}{9:#?}\\{6:E}{{{2:(fg=red)}\r{1:+s}\n\n{5:>3(bg=default,bold)s}{7:+(bg=default,bold)x?}{3:08.1s}{11:+(faint,)s}{8:(bg=default,bold)e}#;{4:(fg=red)?}  ", &*ev(0), (ev(1),).0, loop { break ev(2) }, (|| ev(3))(), (ev(4)), std::convert::identity(ev(5)), (ev(6),).0, std::convert::identity(ev(7)), ev(8), &P(ev(9).0), (ev(10)), &&ev(11), &*ev(12)) }
        (230, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{10:s}\\{0:+(bg=default,bold)s}#;{12:+(bg=default,bold)s}{9:#?}\\{6:E}{{{2:(fg=red)}\r{1:+s}\n\n{5:>3(bg=default,bold)s}{7:+(bg=default,bold)x?}{3:08.1s}{11:+(faint,)s}{8:(bg=default,bold)e}#;{4:(fg=red)?}  ", &*ev(0), (ev(1),).0, loop { break ev(2) }, (|| ev(3))(), (ev(4)), std::convert::identity(ev(5)), (ev(6),).0, std::convert::identity(ev(7)), ev(8), &P(ev(9).0), (ev(10)), &&ev(11), &*ev(12)) }
        (231, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("1:{:+(faint,)s} - {9:>3s}{1:+x}{2:s}1:{5:(fg=red)x}{2:(fg=red)E}}}{5:#?}]{8:#?}{3:(bg=default,bold", ")x}lorem <i> & lorem <i> & lorem <i> & lorem <i> ", "& lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>3(bg=default,bold)s}<b>{7:08.1(fg=red)s}]{6:+s}\u{feff}{4:08.1e}"), loop { break ev(0) }, same!(ev(1)), (|| ev(2))(), P(ev(3).0), (ev(4),).0, P(ev(5).0), &*ev(6), same!(ev(7)), loop { break ev(8) }, ev(9)) }
        (231, true) => { stylish::writeln!({ __dst(); &mut *__w }, "1:{:+(faint,)s} - {9:>3s}{1:+x}{2:s}1:{5:(fg=red)x}{2:(fg=red)E}}}{5:#?}]{8:#?}{3:(bg=default,bold)x}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>3(bg=default,bold)s}<b>{7:08.1(fg=red)s}]{6:+s}\u{feff}{4:08.1e}", loop { break ev(0) }, same!(ev(1)), (|| ev(2))(), P(ev(3).0), (ev(4),).0, P(ev(5).0), &*ev(6), same!(ev(7)), loop { break ev(8) }, ev(9)) }
        (232, false) => { stylish::write!({ __dst(); &mut *__w }, "&amp;{:(fg=red)s}{:08.1X}{:(bg=default,bold)s}1:{:(fg=red)s}$0{:+s}$0{:08.1s}{:08.1(faint,)s}{:(fg=red)s}\0{:(bg=default,bold)s}''{:08.1x?}{:e}{:+s}: {:08.1s}{:08.1(faint,)s}\r{:08.1(faint,)s}]{:s}{:e}{{{:08.1(fg=red)s}\\", { let x = ev(0); x }, (ev(1)), ev(2).me(), { ev(3) }, [ev(4)][0], (|| ev(5))(), *ev(6), same!(ev(7)), (|| ev(8))(), P(ev(9).0), (ev(10)), (|| ev(11))(), *ev(12), (ev(13)), ev(14) as &P, ev(15).me(), { ev(16) }, { ev(17) }) }
        (232, true) => { stylish::writeln!({ __dst(); &mut *__w }, "&amp;{:(fg=red)s}{:08.1X}{:(bg=default,bold)s}1:{:(fg=red)s}$0{:+s}$0{:08.1s}{:08.1(faint,)s}{:(fg=red)s}\0{:(bg=default,bold)s}''{:08.1x?}{:e}{:+s}: {:08.1s}{:08.1(faint,)s}\r{:08.1(faint,)s}]{:s}{:e}{{{:08.1(fg=red)s}\\", { let x = ev(0); x }, (ev(1)), ev(2).me(), { ev(3) }, [ev(4)][0], (|| ev(5))(), *ev(6), same!(ev(7)), (|| ev(8))(), P(ev(9).0), (ev(10)), (|| ev(11))(), *ev(12), (ev(13)), ev(14) as &P, ev(15).me(), { ev(16) }, { ev(17) }) }
        (233, false) => { stylish::write!({ __dst(); &mut *__w }, "{_f:(bg=default,bold)x}{e:+(faint,)s}}}{c:08.1(fg=red)o}　{é:+x?}{width:+(fg=red)s}\t{b:(bg=default,bold)s}<b>{x:+(bg=default,bold)b}#;{s:>3o}x{p:>3(faint,)o}\n{fg:+(bg=default,bold)s}a{{b}}c{a:>3(faint,)s}\u{feff}{x1:(faint,)s}\\{d:>3(faint,)E}{bold:+s}[{n8:(fg=red)s}{d:08.1(bg=default,bold)s}", a = same!(ev(0)), b = *ev(1), c = ev(2).me(), d = (ev(3)), e = same!(ev(4)), _f = same!(ev(5)), width = if let p = ev(6) { p } else { unreachable!() }, x1 = ev(7), n8 = ev(8), é = [ev(9)][0], fg = (|| ev(10))(), bold = Some(ev(11)).unwrap(), s = *ev(12), x = ev(13), p = std::convert::identity(ev(14))) }
        (233, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{_f:(bg=default,bold)x}{e:+(faint,)s}}}{c:08.1(fg=red)o}　{é:+x?}{width:+(fg=red)s}\t{b:(bg=default,bold)s}<b>{x:+(bg=default,bold)b}#;{s:>3o}x{p:>3(faint,)o}\n{fg:+(bg=default,bold)s}a{{b}}c{a:>3(faint,)s}\u{feff}{x1:(faint,)s}\\{d:>3(faint,)E}{bold:+s}[{n8:(fg=red)s}{d:08.1(bg=default,bold)s}", a = same!(ev(0)), b = *ev(1), c = ev(2).me(), d = (ev(3)), e = same!(ev(4)), _f = same!(ev(5)), width = if let p = ev(6) { p } else { unreachable!() }, x1 = ev(7), n8 = ev(8), é = [ev(9)][0], fg = (|| ev(10))(), bold = Some(ev(11)).unwrap(), s = *ev(12), x = ev(13), p = std::convert::identity(ev(14))) }
        (234, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{:(faint,)X} - {:>3E}<b>{:+E}#;{:>3(faint,)s}: {:", "#(faint,)?}{:s}{:08.1(fa", "int,)e}{:>3o}{:08.1x?}{:(bg=default,bold)s}\0{:>3e}{}{:s}\\n{:08.1(faint,)s}"), (ev(0),).0, std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3), loop { break ev(4) }, *ev(5), P(ev(6).0), (ev(7),).0, &P(ev(8).0), P(ev(9).0), if let p = ev(10) { p } else { unreachable!() }, (ev(11),).0, Some(ev(12)).unwrap(), (ev(13),).0) }
        (234, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:(faint,)X} - {:>3E}<b>{:+E}#;{:>3(faint,)s}: {:#(faint,)?}{:s}{:08.1(faint,)e}{:>3o}{:08.1x?}{:(bg=default,bold)s}\0{:>3e}{}{:s}\\n{:08.1(faint,)s}", (ev(0),).0, std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3), loop { break ev(4) }, *ev(5), P(ev(6).0), (ev(7),).0, &P(ev(8).0), P(ev(9).0), if let p = ev(10) { p } else { unreachable!() }, (ev(11),).0, Some(ev(12)).unwrap(), (ev(13),).0) }
        (235, false) => { stylish::write!({ __dst(); &mut *__w }, "{d:+x}{e:08.1(bg=default,bold)s}{c:>3(fg=red)s}{b:>3(bg=default,bold)s}\n{0:#?}\\{_f:>3(bg=default,bold)s}]{width:(bg=default,bold)?} - ", { let x = ev(0); x }, b = (ev(1),).0, c = { ev(2) }, d = &P(ev(3).0), e = &&ev(4), _f = (|| ev(5))(), width = (ev(6),).0) }
        (235, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{d:+x}{e:08.1(bg=default,bold)s}{c:>3(fg=red)s}{b:>3(bg=default,bold)s}\n{0:#?}\\{_f:>3(bg=default,bold)s}]{width:(bg=default,bold)?} - ", { let x = ev(0); x }, b = (ev(1),).0, c = { ev(2) }, d = &P(ev(3).0), e = &&ev(4), _f = (|| ev(5))(), width = (ev(6),).0) }
        (236, false) => { stylish::write!({ __dst(); &mut *__w }, "{1:(faint,)?}{0:08.1s}<b>{2:#(bg=default,bold)?}\"{8:+(fg=red)s}\r\n{bold:(bg=default,bold)o}m0;1{7:(faint,)s}x{5:e}{x:#(faint,)?}$0{n16:#(fg=red)?}]{p:(faint,)x?}{4:>3x?} - {x:X}\0{6:(fg=red)s}<!-- -->{10:(bg=default,bold)X}{3:+(faint,)x}é{s:+(bg=default,bold)s}{3:+(fg=red)X}x{9:08.1x?}]{6:E} - {o:08.1(fg=red)s}\r\n", &P(ev(0).0), P { 0: ev(1).0 }, std::convert::identity(ev(2)), ev(3) as &P, loop { break ev(4) }, ev(5), *ev(6), &*ev(7), P(ev(8).0), match ev(9) { p => p }, ev(10) as &P, bold = ev(11), s = ev(12), x = P(ev(13).0), p = &*ev(14), o = &*ev(15), n16 = ev(16) as &P) }
        (236, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{1:(faint,)?}{0:08.1s}<b>{2:#(bg=default,bold)?}\"{8:+(fg=red)s}\r\n{bold:(bg=default,bold)o}m0;1{7:(faint,)s}x{5:e}{x:#(faint,)?}$0{n16:#(fg=red)?}]{p:(faint,)x?}{4:>3x?} - {x:X}\0{6:(fg=red)s}<!-- -->{10:(bg=default,bold)X}{3:+(faint,)x}é{s:+(bg=default,bold)s}{3:+(fg=red)X}x{9:08.1x?}]{6:E} - {o:08.1(fg=red)s}\r\n", &P(ev(0).0), P { 0: ev(1).0 }, std::convert::identity(ev(2)), ev(3) as &P, loop { break ev(4) }, ev(5), *ev(6), &*ev(7), P(ev(8).0), match ev(9) { p => p }, ev(10) as &P, bold = ev(11), s = ev(12), x = P(ev(13).0), p = &*ev(14), o = &*ev(15), n16 = ev(16) as &P) }
        (237, false) => { stylish::write!({ __dst(); &mut *__w }, "\"{:(fg=red)s}\t{:08.1s}{:+s}\0{:08.1b} - {:(bg=default,bold)s}{:(faint,)X}$0{:>3(bg=default,bold)s}{:+s}{:s}{:08.1?}: {:s}{:s}{:+(fg=red)s}{:>3s}{:>3(faint,)?} - {:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }, P { 0: ev(1).0 }, ev(2).me(), *ev(3), ev(4), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, *ev(7), Some(ev(8)).unwrap(), (ev(9)), match ev(10) { p => p }, ev(11), std::convert::identity(ev(12)), std::convert::identity(ev(13)), &P(ev(14).0), (ev(15),).0) }
        (237, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\"{:(fg=red)s}\t{:08.1s}{:+s}\0{:08.1b} - {:(bg=default,bold)s}{:(faint,)X}$0{:>3(bg=default,bold)s}{:+s}{:s}{:08.1?}: {:s}{:s}{:+(fg=red)s}{:>3s}{:>3(faint,)?} - {:>3(bg=default,bold)s}", if let p = ev(0) { p } else { unreachable!() }, P { 0: ev(1).0 }, ev(2).me(), *ev(3), ev(4), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, *ev(7), Some(ev(8)).unwrap(), (ev(9)), match ev(10) { p => p }, ev(11), std::convert::identity(ev(12)), std::convert::identity(ev(13)), &P(ev(14).0), (ev(15),).0) }
        (238, false) => { stylish::write!({ __dst(); &mut *__w }, "x{9:>3(bg=default,bold)s}{6:+(faint,)s}\n\n{:+(bg=default,bold)e}}}{:X}é{:(fg=red)s}|{7:>3(fg=red)o}{:+(fg=red)?}é{:x?}]{11:#(faint,)?}[{:08.1s}{:08.1x?}{:08.1(bg=default,bold)s}\"{:+}%%{12:08.1(bg=default,bold)s}\t{:08.1(fg=red)s}é{10:>3(bg=default,bold)E}#;", ev(0), P { 0: ev(1).0 }, (ev(2)), std::convert::identity(ev(3)), same!(ev(4)), ev(5), ev(6) as &P, match ev(7) { p => p }, { let x = ev(8); x }, &&ev(9), std::convert::identity(ev(10)), *ev(11), ev(12)) }
        (238, true) => { stylish::writeln!({ __dst(); &mut *__w }, "x{9:>3(bg=default,bold)s}{6:+(faint,)s}\n\n{:+(bg=default,bold)e}}}{:X}é{:(fg=red)s}|{7:>3(fg=red)o}{:+(fg=red)?}é{:x?}]{11:#(faint,)?}[{:08.1s}{:08.1x?}{:08.1(bg=default,bold)s}\"{:+}%%{12:08.1(bg=default,bold)s}\t{:08.1(fg=red)s}é{10:>3(bg=default,bold)E}#;", ev(0), P { 0: ev(1).0 }, (ev(2)), std::convert::identity(ev(3)), same!(ev(4)), ev(5), ev(6) as &P, match ev(7) { p => p }, { let x = ev(8); x }, &&ev(9), std::convert::identity(ev(10)), *ev(11), ev(12)) }
        (239, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{3:>3s}{5:+s}m0;1{2:s}<!-- -->{0:>3(fg=red)}[{4:#(bg=default,bold)?}\n\n{6:>3e}<b>{1:+s}<b>{4:(fg=red)s}　", [ev(0)][0], { let x = ev(1); x }, ev(2), { let x = ev(3); x }, std::convert::identity(ev(4)), { let x = ev(5); x }, P(ev(6).0)) }
        (239, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{3:>3s}{5:+s}m0;1{2:s}<!-- -->{0:>3(fg=red)}[{4:#(bg=default,bold)?}\n\n{6:>3e}<b>{1:+s}<b>{4:(fg=red)s}　", [ev(0)][0], { let x = ev(1); x }, ev(2), { let x = ev(3); x }, std::convert::identity(ev(4)), { let x = ev(5); x }, P(ev(6).0)) }
        (240, false) => { stylish::write!({ __dst(); &mut *__w }, "{_f:#(fg=red)?}{fg:s}&{width:>3(fg=red)x?}{é:>3(faint,)s}　{bold:(bg=default,bold)s}{x1:+s}{e:#(fg=red)?}{n8:+(bg=default,bold)s}\\{b:#?}\r{a:>3(fg=red)e}{x1:08.1s}\r{a:>3?}{bold:08.1s}\r\n{d:(faint,)o}$0{c:(bg=default,bold)?}\0", a = [ev(0)][0], b = &*ev(1), c = loop { break ev(2) }, d = (ev(3)), e = *ev(4), _f = &&ev(5), width = *ev(6), x1 = std::convert::identity(ev(7)), n8 = *ev(8), é = ev(9) as &P, fg = ev(10), bold = { ev(11) }) }
        (240, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{_f:#(fg=red)?}{fg:s}&{width:>3(fg=red)x?}{é:>3(faint,)s}　{bold:(bg=default,bold)s}{x1:+s}{e:#(fg=red)?}{n8:+(bg=default,bold)s}\\{b:#?}\r{a:>3(fg=red)e}{x1:08.1s}\r{a:>3?}{bold:08.1s}\r\n{d:(faint,)o}$0{c:(bg=default,bold)?}\0", a = [ev(0)][0], b = &*ev(1), c = loop { break ev(2) }, d = (ev(3)), e = *ev(4), _f = &&ev(5), width = *ev(6), x1 = std::convert::identity(ev(7)), n8 = *ev(8), é = ev(9) as &P, fg = ev(10), bold = { ev(11) }) }
        (241, false) => { stylish::write!({ __dst(); &mut *__w }, "{8:(faint,)s}{5:s}{3:08.1(fg=red)?}{0:08.1X}\n\n{10:+(bg=default,bold)s}{{{2:#?}{6:+(bg=default,bold)x}{4:+(faint,)s}{7:+X}{1:(faint,)x?}{9:>3(faint,)x?}&", *ev(0), *ev(1), { let x = ev(2); x }, &P(ev(3).0), { ev(4) }, [ev(5)][0], [ev(6)][0], Some(ev(7)).unwrap(), same!(ev(8)), *ev(9), ev(10).me()) }
        (241, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{8:(faint,)s}{5:s}{3:08.1(fg=red)?}{0:08.1X}\n\n{10:+(bg=default,bold)s}{{{2:#?}{6:+(bg=default,bold)x}{4:+(faint,)s}{7:+X}{1:(faint,)x?}{9:>3(faint,)x?}&", *ev(0), *ev(1), { let x = ev(2); x }, &P(ev(3).0), { ev(4) }, [ev(5)][0], [ev(6)][0], Some(ev(7)).unwrap(), same!(ev(8)), *ev(9), ev(10).me()) }
        (242, false) => { stylish::write!({ __dst(); &mut *__w }, "&amp;{8:08.1E}é{15:>3?}\n{15:(faint,)x?}]{:08.1(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{12:+(bg=default,bold)X}]{:(faint,)s}{6:(fg=red)o}{:08.1(faint,)s}1:{7:(bg=default,bold)s}\0{:e}|{15:(bg=default,bold)s}$0{:+(faint,)o}\u{feff}{:(bg=default,bold)s}{16:+s}<b>{12:#(faint,)?}{13:s} - {9:08.1s}{10:08.1X}{14:+X}#;{7:(faint,)s}{11:>3(bg=default,bold)s}\\", ev(0) as &P, (|| ev(1))(), loop { break ev(2) }, &&ev(3), { let x = ev(4); x }, &*ev(5), *ev(6), (ev(7),).0, &P(ev(8).0), P(ev(9).0), ev(10).me(), (ev(11)), [ev(12)][0], ev(13).me(), Some(ev(14)).unwrap(), std::convert::identity(ev(15)), (|| ev(16))()) }
        (242, true) => { stylish::writeln!({ __dst(); &mut *__w }, "&amp;{8:08.1E}é{15:>3?}\n{15:(faint,)x?}]{:08.1(fg=red)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{12:+(bg=default,bold)X}]{:(faint,)s}{6:(fg=red)o}{:08.1(faint,)s}1:{7:(bg=default,bold)s}\0{:e}|{15:(bg=default,bold)s}$0{:+(faint,)o}\u{feff}{:(bg=default,bold)s}{16:+s}<b>{12:#(faint,)?}{13:s} - {9:08.1s}{10:08.1X}{14:+X}#;{7:(faint,)s}{11:>3(bg=default,bold)s}\\", ev(0) as &P, (|| ev(1))(), loop { break ev(2) }, &&ev(3), { let x = ev(4); x }, &*ev(5), *ev(6), (ev(7),).0, &P(ev(8).0), P(ev(9).0), ev(10).me(), (ev(11)), [ev(12)][0], ev(13).me(), Some(ev(14)).unwrap(), std::convert::identity(ev(15)), (|| ev(16))()) }
        (243, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{{}}{n8:+?}\n{5:08.1E}a{{b}}c{6:x?}m0;1{0:s}{2:>3x}&{3:(faint,)x}\n", "{é:>3(fg=red)s}\u{feff}{s:#(fg=red)?}{0:", "+o}{bold:(bg=default,bold)?}{fg:s}{2:+s}\r\n{1:(fg=red)s}{4:+?}{7:#(fg=red)?}&{é:(bg=default,bold)s}"), ev(0), { let x = ev(1); x }, same!(ev(2)), &P(ev(3).0), ev(4), Some(ev(5)).unwrap(), &*ev(6), *ev(7), n8 = P { 0: ev(8).0 }, é = { ev(9) }, fg = { ev(10) }, bold = P { 0: ev(11).0 }, s = &&ev(12)) }
        (243, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{}}{n8:+?}\n{5:08.1E}a{{b}}c{6:x?}m0;1{0:s}{2:>3x}&{3:(faint,)x}\n{é:>3(fg=red)s}\u{feff}{s:#(fg=red)?}{0:+o}{bold:(bg=default,bold)?}{fg:s}{2:+s}\r\n{1:(fg=red)s}{4:+?}{7:#(fg=red)?}&{é:(bg=default,bold)s}", ev(0), { let x = ev(1); x }, same!(ev(2)), &P(ev(3).0), ev(4), Some(ev(5)).unwrap(), &*ev(6), *ev(7), n8 = P { 0: ev(8).0 }, é = { ev(9) }, fg = { ev(10) }, bold = P { 0: ev(11).0 }, s = &&ev(12)) }
        (244, false) => { stylish::write!({ __dst(); &mut *__w }, "\r{}{0:08.1(faint,)s}{2:>3x?}\u{feff}{1:>3e}{:x}\n{:+(faint,)e}　{:(fg=red)s}{3:+(fg=red)s}]{3:#?}{4:+b}#;{5:08.1(fg=red)s}{:(bg=default,bold)?}{:>3o}{4:s}", std::convert::identity(ev(0)), ev(1).me(), std::convert::identity(ev(2)), loop { break ev(3) }, same!(ev(4)), (|| ev(5))()) }
        (244, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\r{}{0:08.1(faint,)s}{2:>3x?}\u{feff}{1:>3e}{:x}\n{:+(faint,)e}　{:(fg=red)s}{3:+(fg=red)s}]{3:#?}{4:+b}#;{5:08.1(fg=red)s}{:(bg=default,bold)?}{:>3o}{4:s}", std::convert::identity(ev(0)), ev(1).me(), std::convert::identity(ev(2)), loop { break ev(3) }, same!(ev(4)), (|| ev(5))()) }
        (245, false) => { stylish::write!({ __dst(); &mut *__w }, "\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() }) }
        (245, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() }) }
        (246, false) => { stylish::write!({ __dst(); &mut *__w }, "{0:#?}{{}}{:>3(fg=red)s}{:08.1x?}{1:>3s}<b>{3:>3(bg=default,bold)x?}: {:#?}[{:>3(faint,)s}: {2:>3(fg=red)}  {:s}{4:(fg=red)E}{5:+s}]{3:b}{{{:+s}\n{:>3s}\r{:s}a{{b}}c{:s}{:>3(bg=default,bold)s}\t{10:08.1b}{9:(bg=default,bold)s}&amp;{10}\0{:08.1(faint,)?}''{11:08.1o}%%{11:>3(fg=red)?}　{11:08.1(faint,)o}{10:s}'q'{:>3(faint,)s}", (ev(0),).0, { let x = ev(1); x }, loop { break ev(2) }, same!(ev(3)), &*ev(4), if let p = ev(5) { p } else { unreachable!() }, { ev(6) }, &P(ev(7).0), &*ev(8), loop { break ev(9) }, loop { break ev(10) }, std::convert::identity(ev(11))) }
        (246, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{0:#?}{{}}{:>3(fg=red)s}{:08.1x?}{1:>3s}<b>{3:>3(bg=default,bold)x?}: {:#?}[{:>3(faint,)s}: {2:>3(fg=red)}  {:s}{4:(fg=red)E}{5:+s}]{3:b}{{{:+s}\n{:>3s}\r{:s}a{{b}}c{:s}{:>3(bg=default,bold)s}\t{10:08.1b}{9:(bg=default,bold)s}&amp;{10}\0{:08.1(faint,)?}''{11:08.1o}%%{11:>3(fg=red)?}　{11:08.1(faint,)o}{10:s}'q'{:>3(faint,)s}", (ev(0),).0, { let x = ev(1); x }, loop { break ev(2) }, same!(ev(3)), &*ev(4), if let p = ev(5) { p } else { unreachable!() }, { ev(6) }, &P(ev(7).0), &*ev(8), loop { break ev(9) }, loop { break ev(10) }, std::convert::identity(ev(11))) }
        (247, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0"), &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P) }
        (247, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0", &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P) }
        (248, false) => { stylish::write!({ __dst(); &mut *__w }, "{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5)) }
        (248, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5)) }
        (249, false) => { stylish::write!({ __dst(); &mut *__w }, "　{8:E} - {12:s}\n{13:08.1(faint,)s}{17:>3s}]{1:>3s}\r{19:>3(bg=default,bold)s}{2:x}|{9:>3(faint,)s}{14:+E}\r{3:+(fg=red)b}{15:+E}{7:(bg=default,bold)s}\r{11:s}{18:(bg=default,bold)s}$0{10:+s}}}{4:08.1(faint,)?}{5:08.1(bg=default,bold)s}{16:08.1(faint,)s}{0:(fg=red)o}%%{6:>3(fg=red)}", { let x = ev(0); x }, P { 0: ev(1).0 }, &&ev(2), [ev(3)][0], ev(4), [ev(5)][0], same!(ev(6)), ev(7) as &P, (ev(8),).0, (|| ev(9))(), ev(10), (ev(11),).0, { let x = ev(12); x }, Some(ev(13)).unwrap(), (ev(14)), ev(15), ev(16), match ev(17) { p => p }, loop { break ev(18) }, match ev(19) { p => p }) }
        (249, true) => { stylish::writeln!({ __dst(); &mut *__w }, "　{8:E} - {12:s}\n{13:08.1(faint,)s}{17:>3s}]{1:>3s}\r{19:>3(bg=default,bold)s}{2:x}|{9:>3(faint,)s}{14:+E}\r{3:+(fg=red)b}{15:+E}{7:(bg=default,bold)s}\r{11:s}{18:(bg=default,bold)s}$0{10:+s}}}{4:08.1(faint,)?}{5:08.1(bg=default,bold)s}{16:08.1(faint,)s}{0:(fg=red)o}%%{6:>3(fg=red)}", { let x = ev(0); x }, P { 0: ev(1).0 }, &&ev(2), [ev(3)][0], ev(4), [ev(5)][0], same!(ev(6)), ev(7) as &P, (ev(8),).0, (|| ev(9))(), ev(10), (ev(11),).0, { let x = ev(12); x }, Some(ev(13)).unwrap(), (ev(14)), ev(15), ev(16), match ev(17) { p => p }, loop { break ev(18) }, match ev(19) { p => p }) }
        (250, false) => { stylish::write!({ __dst(); &mut *__w }, "\\{1:x?}  {7:(fg=red)e}{{}}{9:08.1s}{4:#?}\\{0:(faint,)x}$0{7:08.1E}{10:(bg=default,bold)s}{5:(fg=red)s}''{8:(bg=default,bold)s}{6:>3b}{8:(bg=default,bold)s}}}{2:>3(fg=red)x?}{3:>3(bg=default,bold)s}<b>{9:08.1s}", (ev(0),).0, &P(ev(1).0), loop { break ev(2) }, if let p = ev(3) { p } else { unreachable!() }, &*ev(4), { ev(5) }, P(ev(6).0), &*ev(7), (ev(8)), ev(9), &&ev(10)) }
        (250, true) => { stylish::writeln!({ __dst(); &mut *__w }, "\\{1:x?}  {7:(fg=red)e}{{}}{9:08.1s}{4:#?}\\{0:(faint,)x}$0{7:08.1E}{10:(bg=default,bold)s}{5:(fg=red)s}''{8:(bg=default,bold)s}{6:>3b}{8:(bg=default,bold)s}}}{2:>3(fg=red)x?}{3:>3(bg=default,bold)s}<b>{9:08.1s}", (ev(0),).0, &P(ev(1).0), loop { break ev(2) }, if let p = ev(3) { p } else { unreachable!() }, &*ev(4), { ev(5) }, P(ev(6).0), &*ev(7), (ev(8)), ev(9), &&ev(10)) }
        (251, false) => { stylish::write!({ __dst(); &mut *__w }, "{:+(bg=default,bold)s}: {:b}{:08.1s}\n{:(bg=default,bold)?}\t{:08.1(bg=default,bold)E}|{:#(fg=red)?}{:+(fg=red)?}", match ev(0) { p => p }, match ev(1) { p => p }, (ev(2),).0, &P(ev(3).0), &&ev(4), loop { break ev(5) }, (|| ev(6))()) }
        (251, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:+(bg=default,bold)s}: {:b}{:08.1s}\n{:(bg=default,bold)?}\t{:08.1(bg=default,bold)E}|{:#(fg=red)?}{:+(fg=red)?}", match ev(0) { p => p }, match ev(1) { p => p }, (ev(2),).0, &P(ev(3).0), &&ev(4), loop { break ev(5) }, (|| ev(6))()) }
        (252, false) => { stylish::write!({ __dst(); &mut *__w }, "m0;1{:08.1(bg=default,bold)s}\\n{:#(faint,)?}|{:(faint,)e}[{:b}{{}}{:>3s}x{:(faint,)E}", { let x = ev(0); x }, P { 0: ev(1).0 }, *ev(2), std::convert::identity(ev(3)), ev(4), (ev(5),).0) }
        (252, true) => { stylish::writeln!({ __dst(); &mut *__w }, "m0;1{:08.1(bg=default,bold)s}\\n{:#(faint,)?}|{:(faint,)e}[{:b}{{}}{:>3s}x{:(faint,)E}", { let x = ev(0); x }, P { 0: ev(1).0 }, *ev(2), std::convert::identity(ev(3)), ev(4), (ev(5),).0) }
        (253, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{b:(faint,)s}\n\n{width:>3(fg=red)x?}", "{d:o}{_f:+(faint,", ")s}<b>{width:s}\0{c:+e}{e:x?}''{c:o}\\{0:+x?}{_f:+X}'q'"), &P(ev(0).0), b = if let p = ev(1) { p } else { unreachable!() }, c = ev(2) as &P, d = match ev(3) { p => p }, e = [ev(4)][0], _f = [ev(5)][0], width = if let p = ev(6) { p } else { unreachable!() }) }
        (253, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{b:(faint,)s}\n\n{width:>3(fg=red)x?}{d:o}{_f:+(faint,)s}<b>{width:s}\0{c:+e}{e:x?}''{c:o}\\{0:+x?}{_f:+X}'q'", &P(ev(0).0), b = if let p = ev(1) { p } else { unreachable!() }, c = ev(2) as &P, d = match ev(3) { p => p }, e = [ev(4)][0], _f = [ev(5)][0], width = if let p = ev(6) { p } else { unreachable!() }) }
        (254, false) => { stylish::write!({ __dst(); &mut *__w }, "&amp;{1:s}\r{9:08.1s}m0;1{3:08.1(faint,)s}1:{4:08.1(faint,)s}　{9:+(fg=red)s}{13:#(fg=red)?}é{7:08.1(faint,)b}x{2:#?}{8:+x?}{5:>3b}a{{b}}c{17:>3(fg=red)s}<!-- -->{15:x}#;{14:s}'q'{11:>3(faint,)E}[{10:+(faint,)E}|{16:+}\n{0:(fg=red)s}{12:+(faint,)s}{6:08.1(bg=default,bold)s}&{16:e}", &&ev(0), *ev(1), same!(ev(2)), ev(3) as &P, &&ev(4), (ev(5),).0, *ev(6), match ev(7) { p => p }, ev(8) as &P, (ev(9)), ev(10), ev(11), ev(12).me(), match ev(13) { p => p }, (ev(14)), { ev(15) }, *ev(16), *ev(17)) }
        (254, true) => { stylish::writeln!({ __dst(); &mut *__w }, "&amp;{1:s}\r{9:08.1s}m0;1{3:08.1(faint,)s}1:{4:08.1(faint,)s}　{9:+(fg=red)s}{13:#(fg=red)?}é{7:08.1(faint,)b}x{2:#?}{8:+x?}{5:>3b}a{{b}}c{17:>3(fg=red)s}<!-- -->{15:x}#;{14:s}'q'{11:>3(faint,)E}[{10:+(faint,)E}|{16:+}\n{0:(fg=red)s}{12:+(faint,)s}{6:08.1(bg=default,bold)s}&{16:e}", &&ev(0), *ev(1), same!(ev(2)), ev(3) as &P, &&ev(4), (ev(5),).0, *ev(6), match ev(7) { p => p }, ev(8) as &P, (ev(9)), ev(10), ev(11), ev(12).me(), match ev(13) { p => p }, (ev(14)), { ev(15) }, *ev(16), *ev(17)) }
        (255, false) => { stylish::write!({ __dst(); &mut *__w }, "é{0:b}{3:+s}{{{5:+(faint,)s}{4:+s}\u{feff}{3:(faint,)E}$0{7:08.1s}　{8:08.1x}{6:>3(fg=red)o}\r{1:+s}{2:s}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, *ev(2), &&ev(3), ev(4).me(), P { 0: ev(5).0 }, ev(6), *ev(7), { ev(8) }) }
        (255, true) => { stylish::writeln!({ __dst(); &mut *__w }, "é{0:b}{3:+s}{{{5:+(faint,)s}{4:+s}\u{feff}{3:(faint,)E}$0{7:08.1s}　{8:08.1x}{6:>3(fg=red)o}\r{1:+s}{2:s}", (|| ev(0))(), if let p = ev(1) { p } else { unreachable!() }, *ev(2), &&ev(3), ev(4).me(), P { 0: ev(5).0 }, ev(6), *ev(7), { ev(8) }) }
        (256, false) => { stylish::write!({ __dst(); &mut *__w }, concat!("{:(faint,)?}{:08.1(faint,)s}\t{:+s}a{{b}}c{:b}1:{:08.1b}\\{:08.1}\0{:08.1s}", "{:08.1?}{:(bg=default,bold)X}{:>3o}{", ":08.1s}{:s}{:>3(bg=default,bold)s}\0{:>3s}\n\n{:08.1(fg=red)b}1:{:08.1s}[{:#(faint,)?}&amp;{:(bg=default,bold)X}"), ev(0), [ev(1)][0], { ev(2) }, P(ev(3).0), ev(4).me(), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, Some(ev(7)).unwrap(), P { 0: ev(8).0 }, (|| ev(9))(), P(ev(10).0), (ev(11),).0, *ev(12), std::convert::identity(ev(13)), (ev(14),).0, { ev(15) }, std::convert::identity(ev(16)), &&ev(17)) }
        (256, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:(faint,)?}{:08.1(faint,)s}\t{:+s}a{{b}}c{:b}1:{:08.1b}\\{:08.1}\0{:08.1s}{:08.1?}{:(bg=default,bold)X}{:>3o}{:08.1s}{:s}{:>3(bg=default,bold)s}\0{:>3s}\n\n{:08.1(fg=red)b}1:{:08.1s}[{:#(faint,)?}&amp;{:(bg=default,bold)X}", ev(0), [ev(1)][0], { ev(2) }, P(ev(3).0), ev(4).me(), (ev(5)), if let p = ev(6) { p } else { unreachable!() }, Some(ev(7)).unwrap(), P { 0: ev(8).0 }, (|| ev(9))(), P(ev(10).0), (ev(11),).0, *ev(12), std::convert::identity(ev(13)), (ev(14),).0, { ev(15) }, std::convert::identity(ev(16)), &&ev(17)) }
        (257, false) => { stylish::write!({ __dst(); &mut *__w }, "{:+?}|{0:+x?}{0:+?}<b>{1:X}'q'{:+s}{:(bg=default,bold)E}\\n{3:08.1s}&{:(faint,)s}#;{3:o}\\{:#?}[{:+s}{:#?}{6:08.1(faint,)X}<b>{6:#?}{7:+x}%%{:+(fg=red)x}'q'{9:>3?}{:+s} - {9:>3(faint,)s}|{:(fg=red)E}{9:(bg=default,bold)X}#;{10:>3}&{9:(bg=default,bold)s}1:{:>3(faint,)} - {9:(fg=red)s}é{:+x}{12:+(fg=red)?}<b>{11:+(faint,)s}{13:(bg=default,bold)o}{:>3(bg=default,bold)s}\\{14:08.1s}{{{:(faint,)b}[{:08.1(faint,)s}\n\n{14:>3E}{:+(faint,)}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{15:>3(faint,)s}", match ev(0) { p => p }, std::convert::identity(ev(1)), same!(ev(2)), std::convert::identity(ev(3)), (ev(4),).0, ev(5) as &P, ev(6).me(), loop { break ev(7) }, [ev(8)][0], ev(9), same!(ev(10)), loop { break ev(11) }, &&ev(12), { let x = ev(13); x }, (ev(14)), Some(ev(15)).unwrap()) }
        (257, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{:+?}|{0:+x?}{0:+?}<b>{1:X}'q'{:+s}{:(bg=default,bold)E}\\n{3:08.1s}&{:(faint,)s}#;{3:o}\\{:#?}[{:+s}{:#?}{6:08.1(faint,)X}<b>{6:#?}{7:+x}%%{:+(fg=red)x}'q'{9:>3?}{:+s} - {9:>3(faint,)s}|{:(fg=red)E}{9:(bg=default,bold)X}#;{10:>3}&{9:(bg=default,bold)s}1:{:>3(faint,)} - {9:(fg=red)s}é{:+x}{12:+(fg=red)?}<b>{11:+(faint,)s}{13:(bg=default,bold)o}{:>3(bg=default,bold)s}\\{14:08.1s}{{{:(faint,)b}[{:08.1(faint,)s}\n\n{14:>3E}{:+(faint,)}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{15:>3(faint,)s}", match ev(0) { p => p }, std::convert::identity(ev(1)), same!(ev(2)), std::convert::identity(ev(3)), (ev(4),).0, ev(5) as &P, ev(6).me(), loop { break ev(7) }, [ev(8)][0], ev(9), same!(ev(10)), loop { break ev(11) }, &&ev(12), { let x = ev(13); x }, (ev(14)), Some(ev(15)).unwrap()) }
        (258, false) => { stylish::write!({ __dst(); &mut *__w }, "{{{n8:o}#;{s:>3(faint,)s}m0;1{fg:(faint,)E}{3:(fg=red)e}{{{é:+(fg=red)s}\r{bold:>3s}: {x1:08.1(fg=red)s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {0:08.1(faint,)s}x{width:}{2:+(faint,)s}#;{1:08.1(fg=red)e}  {4:>3(fg=red)s}: {x:#(faint,)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{5:08.1(faint,)X}\"", std::convert::identity(ev(0)), P(ev(1).0), ev(2).me(), Some(ev(3)).unwrap(), P(ev(4).0), &&ev(5), width = std::convert::identity(ev(6)), x1 = &&ev(7), n8 = (ev(8),).0, é = *ev(9), fg = { let x = ev(10); x }, bold = &&ev(11), s = ev(12), x = ev(13) as &P) }
        (258, true) => { stylish::writeln!({ __dst(); &mut *__w }, "{{{n8:o}#;{s:>3(faint,)s}m0;1{fg:(faint,)E}{3:(fg=red)e}{{{é:+(fg=red)s}\r{bold:>3s}: {x1:08.1(fg=red)s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {0:08.1(faint,)s}x{width:}{2:+(faint,)s}#;{1:08.1(fg=red)e}  {4:>3(fg=red)s}: {x:#(faint,)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{5:08.1(faint,)X}\"", std::convert::identity(ev(0)), P(ev(1).0), ev(2).me(), Some(ev(3)).unwrap(), P(ev(4).0), &&ev(5), width = std::convert::identity(ev(6)), x1 = &&ev(7), n8 = (ev(8),).0, é = *ev(9), fg = { let x = ev(10); x }, bold = &&ev(11), s = ev(12), x = ev(13) as &P) }
        (259, false) => { stylish::write!({ __dst(); &mut *__w }, "'q'{n8:08.1b}<!-- -->{x1:+(bg=default,bold)?}: {0:#(fg=red)?}%%{0:+o}{fg:08.1(faint,)s}\n\n{2:+(faint,)s}: {1:(bg=default,bold)}}}{width:>3(fg=red)s}{é:(fg=red)s}&amp;{3:(fg=red)s}{_f:#?}}}{s:08.1(bg=default,bold)}\r{bold:08.1(faint,)}{e:08.1(faint,)s}<b>{width:+(faint,)}{1:(faint,)x}#;", (ev(0)), &*ev(1), ev(2), { let x = ev(3); x }, e = [ev(4)][0], _f = (|| ev(5))(), width = ev(6), x1 = P(ev(7).0), n8 = [ev(8)][0], é = match ev(9) { p => p }, fg = same!(ev(10)), bold = *ev(11), s = (ev(12),).0) }
        (259, true) => { stylish::writeln!({ __dst(); &mut *__w }, "'q'{n8:08.1b}<!-- -->{x1:+(bg=default,bold)?}: {0:#(fg=red)?}%%{0:+o}{fg:08.1(faint,)s}\n\n{2:+(faint,)s}: {1:(bg=default,bold)}}}{width:>3(fg=red)s}{é:(fg=red)s}&amp;{3:(fg=red)s}{_f:#?}}}{s:08.1(bg=default,bold)}\r{bold:08.1(faint,)}{e:08.1(faint,)s}<b>{width:+(faint,)}{1:(faint,)x}#;", (ev(0)), &*ev(1), ev(2), { let x = ev(3); x }, e = [ev(4)][0], _f = (|| ev(5))(), width = ev(6), x1 = P(ev(7).0), n8 = [ev(8)][0], é = match ev(9) { p => p }, fg = same!(ev(10)), bold = *ev(11), s = (ev(12),).0) }
        (260, false) => { let args = ev(0); let export = ev(1); stylish::write!({ __dst(); &mut *__w }, "a{{b}}c{args:#(bg=default,bold)s}|{args:(fg=red)s}m0;1{export:E}") }
        (260, true) => { let args = ev(0); let export = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "a{{b}}c{args:#(bg=default,bold)s}|{args:(fg=red)s}m0;1{export:E}") }
        (261, false) => { let x = ev(0); let r#match = ev(1); let self_ = ev(2); stylish::write!({ __dst(); &mut *__w }, "{0:X}x{match:>3s}{x:>3(fg=red)E}{match:(bg=default,bold)X}\t{self_:s}{match:s}", { ev(3) }) }
        (261, true) => { let x = ev(0); let r#match = ev(1); let self_ = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "{0:X}x{match:>3s}{x:>3(fg=red)E}{match:(bg=default,bold)X}\t{self_:s}{match:s}", { ev(3) }) }
        (262, false) => { let f = ev(0); let export = ev(1); stylish::write!({ __dst(); &mut *__w }, "  {f:>3b}{f:>3(fg=red)?}{{}}{f:s}{export:(fg=red)X}%%{export:(fg=red)s}") }
        (262, true) => { let f = ev(0); let export = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "  {f:>3b}{f:>3(fg=red)?}{{}}{f:s}{export:(fg=red)X}%%{export:(fg=red)s}") }
        (263, false) => { let f = ev(0); stylish::write!({ __dst(); &mut *__w }, "\r{f:#x?}{{{f:>3(fg=red)E}{f:#(bg=default,bold)}") }
        (263, true) => { let f = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "\r{f:#x?}{{{f:>3(fg=red)E}{f:#(bg=default,bold)}") }
        (264, false) => { let inner = ev(0); let export = ev(1); stylish::write!({ __dst(); &mut *__w }, "{export:(fg=red)s}\u{feff}{export:>3(fg=red)E}#;{inner:#(bg=default,bold)s}#;{inner:#?}{export:(fg=red)}") }
        (264, true) => { let inner = ev(0); let export = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{export:(fg=red)s}\u{feff}{export:>3(fg=red)E}#;{inner:#(bg=default,bold)s}#;{inner:#?}{export:(fg=red)}") }
        (265, false) => { let arg = ev(0); let r#match = ev(1); let Some_ = ev(2); stylish::write!({ __dst(); &mut *__w }, "{{{arg:(fg=red)b}|{match:>3(bg=default,bold)b}{arg:e}{x:(bg=default,bold)E}\\{Some_:(bg=default,bold)?}{Some_:>3(fg=red)s}{match:>3s}", x = match ev(3) { p => p }) }
        (265, true) => { let arg = ev(0); let r#match = ev(1); let Some_ = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "{{{arg:(fg=red)b}|{match:>3(bg=default,bold)b}{arg:e}{x:(bg=default,bold)E}\\{Some_:(bg=default,bold)?}{Some_:>3(fg=red)s}{match:>3s}", x = match ev(3) { p => p }) }
        (266, false) => { let x = ev(0); let arg = ev(1); stylish::write!({ __dst(); &mut *__w }, "\u{feff}{arg:>3(bg=default,bold)}{x:s} - {x:s}{arg:(fg=red)E}é{x:#(bg=default,bold)x}") }
        (266, true) => { let x = ev(0); let arg = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{arg:>3(bg=default,bold)}{x:s} - {x:s}{arg:(fg=red)E}é{x:#(bg=default,bold)x}") }
        (267, false) => { let r#fn = ev(0); let diff = ev(1); stylish::write!({ __dst(); &mut *__w }, ": {0:#(bg=default,bold)e}\\{fn:?}{{}}{diff:s}{arg:>3(fg=red)E}", Some(ev(2)).unwrap(), arg = &P(ev(3).0)) }
        (267, true) => { let r#fn = ev(0); let diff = ev(1); stylish::writeln!({ __dst(); &mut *__w }, ": {0:#(bg=default,bold)e}\\{fn:?}{{}}{diff:s}{arg:>3(fg=red)E}", Some(ev(2)).unwrap(), arg = &P(ev(3).0)) }
        (268, false) => { let export = ev(0); let formatter = ev(1); let r#fn = ev(2); let args = ev(3); stylish::write!({ __dst(); &mut *__w }, "é{args:s}\n\n{args:(fg=red)?}m0;1{q4:>3(bg=default,bold)s}{fn:#(bg=default,bold)?}\\{export:(bg=default,bold)x?}{formatter:(bg=default,bold)x}", q4 = Some(ev(4)).unwrap()) }
        (268, true) => { let export = ev(0); let formatter = ev(1); let r#fn = ev(2); let args = ev(3); stylish::writeln!({ __dst(); &mut *__w }, "é{args:s}\n\n{args:(fg=red)?}m0;1{q4:>3(bg=default,bold)s}{fn:#(bg=default,bold)?}\\{export:(bg=default,bold)x?}{formatter:(bg=default,bold)x}", q4 = Some(ev(4)).unwrap()) }
        (269, false) => { let inner = ev(0); stylish::write!({ __dst(); &mut *__w }, "{inner:(bg=default,bold)?}\u{feff}{inner:(bg=default,bold)x?}|{inner:>3s}{{{inner:(bg=default,bold)s}") }
        (269, true) => { let inner = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{inner:(bg=default,bold)?}\u{feff}{inner:(bg=default,bold)x?}|{inner:>3s}{{{inner:(bg=default,bold)s}") }
        (270, false) => { let f = ev(0); stylish::write!({ __dst(); &mut *__w }, "{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me()) }
        (270, true) => { let f = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me()) }
        (271, false) => { let arg = ev(0); let r#loop = ev(1); let Some_ = ev(2); stylish::write!({ __dst(); &mut *__w }, "{arg:#(fg=red)}{Some_:(bg=default,bold)x}''{Some_:>3e}{loop:s}") }
        (271, true) => { let arg = ev(0); let r#loop = ev(1); let Some_ = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "{arg:#(fg=red)}{Some_:(bg=default,bold)x}''{Some_:>3e}{loop:s}") }
        (272, false) => { let i = ev(0); let w = ev(1); stylish::write!({ __dst(); &mut *__w }, "\"{i:(fg=red)X}\r\n{w:>3s}{args:(bg=default,bold)o}&amp;{i:>3s}''{i:>3(fg=red)?}\r{Some_:x?}", Some_ = &&ev(2), args = *ev(3)) }
        (272, true) => { let i = ev(0); let w = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "\"{i:(fg=red)X}\r\n{w:>3s}{args:(bg=default,bold)o}&amp;{i:>3s}''{i:>3(fg=red)?}\r{Some_:x?}", Some_ = &&ev(2), args = *ev(3)) }
        (273, false) => { let diff = ev(0); stylish::write!({ __dst(); &mut *__w }, "{diff:X}é{diff:s}") }
        (273, true) => { let diff = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{diff:X}é{diff:s}") }
        (274, false) => { let style = ev(0); let r#match = ev(1); stylish::write!({ __dst(); &mut *__w }, "{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}") }
        (274, true) => { let style = ev(0); let r#match = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}") }
        (275, false) => { let e = ev(0); let x = ev(1); stylish::write!({ __dst(); &mut *__w }, "{{}}{0:?}{e:>3E}\t{x:>3s}\\{0:?}{x:x}\\n{e:(fg=red)s}", std::convert::identity(ev(2))) }
        (275, true) => { let e = ev(0); let x = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{{}}{0:?}{e:>3E}\t{x:>3s}\\{0:?}{x:x}\\n{e:(fg=red)s}", std::convert::identity(ev(2))) }
        (276, false) => { let r = ev(0); let style = ev(1); let formatter = ev(2); stylish::write!({ __dst(); &mut *__w }, "{style:>3(fg=red)E}'q'{style:#(bg=default,bold)x}{q3:>3(fg=red)s}{q3:#s}\u{feff}{r:#(bg=default,bold)}<b>{formatter:>3(bg=default,bold)s}", q3 = match ev(3) { p => p }) }
        (276, true) => { let r = ev(0); let style = ev(1); let formatter = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "{style:>3(fg=red)E}'q'{style:#(bg=default,bold)x}{q3:>3(fg=red)s}{q3:#s}\u{feff}{r:#(bg=default,bold)}<b>{formatter:>3(bg=default,bold)s}", q3 = match ev(3) { p => p }) }
        (277, false) => { let inner = ev(0); let args = ev(1); stylish::write!({ __dst(); &mut *__w }, "{inner:x?}<!-- -->{args:>3(bg=default,bold)s}{inner:>3s}|{inner:s}") }
        (277, true) => { let inner = ev(0); let args = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{inner:x?}<!-- -->{args:>3(bg=default,bold)s}{inner:>3s}|{inner:s}") }
        (278, false) => { let Some_ = ev(0); let r = ev(1); stylish::write!({ __dst(); &mut *__w }, "{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}") }
        (278, true) => { let Some_ = ev(0); let r = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}") }
        (279, false) => { let r = ev(0); stylish::write!({ __dst(); &mut *__w }, "{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p }) }
        (279, true) => { let r = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p }) }
        (280, false) => { let i = ev(0); let diff = ev(1); let arg = ev(2); let self_ = ev(3); stylish::write!({ __dst(); &mut *__w }, "\u{feff}{diff:>3s}$0{i:(bg=default,bold)o}[{arg:(fg=red)e}{arg:s}{self_:s}") }
        (280, true) => { let i = ev(0); let diff = ev(1); let arg = ev(2); let self_ = ev(3); stylish::writeln!({ __dst(); &mut *__w }, "\u{feff}{diff:>3s}$0{i:(bg=default,bold)o}[{arg:(fg=red)e}{arg:s}{self_:s}") }
        (281, false) => { let f = ev(0); stylish::write!({ __dst(); &mut *__w }, "  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))()) }
        (281, true) => { let f = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))()) }
        (282, false) => { let style = ev(0); let arg = ev(1); let r#match = ev(2); stylish::write!({ __dst(); &mut *__w }, "%%{match:>3E} - {0:>3?}#;{arg:(bg=default,bold)s}{Some_:#X}{0:>3(bg=default,bold)e}{{{style:#(bg=default,bold)s}: {0:>3x?}", ev(3).me(), Some_ = Some(ev(4)).unwrap()) }
        (282, true) => { let style = ev(0); let arg = ev(1); let r#match = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "%%{match:>3E} - {0:>3?}#;{arg:(bg=default,bold)s}{Some_:#X}{0:>3(bg=default,bold)e}{{{style:#(bg=default,bold)s}: {0:>3x?}", ev(3).me(), Some_ = Some(ev(4)).unwrap()) }
        (283, false) => { let inner = ev(0); let arg = ev(1); stylish::write!({ __dst(); &mut *__w }, "{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me()) }
        (283, true) => { let inner = ev(0); let arg = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me()) }
        (284, false) => { let r = ev(0); let i = ev(1); stylish::write!({ __dst(); &mut *__w }, "{r:#(bg=default,bold)s}\n\n{i:(fg=red)o}]{q2:>3s}{i:>3(bg=default,bold)s}", q2 = match ev(2) { p => p }) }
        (284, true) => { let r = ev(0); let i = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{r:#(bg=default,bold)s}\n\n{i:(fg=red)o}]{q2:>3s}{i:>3(bg=default,bold)s}", q2 = match ev(2) { p => p }) }
        (285, false) => { let args = ev(0); stylish::write!({ __dst(); &mut *__w }, "{{}}{0:(bg=default,bold)s}{{{args:#s}[{x:s}{x:(bg=default,bold)s}", ev(1), x = Some(ev(2)).unwrap()) }
        (285, true) => { let args = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{{}}{0:(bg=default,bold)s}{{{args:#s}[{x:s}{x:(bg=default,bold)s}", ev(1), x = Some(ev(2)).unwrap()) }
        (286, false) => { let self_ = ev(0); let arg = ev(1); stylish::write!({ __dst(); &mut *__w }, "[{arg:(bg=default,bold)}{self_:(bg=default,bold)s}{self_:(fg=red)s}\\{self_:#(bg=default,bold)s}") }
        (286, true) => { let self_ = ev(0); let arg = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "[{arg:(bg=default,bold)}{self_:(bg=default,bold)s}{self_:(fg=red)s}\\{self_:#(bg=default,bold)s}") }
        (287, false) => { let formatter = ev(0); stylish::write!({ __dst(); &mut *__w }, "{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() }) }
        (287, true) => { let formatter = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() }) }
        (288, false) => { let f = ev(0); stylish::write!({ __dst(); &mut *__w }, "{f:s}\n{0:?}{1:#(bg=default,bold)b}|{f:(fg=red)?}{0:s}{q3:>3s}", ev(1).me(), *ev(2), q3 = ev(3)) }
        (288, true) => { let f = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{f:s}\n{0:?}{1:#(bg=default,bold)b}|{f:(fg=red)?}{0:s}{q3:>3s}", ev(1).me(), *ev(2), q3 = ev(3)) }
        (289, false) => { let formatter = ev(0); stylish::write!({ __dst(); &mut *__w }, "é{f:>3(fg=red)x}{formatter:x?}", f = *ev(1)) }
        (289, true) => { let formatter = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "é{f:>3(fg=red)x}{formatter:x?}", f = *ev(1)) }
        (290, false) => { let export = ev(0); let Some_ = ev(1); stylish::write!({ __dst(); &mut *__w }, ": {Some_:(fg=red)x}{export:(fg=red)s}") }
        (290, true) => { let export = ev(0); let Some_ = ev(1); stylish::writeln!({ __dst(); &mut *__w }, ": {Some_:(fg=red)x}{export:(fg=red)s}") }
        (291, false) => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); stylish::write!({ __dst(); &mut *__w }, "{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}") }
        (291, true) => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); stylish::writeln!({ __dst(); &mut *__w }, "{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}") }
        (292, false) => { let r#match = ev(0); stylish::write!({ __dst(); &mut *__w }, "{match:>3s}{match:(fg=red)s}{match:>3s}") }
        (292, true) => { let r#match = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{match:>3s}{match:(fg=red)s}{match:>3s}") }
        (293, false) => { let arg = ev(0); stylish::write!({ __dst(); &mut *__w }, "{arg:#s}a{{b}}c{arg:(bg=default,bold)E}") }
        (293, true) => { let arg = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{arg:#s}a{{b}}c{arg:(bg=default,bold)E}") }
        (294, false) => { let f = ev(0); stylish::write!({ __dst(); &mut *__w }, "{f:(bg=default,bold)s}''{0:>3s}", std::convert::identity(ev(1))) }
        (294, true) => { let f = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{f:(bg=default,bold)s}''{0:>3s}", std::convert::identity(ev(1))) }
        (295, false) => { let x = ev(0); stylish::write!({ __dst(); &mut *__w }, "　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}") }
        (295, true) => { let x = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}") }
        (296, false) => { let args = ev(0); stylish::write!({ __dst(); &mut *__w }, "<!-- -->{args:>3(bg=default,bold)s}") }
        (296, true) => { let args = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "<!-- -->{args:>3(bg=default,bold)s}") }
        (297, false) => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); stylish::write!({ __dst(); &mut *__w }, "{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}") }
        (297, true) => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); stylish::writeln!({ __dst(); &mut *__w }, "{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}") }
        (298, false) => { let diff = ev(0); let Some_ = ev(1); stylish::write!({ __dst(); &mut *__w }, "<b>{1:#E}{Some_:(fg=red)s}\r\n{0:(fg=red)s}{1:s}{diff:#(fg=red)X}{diff:(bg=default,bold)x?}\n\n{diff:s}", *ev(2), same!(ev(3))) }
        (298, true) => { let diff = ev(0); let Some_ = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "<b>{1:#E}{Some_:(fg=red)s}\r\n{0:(fg=red)s}{1:s}{diff:#(fg=red)X}{diff:(bg=default,bold)x?}\n\n{diff:s}", *ev(2), same!(ev(3))) }
        (299, false) => { let inner = ev(0); stylish::write!({ __dst(); &mut *__w }, "{inner:(bg=default,bold)X}{inner:#(bg=default,bold)?}\n\n{inner:#s}{inner:(bg=default,bold)e}") }
        (299, true) => { let inner = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{inner:(bg=default,bold)X}{inner:#(bg=default,bold)?}\n\n{inner:#s}{inner:(bg=default,bold)e}") }
        (300, false) => { let f = ev(0); let self_ = ev(1); let args = ev(2); let e = ev(3); stylish::write!({ __dst(); &mut *__w }, "&{self_:#E}&{args:#(fg=red)s}\r{x:#X}{self_:#(bg=default,bold)?}{e:#s}|{f:x?}", x = *ev(4)) }
        (300, true) => { let f = ev(0); let self_ = ev(1); let args = ev(2); let e = ev(3); stylish::writeln!({ __dst(); &mut *__w }, "&{self_:#E}&{args:#(fg=red)s}\r{x:#X}{self_:#(bg=default,bold)?}{e:#s}|{f:x?}", x = *ev(4)) }
        (301, false) => { let arg = ev(0); stylish::write!({ __dst(); &mut *__w }, "{0:s}[{arg:>3(bg=default,bold)s}", ev(1)) }
        (301, true) => { let arg = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{0:s}[{arg:>3(bg=default,bold)s}", ev(1)) }
        (302, false) => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); stylish::write!({ __dst(); &mut *__w }, "\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}") }
        (302, true) => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); stylish::writeln!({ __dst(); &mut *__w }, "\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}") }
        (303, false) => { let i = ev(0); let r#loop = ev(1); stylish::write!({ __dst(); &mut *__w }, "{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4)) }
        (303, true) => { let i = ev(0); let r#loop = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4)) }
        (304, false) => { let args = ev(0); let f = ev(1); let self_ = ev(2); stylish::write!({ __dst(); &mut *__w }, "\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}") }
        (304, true) => { let args = ev(0); let f = ev(1); let self_ = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}") }
        (305, false) => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); stylish::write!({ __dst(); &mut *__w }, "{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}") }
        (305, true) => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}") }
        (306, false) => { let args = ev(0); let r = ev(1); stylish::write!({ __dst(); &mut *__w }, "é{export:>3s}<!-- -->{args:>3e}]{r:E}{args:#X}", export = same!(ev(2))) }
        (306, true) => { let args = ev(0); let r = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "é{export:>3s}<!-- -->{args:>3e}]{r:E}{args:#X}", export = same!(ev(2))) }
        (307, false) => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); stylish::write!({ __dst(); &mut *__w }, "{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}") }
        (307, true) => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); stylish::writeln!({ __dst(); &mut *__w }, "{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}") }
        (308, false) => { let r = ev(0); stylish::write!({ __dst(); &mut *__w }, "{2:(fg=red)s}\u{feff}{r:#s}]{0:#s}%%{0:#s}{r:s}{r:>3s}{{{1:o}", std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3)) }
        (308, true) => { let r = ev(0); stylish::writeln!({ __dst(); &mut *__w }, "{2:(fg=red)s}\u{feff}{r:#s}]{0:#s}%%{0:#s}{r:s}{r:>3s}{{{1:o}", std::convert::identity(ev(1)), std::convert::identity(ev(2)), ev(3)) }
        (309, false) => { let Some_ = ev(0); let r = ev(1); stylish::write!({ __dst(); &mut *__w }, "{r:s}{Some_:#s}\u{feff}{Some_:#(bg=default,bold)s}{r:X}{Some_:(fg=red)x}") }
        (309, true) => { let Some_ = ev(0); let r = ev(1); stylish::writeln!({ __dst(); &mut *__w }, "{r:s}{Some_:#s}\u{feff}{Some_:#(bg=default,bold)s}{r:X}{Some_:(fg=red)x}") }
        _ => unreachable!(),
    }
}

/// The other one-shot macros, for some of the sites.
pub const N_ONE: usize = 60;
pub fn eval_one(i: usize, which: usize, ev: &dyn Fn(usize) -> &'static P) -> String {
    match (i, which) {
        (0, 0) => { stylish::plain::format!("{:s}", stylish::format!("''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) })) }
        (0, 1) => { stylish::ansi::format!("''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) }) }
        (0, 2) => { stylish::html::format!("''{0:+X}{0:+(fg=red)s}{{}}{0:#?}{:>3}\r", { ev(0) }) }
        (1, 0) => { stylish::plain::format!("{:s}", stylish::format!("''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0)))) }
        (1, 1) => { stylish::ansi::format!("''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0))) }
        (1, 2) => { stylish::html::format!("''{a:08.1(bg=default,bold)}{a:>3s}}}{a:s}{a:>3s}", a = std::convert::identity(ev(0))) }
        (2, 0) => { let formatter = ev(0); stylish::plain::format!("{:s}", stylish::format!("{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() })) }
        (2, 1) => { let formatter = ev(0); stylish::ansi::format!("{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() }) }
        (2, 2) => { let formatter = ev(0); stylish::html::format!("{formatter}{formatter:>3s}a{{b}}c{q2:#b}{0:#(bg=default,bold)o}", &P(ev(1).0), q2 = if let p = ev(2) { p } else { unreachable!() }) }
        (3, 0) => { stylish::plain::format!("{:s}", stylish::format!("{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0))) }
        (3, 1) => { stylish::ansi::format!("{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0)) }
        (3, 2) => { stylish::html::format!("{2:08.1s}\"{1:>3E}{3:(fg=red)e}<!-- -->{0:>3s}{0}$0{2:>3(bg=default,bold)}$0{0:08.1s}{{", ev(0), Some(ev(1)).unwrap(), &P(ev(2).0), &P(ev(3).0)) }
        (4, 0) => { stylish::plain::format!("{:s}", stylish::format!("\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0))) }
        (4, 1) => { stylish::ansi::format!("\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0)) }
        (4, 2) => { stylish::html::format!("\"{a:+s}{a:+o}{a:08.1s}", a = &&ev(0)) }
        (5, 0) => { stylish::plain::format!("{:s}", stylish::format!("{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1)))) }
        (5, 1) => { stylish::ansi::format!("{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1))) }
        (5, 2) => { stylish::html::format!("{0:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:#(faint,)?}{:(fg=red)x}1:{0:>3s}&", { let x = ev(0); x }, same!(ev(1))) }
        (6, 0) => { stylish::plain::format!("{:s}", stylish::format!("%%{a:+s}{a:+(faint,)?}<b>", a = ev(0))) }
        (6, 1) => { stylish::ansi::format!("%%{a:+s}{a:+(faint,)?}<b>", a = ev(0)) }
        (6, 2) => { stylish::html::format!("%%{a:+s}{a:+(faint,)?}<b>", a = ev(0)) }
        (7, 0) => { let i = ev(0); let r#loop = ev(1); stylish::plain::format!("{:s}", stylish::format!("{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4))) }
        (7, 1) => { let i = ev(0); let r#loop = ev(1); stylish::ansi::format!("{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4)) }
        (7, 2) => { let i = ev(0); let r#loop = ev(1); stylish::html::format!("{0:>3}{1:#(bg=default,bold)E}\\{formatter:#s}{0:>3s}{{}}{loop:b}a{{b}}c{i:(fg=red)s}a{{b}}c{formatter:(bg=default,bold)s}", loop { break ev(2) }, ev(3) as &P, formatter = ev(4)) }
        (8, 0) => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); stylish::plain::format!("{:s}", stylish::format!("{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}")) }
        (8, 1) => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); stylish::ansi::format!("{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}") }
        (8, 2) => { let self_ = ev(0); let w = ev(1); let r#fn = ev(2); stylish::html::format!("{fn:>3s}\\n{w:#s}{self_:#(bg=default,bold)s}") }
        (9, 0) => { stylish::plain::format!("{:s}", stylish::format!("{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))())) }
        (9, 1) => { stylish::ansi::format!("{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))()) }
        (9, 2) => { stylish::html::format!("{a:+(faint,)s}\\{a:e}''", a = (|| ev(0))()) }
        (10, 0) => { stylish::plain::format!("{:s}", stylish::format!(concat!("[{1:(bg=default,bold)s}\"{0:s", "}é{2:>3(faint", ",)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n"), *ev(0), &*ev(1), same!(ev(2)), *ev(3))) }
        (10, 1) => { stylish::ansi::format!(concat!("[{1:(bg=default,bold)s}\"{0:s", "}é{2:>3(faint", ",)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n"), *ev(0), &*ev(1), same!(ev(2)), *ev(3)) }
        (10, 2) => { stylish::html::format!(concat!("[{1:(bg=default,bold)s}\"{0:s", "}é{2:>3(faint", ",)s}{0:s}|{1:+(fg=red)E}1:{3:+s}\n{2:>3s}\\n"), *ev(0), &*ev(1), same!(ev(2)), *ev(3)) }
        (11, 0) => { stylish::plain::format!("{:s}", stylish::format!("\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P)) }
        (11, 1) => { stylish::ansi::format!("\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P) }
        (11, 2) => { stylish::html::format!("\\n{a:+(faint,)e}{a:+(fg=red)s}m0;1{a:(bg=default,bold)E}\t{a:>3E}　", a = ev(0) as &P) }
        (12, 0) => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); stylish::plain::format!("{:s}", stylish::format!("{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}")) }
        (12, 1) => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); stylish::ansi::format!("{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}") }
        (12, 2) => { let r#loop = ev(0); let arg = ev(1); let inner = ev(2); stylish::html::format!("{inner:>3(fg=red)X}{loop:>3(fg=red)x?}$0{arg:>3(bg=default,bold)s}$0{inner:#s}") }
        (13, 0) => { stylish::plain::format!("{:s}", stylish::format!("{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1)))) }
        (13, 1) => { stylish::ansi::format!("{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1))) }
        (13, 2) => { stylish::html::format!("{:>3s}é{0:08.1(faint,)s}{1:>3(bg=default,bold)s}\n{1:>3s}", (|| ev(0))(), same!(ev(1))) }
        (14, 0) => { stylish::plain::format!("{:s}", stylish::format!("\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me())) }
        (14, 1) => { stylish::ansi::format!("\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me()) }
        (14, 2) => { stylish::html::format!("\0{:08.1(fg=red)s}1:{:(fg=red)s}{1:s}{:#(bg=default,bold)?}\\n{:(fg=red)o}{3:+e}", (ev(0)), same!(ev(1)), match ev(2) { p => p }, ev(3).me()) }
        (15, 0) => { stylish::plain::format!("{:s}", stylish::format!("}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me())) }
        (15, 1) => { stylish::ansi::format!("}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me()) }
        (15, 2) => { stylish::html::format!("}}{:+(faint,)s}{{{:s}}}", if let p = ev(0) { p } else { unreachable!() }, ev(1).me()) }
        (16, 0) => { stylish::plain::format!("{:s}", stylish::format!("{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1)))) }
        (16, 1) => { stylish::ansi::format!("{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1))) }
        (16, 2) => { stylish::html::format!("{b:(bg=default,bold)?}{a:#?}''", a = [ev(0)][0], b = same!(ev(1))) }
        (17, 0) => { stylish::plain::format!("{:s}", stylish::format!(concat!("&{0:(fg", "=re", "d)o}\0{0:x?}"), std::convert::identity(ev(0)))) }
        (17, 1) => { stylish::ansi::format!(concat!("&{0:(fg", "=re", "d)o}\0{0:x?}"), std::convert::identity(ev(0))) }
        (17, 2) => { stylish::html::format!(concat!("&{0:(fg", "=re", "d)o}\0{0:x?}"), std::convert::identity(ev(0))) }
        (18, 0) => { let Some_ = ev(0); let r = ev(1); stylish::plain::format!("{:s}", stylish::format!("{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}")) }
        (18, 1) => { let Some_ = ev(0); let r = ev(1); stylish::ansi::format!("{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}") }
        (18, 2) => { let Some_ = ev(0); let r = ev(1); stylish::html::format!("{r:#(bg=default,bold)s}\t{Some_:#s}&amp;{Some_:#(fg=red)b}<!-- -->{r:(bg=default,bold)X}") }
        (19, 0) => { stylish::plain::format!("{:s}", stylish::format!("{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))())) }
        (19, 1) => { stylish::ansi::format!("{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))()) }
        (19, 2) => { stylish::html::format!("{{}}{:s}\t{1:(faint,)s}{:08.1(fg=red)e} - ", if let p = ev(0) { p } else { unreachable!() }, (|| ev(1))()) }
        (20, 0) => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); stylish::plain::format!("{:s}", stylish::format!("\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}")) }
        (20, 1) => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); stylish::ansi::format!("\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}") }
        (20, 2) => { let inner = ev(0); let self_ = ev(1); let x = ev(2); let export = ev(3); let w = ev(4); stylish::html::format!("\t{inner:#e}{w:>3s}\t{export:(fg=red)s}[{self_:s}{self_:>3(bg=default,bold)s}<b>{x:#(bg=default,bold)E}") }
        (21, 0) => { stylish::plain::format!("{:s}", stylish::format!("{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))())) }
        (21, 1) => { stylish::ansi::format!("{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))()) }
        (21, 2) => { stylish::html::format!("{:(faint,)}$0{:08.1(bg=default,bold)s}", std::convert::identity(ev(0)), (|| ev(1))()) }
        (22, 0) => { let args = ev(0); let f = ev(1); let self_ = ev(2); stylish::plain::format!("{:s}", stylish::format!("\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}")) }
        (22, 1) => { let args = ev(0); let f = ev(1); let self_ = ev(2); stylish::ansi::format!("\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}") }
        (22, 2) => { let args = ev(0); let f = ev(1); let self_ = ev(2); stylish::html::format!("\t{args:>3(bg=default,bold)s}\\{self_:>3(fg=red)s}'q'{f}{args:>3(fg=red)}a{{b}}c{f:#(fg=red)s}") }
        (23, 0) => { stylish::plain::format!("{:s}", stylish::format!("#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x })) }
        (23, 1) => { stylish::ansi::format!("#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x }) }
        (23, 2) => { stylish::html::format!("#;{:(bg=default,bold)}m0;1{0:08.1(faint,)s}[{0:08.1(faint,)b}<b>{1:08.1(fg=red)o}{:08.1s}　", (ev(0)), { let x = ev(1); x }) }
        (24, 0) => { let r = ev(0); stylish::plain::format!("{:s}", stylish::format!("{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p })) }
        (24, 1) => { let r = ev(0); stylish::ansi::format!("{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p }) }
        (24, 2) => { let r = ev(0); stylish::html::format!("{i:>3(fg=red)s}{r:s}{0:s}{r:>3s}\n{0:s}", (|| ev(1))(), i = match ev(2) { p => p }) }
        (25, 0) => { stylish::plain::format!("{:s}", stylish::format!("{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0)))) }
        (25, 1) => { stylish::ansi::format!("{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0))) }
        (25, 2) => { stylish::html::format!("{a:(fg=red)?}x{a:08.1(bg=default,bold)s}{a:+(fg=red)s}", a = (ev(0))) }
        (26, 0) => { stylish::plain::format!("{:s}", stylish::format!("x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me())) }
        (26, 1) => { stylish::ansi::format!("x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me()) }
        (26, 2) => { stylish::html::format!("x{0:>3(fg=red)x?}\"{2:08.1(faint,)s}0123456789012345678901234567890123456789012345678901234567890123456789{1:>3(fg=red)s}", [ev(0)][0], std::convert::identity(ev(1)), ev(2).me()) }
        (27, 0) => { stylish::plain::format!("{:s}", stylish::format!(concat!("\"{1:08.1(fg=red)s}é{2:08.1(bg=default", ",bold)?}{{{1:>3s}''", "{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}"), (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) })) }
        (27, 1) => { stylish::ansi::format!(concat!("\"{1:08.1(fg=red)s}é{2:08.1(bg=default", ",bold)?}{{{1:>3s}''", "{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}"), (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) }) }
        (27, 2) => { stylish::html::format!(concat!("\"{1:08.1(fg=red)s}é{2:08.1(bg=default", ",bold)?}{{{1:>3s}''", "{d:08.1b}{0:>3(fg=red)o}\n{d:(bg=default,bold)s}{d:08.1s}"), (|| ev(0))(), ev(1), [ev(2)][0], d = loop { break ev(3) }) }
        (28, 0) => { stylish::plain::format!("{:s}", stylish::format!("a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0))) }
        (28, 1) => { stylish::ansi::format!("a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0)) }
        (28, 2) => { stylish::html::format!("a{{b}}c{0:>3?}{1:08.1(faint,)s}{:(faint,)s}  {0:>3?}\\{:+(fg=red)s}\\n{0:(bg=default,bold)s}{0:(faint,)s}<b>", same!(ev(0)), &P(ev(1).0)) }
        (29, 0) => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); stylish::plain::format!("{:s}", stylish::format!("{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}")) }
        (29, 1) => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); stylish::ansi::format!("{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}") }
        (29, 2) => { let diff = ev(0); let r#loop = ev(1); let x = ev(2); let r = ev(3); let e = ev(4); stylish::html::format!("{diff:>3s}{x:?}{e:o}{loop:#s}[{loop:(fg=red)s}\0{r:(bg=default,bold)b}{r:#}") }
        (30, 0) => { stylish::plain::format!("{:s}", stylish::format!("{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p })) }
        (30, 1) => { stylish::ansi::format!("{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p }) }
        (30, 2) => { stylish::html::format!("{{{0:(faint,)e}é{1:>3(fg=red)s}&amp;{:+(bg=default,bold)s}{2:+?}{:>3(fg=red)s}{2:>3(faint,)x?}{:b}''{2:>3(bg=default,bold)s}{{}}{3:>3(fg=red)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{3:08.1(faint,)x?}{:08.1s}{:08.1(bg=default,bold)s}", P(ev(0).0), &&ev(1), { ev(2) }, P { 0: ev(3).0 }, match ev(4) { p => p }) }
        (31, 0) => { stylish::plain::format!("{:s}", stylish::format!("{0:#?}{:(faint,)s}", loop { break ev(0) })) }
        (31, 1) => { stylish::ansi::format!("{0:#?}{:(faint,)s}", loop { break ev(0) }) }
        (31, 2) => { stylish::html::format!("{0:#?}{:(faint,)s}", loop { break ev(0) }) }
        (32, 0) => { stylish::plain::format!("{:s}", stylish::format!("}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() })) }
        (32, 1) => { stylish::ansi::format!("}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() }) }
        (32, 2) => { stylish::html::format!("}}{0:+(fg=red)s}{{}}{0:>3s}{b:s}{0:s}: {b:08.1(faint,)s}1:", std::convert::identity(ev(0)), b = if let p = ev(1) { p } else { unreachable!() }) }
        (33, 0) => { stylish::plain::format!("{:s}", stylish::format!("\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0))) }
        (33, 1) => { stylish::ansi::format!("\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0)) }
        (33, 2) => { stylish::html::format!("\t{a:>3(bg=default,bold)s}\\n{b:+?} - ", a = { ev(0) }, b = P(ev(1).0)) }
        (34, 0) => { stylish::plain::format!("{:s}", stylish::format!("é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x })) }
        (34, 1) => { stylish::ansi::format!("é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x }) }
        (34, 2) => { stylish::html::format!("é{2:b}\t{:+s}{0:>3(fg=red)s}&{1:+(faint,)s}<b>{1:+b}{2:+s}'q'{2:>3x}&", *ev(0), std::convert::identity(ev(1)), { let x = ev(2); x }) }
        (35, 0) => { let style = ev(0); let r#match = ev(1); stylish::plain::format!("{:s}", stylish::format!("{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}")) }
        (35, 1) => { let style = ev(0); let r#match = ev(1); stylish::ansi::format!("{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}") }
        (35, 2) => { let style = ev(0); let r#match = ev(1); stylish::html::format!("{style:#s}''{match:>3(fg=red)x?}{style:(fg=red)X}''{match:(fg=red)}") }
        (36, 0) => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); stylish::plain::format!("{:s}", stylish::format!("{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}")) }
        (36, 1) => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); stylish::ansi::format!("{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}") }
        (36, 2) => { let formatter = ev(0); let diff = ev(1); let self_ = ev(2); let i = ev(3); stylish::html::format!("{diff:#b}\"{self_:(bg=default,bold)s}{formatter:#x}{i:#(bg=default,bold)b}$0{self_:#E}\r\n{self_:?}  {diff:(fg=red)s}") }
        (37, 0) => { stylish::plain::format!("{:s}", stylish::format!("}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) })) }
        (37, 1) => { stylish::ansi::format!("}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) }) }
        (37, 2) => { stylish::html::format!("}}{:s}<b>{1:>3(bg=default,bold)X}{0:08.1s}\r{0:>3(fg=red)s}{0:(bg=default,bold)s}a{{b}}c{:>3(bg=default,bold)x?}x{:>3(fg=red)s}{1:08.1(fg=red)e}\\n{1:08.1(bg=default,bold)x}1:", &&ev(0), loop { break ev(1) }, { ev(2) }) }
        (38, 0) => { stylish::plain::format!("{:s}", stylish::format!("m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0])) }
        (38, 1) => { stylish::ansi::format!("m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0]) }
        (38, 2) => { stylish::html::format!("m0;1{1:>3s}{1:+s}{:>3(bg=default,bold)s}{3:>3(faint,)E}''{3:08.1(bg=default,bold)x}[{1:(bg=default,bold)o}\n\n{2:08.1e}", &P(ev(0).0), ev(1).me(), same!(ev(2)), [ev(3)][0]) }
        (39, 0) => { stylish::plain::format!("{:s}", stylish::format!("é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2))) }
        (39, 1) => { stylish::ansi::format!("é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2)) }
        (39, 2) => { stylish::html::format!("é{2:(bg=default,bold)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{:+(fg=red)s} - {1:?}{:(faint,)s}{2:+(fg=red)x} - ", if let p = ev(0) { p } else { unreachable!() }, match ev(1) { p => p }, ev(2)) }
        (40, 0) => { stylish::plain::format!("{:s}", stylish::format!("}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3))) }
        (40, 1) => { stylish::ansi::format!("}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3)) }
        (40, 2) => { stylish::html::format!("}}{:>3(fg=red)s}{:(bg=default,bold)x}|{:+(faint,)x?}\n{:+(bg=default,bold)}{{", (|| ev(0))(), ev(1), match ev(2) { p => p }, &*ev(3)) }
        (41, 0) => { stylish::plain::format!("{:s}", stylish::format!("&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x })) }
        (41, 1) => { stylish::ansi::format!("&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x }) }
        (41, 2) => { stylish::html::format!("&{b:+(faint,)s}&amp;{c:+(fg=red)b}\\n{c:+s}'q'{b:(fg=red)s}{d:(fg=red)s} - {a:>3(bg=default,bold)s}{e:08.1(bg=default,bold)E}\"{a:(faint,)s}", a = *ev(0), b = if let p = ev(1) { p } else { unreachable!() }, c = [ev(2)][0], d = ev(3).me(), e = { let x = ev(4); x }) }
        (42, 0) => { let f = ev(0); stylish::plain::format!("{:s}", stylish::format!("{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me())) }
        (42, 1) => { let f = ev(0); stylish::ansi::format!("{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me()) }
        (42, 2) => { let f = ev(0); stylish::html::format!("{f:(fg=red)?}{w:(bg=default,bold)e}a{{b}}c{f:>3(bg=default,bold)x?} - {w:s}{f:(fg=red)s}", w = ev(1).me()) }
        (43, 0) => { let f = ev(0); stylish::plain::format!("{:s}", stylish::format!("  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))())) }
        (43, 1) => { let f = ev(0); stylish::ansi::format!("  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))()) }
        (43, 2) => { let f = ev(0); stylish::html::format!("  {0:o}{{{0:#s}'q'{f:>3(bg=default,bold)x?}a{{b}}c{0:X}", (|| ev(1))()) }
        (44, 0) => { stylish::plain::format!("{:s}", stylish::format!("\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4))) }
        (44, 1) => { stylish::ansi::format!("\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4)) }
        (44, 2) => { stylish::html::format!("\0{:(faint,)?}é{4:(fg=red)s}{1:+(faint,)?}a{{b}}c{3:s}{2:(bg=default,bold)s}\r\n{:s}]{2:08.1(bg=default,bold)s}|", &&ev(0), match ev(1) { p => p }, [ev(2)][0], ev(3), *ev(4)) }
        (45, 0) => { stylish::plain::format!("{:s}", stylish::format!("m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() })) }
        (45, 1) => { stylish::ansi::format!("m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() }) }
        (45, 2) => { stylish::html::format!("m0;1{:o}\"{:#(faint,)?}{:?}", { ev(0) }, (|| ev(1))(), if let p = ev(2) { p } else { unreachable!() }) }
        (46, 0) => { stylish::plain::format!("{:s}", stylish::format!("{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap())) }
        (46, 1) => { stylish::ansi::format!("{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap()) }
        (46, 2) => { stylish::html::format!("{1:(bg=default,bold)?}{0:>3E}m0;1{2:08.1(bg=default,bold)X}", (|| ev(0))(), ev(1) as &P, Some(ev(2)).unwrap()) }
        (47, 0) => { stylish::plain::format!("{:s}", stylish::format!("<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1))) }
        (47, 1) => { stylish::ansi::format!("<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1)) }
        (47, 2) => { stylish::html::format!("<!-- -->{0:(bg=default,bold)x?}{:+E}{0:+(bg=default,bold)b}m0;1{:x?}x", *ev(0), ev(1)) }
        (48, 0) => { stylish::plain::format!("{:s}", stylish::format!("{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P)) }
        (48, 1) => { stylish::ansi::format!("{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P) }
        (48, 2) => { stylish::html::format!("{0:+o}'q'{0:s}\u{feff}{:08.1s}'q'", ev(0) as &P) }
        (49, 0) => { stylish::plain::format!("{:s}", stylish::format!("{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1))) }
        (49, 1) => { stylish::ansi::format!("{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1)) }
        (49, 2) => { stylish::html::format!("{1:>3s}{1:(bg=default,bold)s}{0:>3(bg=default,bold)b}\\n{1:(bg=default,bold)e}m0;1{1:s}\\", *ev(0), *ev(1)) }
        (50, 0) => { stylish::plain::format!("{:s}", stylish::format!("\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2))) }
        (50, 1) => { stylish::ansi::format!("\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2)) }
        (50, 2) => { stylish::html::format!("\u{feff}{:s}<b>{:>3s}{:>3o}", match ev(0) { p => p }, Some(ev(1)).unwrap(), &&ev(2)) }
        (51, 0) => { stylish::plain::format!("{:s}", stylish::format!("1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() })) }
        (51, 1) => { stylish::ansi::format!("1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() }) }
        (51, 2) => { stylish::html::format!("1:{0:s}{3:#(bg=default,bold)?}\t{2:>3x?}$0{1:+(fg=red)s}", (ev(0),).0, match ev(1) { p => p }, ev(2).me(), if let p = ev(3) { p } else { unreachable!() }) }
        (52, 0) => { stylish::plain::format!("{:s}", stylish::format!(concat!("\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0"), &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P)) }
        (52, 1) => { stylish::ansi::format!(concat!("\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0"), &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P) }
        (52, 2) => { stylish::html::format!(concat!("\t{0:(fg=red)x?}{:>3X}{0:08.1(faint,)s}  {:X}{1:}{:(faint,)e}{2:+s}#;{3:+s}\n\n{3:>3(fg=red)x?}{{{4:#(bg=default,bold)?}%%{:(faint,)s}{3:+s}{3:>3(fg=red)s}&amp;{:+x?}|{5:>3(bg=default,bold)}m0;1{:(fg=red)s}{4:08.1s}  {:(faint,)s}{8:>3(fg=red)X}\"{:(fg=red)s}{7:>3(bg=default,bold)s}{:(fg=red)s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{10:s}{:08.1(bg=default,bold)e}{10:08.1s}{:08.1(fg=red)s}\u{feff}{12:08.1(bg=default,bold)x?}\u{feff}{10:+s}{:>3s}{{}}{:>3(fg=red)x}{:>3(bg=default,bold)x?}x{:08.1s}{:#?}\0"), &&ev(0), &&ev(1), (ev(2)), Some(ev(3)).unwrap(), (|| ev(4))(), { let x = ev(5); x }, loop { break ev(6) }, ev(7) as &P, { let x = ev(8); x }, P(ev(9).0), ev(10), &*ev(11), (ev(12)), ev(13) as &P, *ev(14), ev(15) as &P) }
        (53, 0) => { stylish::plain::format!("{:s}", stylish::format!("\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() })) }
        (53, 1) => { stylish::ansi::format!("\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() }) }
        (53, 2) => { stylish::html::format!("\u{feff}{9:>3(fg=red)x?}&{1:(faint,)s}{10:08.1(faint,)s}\t{8:(fg=red)e}[{5:+(bg=default,bold)s}{3:(faint,)s}a{{b}}c{2:08.1s}\r\n{4:08.1o}: {8:>3(faint,)s}\\n{7:x?}{6:>3s}{8:>3(bg=default,bold)o}{{{1:(faint,)s}\t{0:08.1(fg=red)s}", Some(ev(0)).unwrap(), { let x = ev(1); x }, P { 0: ev(2).0 }, (|| ev(3))(), ev(4), Some(ev(5)).unwrap(), ev(6), { let x = ev(7); x }, Some(ev(8)).unwrap(), ev(9) as &P, if let p = ev(10) { p } else { unreachable!() }) }
        (54, 0) => { stylish::plain::format!("{:s}", stylish::format!("{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) })) }
        (54, 1) => { stylish::ansi::format!("{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) }) }
        (54, 2) => { stylish::html::format!("{:>3E}  {:+e}é{:(bg=default,bold)s}x{:+(bg=default,bold)s}{:(bg=default,bold)X}''", P(ev(0).0), { ev(1) }, (|| ev(2))(), ev(3).me(), loop { break ev(4) }) }
        (55, 0) => { let inner = ev(0); let arg = ev(1); stylish::plain::format!("{:s}", stylish::format!("{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me())) }
        (55, 1) => { let inner = ev(0); let arg = ev(1); stylish::ansi::format!("{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me()) }
        (55, 2) => { let inner = ev(0); let arg = ev(1); stylish::html::format!("{arg:#(fg=red)X}{{}}{r:>3s}&{inner:>3o}{0:#(fg=red)}{r:E}", { ev(2) }, r = ev(3).me()) }
        (56, 0) => { stylish::plain::format!("{:s}", stylish::format!("%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0))) }
        (56, 1) => { stylish::ansi::format!("%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0)) }
        (56, 2) => { stylish::html::format!("%%{0:>3(fg=red)E}{1:?} - ", *ev(0), &P(ev(1).0)) }
        (57, 0) => { stylish::plain::format!("{:s}", stylish::format!("{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5))) }
        (57, 1) => { stylish::ansi::format!("{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5)) }
        (57, 2) => { stylish::html::format!("{:08.1(bg=default,bold)s}{:+(bg=default,bold)o} - {:+s}{:+s}{:+(faint,)s}{:08.1o}", ev(0) as &P, [ev(1)][0], &*ev(2), ev(3).me(), { let x = ev(4); x }, &&ev(5)) }
        (58, 0) => { let x = ev(0); stylish::plain::format!("{:s}", stylish::format!("　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}")) }
        (58, 1) => { let x = ev(0); stylish::ansi::format!("　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}") }
        (58, 2) => { let x = ev(0); stylish::html::format!("　{x:>3(fg=red)?}\\n{x:(fg=red)s}{x:(bg=default,bold)b}{x:#x?}") }
        (59, 0) => { stylish::plain::format!("{:s}", stylish::format!(concat!("x{", ":", ">3X}"), P(ev(0).0))) }
        (59, 1) => { stylish::ansi::format!(concat!("x{", ":", ">3X}"), P(ev(0).0)) }
        (59, 2) => { stylish::html::format!(concat!("x{", ":", ">3X}"), P(ev(0).0)) }
        _ => unreachable!(),
    }
}

/// The site each of those is.
pub static ONE: [usize; N_ONE] = [208, 204, 287, 121, 13, 94, 224, 303, 305, 87, 160, 143, 307, 219, 75, 220, 98, 65, 278, 225, 302, 188, 304, 46, 279, 37, 29, 60, 133, 291, 6, 178, 140, 138, 137, 274, 297, 130, 185, 48, 199, 96, 270, 281, 99, 163, 179, 218, 85, 135, 72, 109, 247, 245, 25, 283, 181, 248, 295, 210];
