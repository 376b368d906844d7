//! Oracles that read back what the adaptors wrote: a terminal emulator, an
//! HTML reader, and the identity for plain text. All are fed byte by byte, so
//! a stream may be cut anywhere.

use stylish::{Color, Intensity, Style};

pub const COLORS: [Color; 17] = [
    Color::Default,
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
    Color::White,
    Color::BrightBlack,
    Color::BrightRed,
    Color::BrightGreen,
    Color::BrightYellow,
    Color::BrightBlue,
    Color::BrightMagenta,
    Color::BrightCyan,
    Color::BrightWhite,
];
pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];

/// Model style: indices into COLORS / INTENSITIES. 0,0,0 is the default.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct MS {
    pub fg: u8,
    pub bg: u8,
    pub it: u8,
}
impl MS {
    pub fn real(self) -> Style {
        let mut s = Style::default();
        s.foreground = COLORS[self.fg as usize];
        s.background = COLORS[self.bg as usize];
        s.intensity = INTENSITIES[self.it as usize];
        s
    }
    pub fn of(s: Style) -> MS {
        MS {
            fg: COLORS.iter().position(|&c| c == s.foreground).unwrap() as u8,
            bg: COLORS.iter().position(|&c| c == s.background).unwrap() as u8,
            it: INTENSITIES.iter().position(|&c| c == s.intensity).unwrap() as u8,
        }
    }
    pub fn code(self) -> u64 {
        (self.fg as u64) << 16 | (self.bg as u64) << 8 | self.it as u64
    }
    pub fn vis(self) -> Vis {
        Vis {
            fg: self.fg,
            bg: self.bg,
            bold: self.it == 1,
            faint: self.it == 2,
        }
    }
}

/// What a viewer sees. Bold and faint are separate, as they are on terminals.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Vis {
    pub fg: u8,
    pub bg: u8,
    pub bold: bool,
    pub faint: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Cell {
    pub byte: u8,
    pub vis: Vis,
}
impl std::fmt::Debug for Cell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.byte as char)?;
        if self.vis != Vis::default() {
            write!(f, "<{},{}", self.vis.fg, self.vis.bg)?;
            if self.vis.bold {
                write!(f, ",bold")?;
            }
            if self.vis.faint {
                write!(f, ",faint")?;
            }
            write!(f, ">")?;
        }
        Ok(())
    }
}

pub fn show(cells: &[Cell]) -> String {
    let mut out = String::from("\"");
    let mut i = 0;
    while i < cells.len() {
        let v = cells[i].vis;
        let mut j = i;
        let mut buf = Vec::new();
        while j < cells.len() && cells[j].vis == v {
            buf.push(cells[j].byte);
            j += 1;
        }
        if v != Vis::default() {
            out.push_str(&format!(
                "<fg{} bg{}{}{}>",
                v.fg,
                v.bg,
                if v.bold { " bold" } else { "" },
                if v.faint { " faint" } else { "" }
            ));
        } else if i > 0 {
            out.push_str("<default>");
        }
        let t: String = String::from_utf8_lossy(&buf).escape_debug().collect();
        if t.len() > 80 {
            let mut a = 60;
            while !t.is_char_boundary(a) {
                a += 1;
            }
            out.push_str(&t[..a]);
            out.push_str(&format!("..({} bytes)", buf.len()));
        } else {
            out.push_str(&t);
        }
        i = j;
        if out.len() > 600 {
            out.push_str("...");
            break;
        }
    }
    out.push('"');
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ansi,
    Html,
    Plain,
}

#[derive(Clone)]
enum P {
    Ground,
    // ANSI
    Esc,
    Csi(Vec<u8>),
    // HTML
    Tag(Vec<u8>),
    Ent(Vec<u8>),
}

#[derive(Clone)]
pub struct Screen {
    pub kind: Kind,
    p: P,
    pub pen: Vis,
    stack: Vec<Vis>,
    pub cells: Vec<Cell>,
    pub bad: Option<String>,
    /// A cut sequence was abandoned by the start of a new one.
    pub restarts: u32,
}

impl Screen {
    pub fn new(kind: Kind) -> Screen {
        Screen {
            kind,
            p: P::Ground,
            pen: Vis::default(),
            stack: Vec::new(),
            cells: Vec::new(),
            bad: None,
            restarts: 0,
        }
    }
    pub fn ground(&self) -> bool {
        matches!(self.p, P::Ground)
    }
    pub fn depth(&self) -> usize {
        self.stack.len()
    }
    fn fail(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(format!("{m} (after {} characters)", self.cells.len()));
        }
    }
    pub fn feed(&mut self, b: &[u8]) {
        for &c in b {
            match self.kind {
                Kind::Plain => self.put(c),
                Kind::Ansi => self.ansi(c),
                Kind::Html => self.html(c),
            }
        }
    }
    fn put(&mut self, byte: u8) {
        self.cells.push(Cell {
            byte,
            vis: self.pen,
        });
    }
    fn ansi(&mut self, c: u8) {
        match std::mem::replace(&mut self.p, P::Ground) {
            P::Ground => {
                if c == 0x1b {
                    self.p = P::Esc
                } else {
                    self.put(c)
                }
            }
            P::Esc => match c {
                b'[' => self.p = P::Csi(Vec::new()),
                0x1b => self.p = P::Esc,
                c => self.fail(format!("ESC followed by {:?}", c as char)),
            },
            P::Csi(mut buf) => match c {
                0x1b => {
                    self.restarts += 1;
                    self.p = P::Esc;
                }
                b'0'..=b';' => {
                    buf.push(c);
                    self.p = P::Csi(buf);
                }
                b'm' => self.sgr(&buf),
                c => self.fail(format!(
                    "escape sequence ESC[{} swallowed {:?}",
                    String::from_utf8_lossy(&buf),
                    c as char
                )),
            },
            _ => unreachable!(),
        }
    }
    fn sgr(&mut self, buf: &[u8]) {
        let text = String::from_utf8_lossy(buf).into_owned();
        for part in text.split(';') {
            let n: u32 = if part.is_empty() {
                0
            } else {
                match part.parse() {
                    Ok(n) => n,
                    Err(_) => return self.fail(format!("bad SGR parameter {part:?}")),
                }
            };
            match n {
                0 => self.pen = Vis::default(),
                1 => self.pen.bold = true,
                2 => self.pen.faint = true,
                22 => {
                    self.pen.bold = false;
                    self.pen.faint = false
                }
                30..=37 => self.pen.fg = (n - 30 + 1) as u8,
                39 => self.pen.fg = 0,
                40..=47 => self.pen.bg = (n - 40 + 1) as u8,
                49 => self.pen.bg = 0,
                90..=97 => self.pen.fg = (n - 90 + 9) as u8,
                100..=107 => self.pen.bg = (n - 100 + 9) as u8,
                n => return self.fail(format!("unexpected SGR parameter {n}")),
            }
        }
    }
    fn html(&mut self, c: u8) {
        match std::mem::replace(&mut self.p, P::Ground) {
            P::Ground => match c {
                b'<' => self.p = P::Tag(Vec::new()),
                b'&' => self.p = P::Ent(Vec::new()),
                b'>' => self.fail("unescaped '>' in text".into()),
                b'"' | b'\'' => self.fail("unescaped quote in text".into()),
                c => self.put(c),
            },
            P::Tag(mut buf) => match c {
                b'>' => self.tag(&buf),
                b'<' | b'&' | b'\n' => self.fail(format!(
                    "broken tag <{}{}",
                    String::from_utf8_lossy(&buf),
                    c as char
                )),
                c => {
                    buf.push(c);
                    if buf.len() > 200 {
                        return self.fail("runaway tag".into());
                    }
                    self.p = P::Tag(buf);
                }
            },
            P::Ent(mut buf) => match c {
                b';' => {
                    let name = String::from_utf8_lossy(&buf).into_owned();
                    let ch = match name.as_str() {
                        "amp" => Some('&'),
                        "lt" => Some('<'),
                        "gt" => Some('>'),
                        "quot" => Some('"'),
                        "apos" => Some('\''),
                        n => n
                            .strip_prefix("#x")
                            .or(n.strip_prefix("#X"))
                            .and_then(|h| u32::from_str_radix(h, 16).ok())
                            .or(n.strip_prefix('#').and_then(|d| d.parse().ok()))
                            .and_then(char::from_u32),
                    };
                    match ch {
                        Some(ch) => {
                            let mut b = [0; 4];
                            for &x in ch.encode_utf8(&mut b).as_bytes() {
                                self.put(x);
                            }
                        }
                        None => self.fail(format!("unknown character reference &{name};")),
                    }
                }
                c if c.is_ascii_alphanumeric() || c == b'#' => {
                    buf.push(c);
                    if buf.len() > 12 {
                        return self.fail("unescaped '&' in text".into());
                    }
                    self.p = P::Ent(buf);
                }
                _ => self.fail("unescaped '&' in text".into()),
            },
            _ => unreachable!(),
        }
    }
    fn tag(&mut self, buf: &[u8]) {
        let t = String::from_utf8_lossy(buf).into_owned();
        if t == "/span" {
            match self.stack.pop() {
                Some(v) => self.pen = v,
                None => self.fail("</span> without an open span".into()),
            }
            return;
        }
        let Some(rest) = t.strip_prefix("span") else {
            return self.fail(format!("unexpected tag <{t}>"));
        };
        self.stack.push(self.pen);
        let rest = rest.trim();
        if rest.is_empty() {
            return;
        }
        let Some(mut css) = rest.strip_prefix("style=") else {
            return self.fail(format!("unexpected attribute in <{t}>"));
        };
        let quoted = css.len() >= 2
            && (css.starts_with('"') && css.ends_with('"')
                || css.starts_with('\'') && css.ends_with('\''));
        if quoted {
            css = &css[1..css.len() - 1];
        } else if css.contains([' ', '"', '\'', '=', '`']) || css.is_empty() {
            return self.fail(format!("bad unquoted attribute value in <{t}>"));
        }
        // Values of the enclosing span: what `inherit` means.
        let outer = self.pen;
        for decl in css.split(';') {
            let decl = decl.trim();
            if decl.is_empty() && quoted {
                continue;
            }
            let Some((k, v)) = decl.split_once(':') else {
                return self.fail(format!("bad declaration in <{t}>"));
            };
            let (k, v) = (k.trim(), v.trim());
            match k {
                "color" | "background-color" => {
                    let val = match v {
                        "inherit" if k == "color" => Some(outer.fg),
                        "inherit" => Some(outer.bg),
                        v => css_color(v),
                    };
                    match (val, k) {
                        (Some(x), "color") => self.pen.fg = x,
                        (Some(x), _) => self.pen.bg = x,
                        (None, _) => return self.fail(format!("unknown color {v:?}")),
                    }
                }
                "font-weight" => match v {
                    "bolder" | "bold" => (self.pen.bold, self.pen.faint) = (true, false),
                    "lighter" => (self.pen.bold, self.pen.faint) = (false, true),
                    "inherit" => (self.pen.bold, self.pen.faint) = (outer.bold, outer.faint),
                    "normal" => (self.pen.bold, self.pen.faint) = (false, false),
                    v => return self.fail(format!("unknown font-weight {v:?}")),
                },
                k => return self.fail(format!("unexpected property {k:?}")),
            }
        }
    }
}

fn css_color(v: &str) -> Option<u8> {
    Some(match v {
        "black" | "#000" | "#000000" => 1,
        "red" => 2,
        "green" => 3,
        "yellow" => 4,
        "blue" => 5,
        "magenta" => 6,
        "cyan" => 7,
        "white" => 8,
        "gray" => 9,
        "#af0000" => 10,
        "#00ff00" => 11,
        "#ffff00" => 12,
        "#0000ff" => 13,
        "#ff00ff" => 14,
        "#00ffff" => 15,
        "#ffffff" => 16,
        _ => return None,
    })
}
