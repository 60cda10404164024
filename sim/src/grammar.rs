//! A generator of (mostly) well-formed symbols which reaches every production of the mangling.

use crate::prng::Prng;

const NAMES: &[&str] = &[
    "a", "b", "c", "foo", "Bar", "std", "vector", "ns", "x1", "_T", "operand", "na\u{ef}ve",
    "\u{6570}\u{636e}", "\u{1f980}", "allocator", "a_rather_long_identifier_for_a_class", "endsin>", "op<",
];

/// Every operator that has a code and needs no more than its code.
const BASIC: &[u8] = b"23456789ACDEFGHIJKLMNOPQRSTUVWXYZ";
const UNDER: &[u8] = b"0123456DEFGHIJKLMNOTUV";
const DOUBLE: &[u8] = b"ABCDGHILM";

pub struct Grammar<'a> {
    r: &'a mut Prng,
    depth: usize,
    /// what can be referred back to
    names: Vec<String>,
    types: usize,
    /// numbers are whatever can be spelt
    wild: bool,
}

impl<'a> Grammar<'a> {
    pub fn new(r: &'a mut Prng) -> Self {
        Self { r, depth: 0, names: Vec::new(), types: 0, wild: false }
    }

    /// One whose numbers are hostile.
    pub fn wild(r: &'a mut Prng) -> Self {
        Self { wild: true, ..Self::new(r) }
    }

    /// A name which is not remembered.
    fn plain(&mut self) -> String {
        format!("{}@", self.r.pick(NAMES))
    }

    fn known(&mut self, s: String) -> String {
        if !self.names.contains(&s) {
            self.names.push(s.clone());
        }
        s
    }

    fn name(&mut self) -> String {
        let s = self.plain();
        self.known(s)
    }

    /// A reference to a name, or just a name.
    fn name_again(&mut self) -> String {
        let n = if self.r.one_in(60) { 10 } else { self.names.len().min(10) };
        if n == 0 {
            self.name()
        } else {
            self.r.below(n).to_string()
        }
    }

    fn operator(&mut self) -> String {
        match self.r.below(8) {
            0..=3 => format!("?{}", char::from(*self.r.pick(BASIC))),
            4 | 5 => format!("?_{}", char::from(*self.r.pick(UNDER))),
            6 => format!("?__{}", char::from(*self.r.pick(DOUBLE))),
            _ => format!("?__K{}", self.plain()),
        }
    }

    /// What a template may be called.
    fn template(&mut self) -> String {
        let head = match self.r.below(8) {
            0..=2 => self.operator(),
            3 => self.r.pick::<&str>(&["?0", "?1", "?B"]).to_string(),
            _ => String::new(),
        };
        self.instance(&head)
    }

    /// A template with its own references; its name is drawn if empty.
    fn instance(&mut self, head: &str) -> String {
        let outer = (std::mem::take(&mut self.names), std::mem::take(&mut self.types));
        let s = self.bare_instance(head);
        (self.names, self.types) = outer;
        s
    }

    fn bare_instance(&mut self, head: &str) -> String {
        self.depth += 1;
        let n = if self.r.one_in(8) { 0 } else { self.r.range(1, 3) };
        let head = if head.is_empty() { self.name() } else { head.to_owned() };
        let mut s = format!("?${head}");
        for _ in 0..n {
            s.push_str(&self.targ());
        }
        s.push('@');
        self.depth -= 1;
        s
    }

    /// A template as types and scopes use it: no structors.
    fn class_template(&mut self) -> String {
        let head = match self.r.below(10) {
            0 => self.operator(),
            _ => String::new(),
        };
        let s = self.instance(&head);
        self.known(s)
    }

    /// A piece of the scope.
    fn scope(&mut self) -> String {
        match self.r.below(14) {
            0 | 1 if self.depth < 3 => self.class_template(),
            2 => self.name_again(),
            3 => {
                let s = (*self.r.pick(&["?A0x1234abcd@", "?A@", "?A0xdeadbeef@"])).to_owned();
                self.known(s)
            }
            4 if self.depth < 2 => {
                self.depth += 1;
                let n = match self.r.below(4) {
                    0 => "@".to_owned(),
                    1 => "BA@".to_owned(),
                    2 => "BCDP@".to_owned(),
                    _ => self.r.below(10).to_string(),
                };
                let s = format!("?{n}?{}", self.symbol());
                self.depth -= 1;
                s
            }
            _ => self.name(),
        }
    }

    fn scopes(&mut self) -> String {
        let n = *self.r.pick(&[0, 0, 1, 1, 2, 3]);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(&self.scope());
        }
        s + "@"
    }

    /// The name of a type.
    fn qualified(&mut self) -> String {
        let head = match self.r.below(8) {
            0 if self.depth < 3 => self.class_template(),
            1 => self.name_again(),
            _ => self.name(),
        };
        head + &self.scopes()
    }

    /// The name of a variable or function.
    fn symbol_name(&mut self) -> String {
        let head = match self.r.below(12) {
            0 | 1 if self.depth < 4 => self.template(),
            2 => self.name_again(),
            3 | 4 => self.operator(),
            _ => self.name(),
        };
        head + &self.scopes()
    }

    fn targ(&mut self) -> String {
        let deep = self.depth > 3;
        match self.r.below(26) {
            0..=2 => format!("$0{}", self.number()),
            3 => (*self.r.pick(&["$S", "$$V", "$$$V", "$$Z"])).to_owned(),
            4 if !deep => format!("$1{}", self.referred()),
            5 if !deep => {
                let k = *self.r.pick(&['H', 'I', 'J']);
                let n = match k {
                    'H' => 1,
                    'I' => 2,
                    _ => 3,
                };
                let s = if self.r.one_in(4) { String::new() } else { self.referred() };
                let o: String = (0..n).map(|_| self.signed()).collect();
                format!("${k}{s}{o}")
            }
            6 if !deep => format!("$E{}", self.referred()),
            7 => format!("$F{}{}", self.signed(), self.signed()),
            8 => format!("$G{}{}{}", self.signed(), self.signed(), self.signed()),
            9 if !deep => format!("$$Y{}", self.qualified()),
            10 => format!("$$B{}", self.ty()),
            11 => format!("$$C{}{}", self.cv(), self.ty()),
            12 if !deep => {
                let t = self.ty();
                match self.r.below(5) {
                    0 => format!("$M{t}1{}", self.referred()),
                    1 => format!("$M{t}H{}{}", self.referred(), self.signed()),
                    2 => format!("$M{t}F{}{}", self.signed(), self.signed()),
                    3 => format!("$M{t}G{}{}{}", self.signed(), self.signed(), self.signed()),
                    _ => format!("$M{t}0{}", self.number()),
                }
            }
            13 => format!("$M{}0{}", self.ty(), self.number()),
            14 => (*self.r.pick(&["$1", "$H0", "$$BY01H", "$$BY0A@CBD"])).to_owned(),
            _ => self.ty(),
        }
    }

    /// A symbol an argument refers to.
    fn referred(&mut self) -> String {
        self.depth += 1;
        let s = match self.r.below(6) {
            0 => "?x@@3HA".to_owned(),
            1 => "?f@@YAXXZ".to_owned(),
            2 => "?m@c@@QEAAXXZ".to_owned(),
            _ => self.symbol(),
        };
        self.depth -= 1;
        s
    }

    fn number(&mut self) -> String {
        if self.wild && self.r.one_in(2) {
            return crate::gen::number(self.r);
        }
        match self.r.below(6) {
            0 => "A@".into(),
            1 => self.r.below(10).to_string(),
            2 => format!("?{}", self.r.below(10)),
            3 => (*self.r.pick(&["PPPPPPPPPPPPPPPP@", "?IAAAAAAA@", "IAAAAAAAAAAAAAAA@", "?HPPPPPPPPPPPPPPP@", "PPPPPPPP@", "@"])).into(),
            _ => {
                let n = self.r.range(1, 6);
                let mut s: String = (0..n).map(|_| (b'A' + self.r.below(16) as u8) as char).collect();
                s.push('@');
                s
            }
        }
    }

    /// A number that fits in 32 bits, with its sign.
    fn signed(&mut self) -> String {
        if self.wild && self.r.one_in(3) {
            return crate::gen::number(self.r);
        }
        match self.r.below(5) {
            0 => "A@".into(),
            1 => format!("?{}", self.r.below(10)),
            2 => self.small(),
            3 => (*self.r.pick(&["PPPPPPPM@", "HPPPPPPP@", "?IAAAAAAA@", "?0"])).into(),
            _ => self.r.below(10).to_string(),
        }
    }

    /// A small one without.
    fn small(&mut self) -> String {
        if self.wild && self.r.one_in(3) {
            return crate::gen::number(self.r);
        }
        match self.r.below(3) {
            0 => "A@".into(),
            1 => self.r.below(10).to_string(),
            _ => format!("{}{}@", *self.r.pick(&['B', 'C', 'P']), *self.r.pick(&['A', 'B', 'P'])),
        }
    }

    fn cv(&mut self) -> char {
        *self.r.pick(&['A', 'A', 'A', 'B', 'C', 'D'])
    }

    fn member_cv(&mut self) -> char {
        *self.r.pick(&['Q', 'Q', 'Q', 'R', 'S', 'T'])
    }

    fn ext(&mut self) -> &'static str {
        *self.r.pick(&["", "", "E", "E", "E", "EI", "I", "F", "EIF", "IF"])
    }

    fn conv(&mut self) -> char {
        if self.r.one_in(12) {
            // unused codes
            return *self.r.pick(&['K', 'L', 'R', 'T', 'U', 'V', 'X', 'Z']);
        }
        *self.r.pick(&['A', 'A', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'M', 'N', 'O', 'P', 'Q', 'S', 'W'])
    }

    /// A function's type from its calling convention on.
    fn function(&mut self) -> String {
        let c = self.conv();
        let t = match self.r.below(10) {
            0 => "@".to_owned(),
            1..=3 => "X".to_owned(),
            4 => format!("?{}{}", self.cv(), self.ty()),
            5 => (*self.r.pick(&["_P", "_T"])).to_owned(),
            _ => self.ty(),
        };
        format!("{c}{t}{}", self.params())
    }

    /// The same for a function with a `this`.
    fn member(&mut self) -> String {
        let (e, r, c) = (self.ext(), *self.r.pick(&["", "", "", "G", "H"]), self.cv());
        format!("{e}{r}{c}{}", self.function())
    }

    fn params(&mut self) -> String {
        let throw = if self.r.one_in(6) { "_E" } else { "Z" };
        if self.r.one_in(4) {
            return format!("X{throw}");
        }
        let mut s = String::new();
        for _ in 0..self.r.range(1, 4) {
            if self.types > 0 && self.r.one_in(4) {
                let n = if self.r.one_in(60) { 10 } else { self.types.min(10) };
                s.push_str(&self.r.below(n).to_string());
            } else {
                let mut t = self.ty();
                if t == "X" && s.is_empty() {
                    // that would be the whole list
                    t = "H".into();
                }
                if t.chars().count() > 1 {
                    self.types += 1;
                }
                s.push_str(&t);
            }
        }
        s.push(if self.r.one_in(6) { 'Z' } else { '@' });
        s + throw
    }

    pub fn ty(&mut self) -> String {
        self.depth += 1;
        let k = if self.depth > 5 { 0 } else { self.r.below(20) };
        let s = match k {
            0..=4 => (*self.r.pick(&[
                "D", "C", "E", "F", "G", "H", "I", "J", "K", "M", "N", "O", "_J", "_K", "_N", "_W", "_S", "_U", "_Q", "X", "$$T",
            ]))
            .to_owned(),
            5 | 6 => {
                let p = *self.r.pick(&['P', 'P', 'Q', 'R', 'S', 'A']);
                let (e, c, t) = (self.ext(), self.cv(), self.ty());
                format!("{p}{e}{c}{t}")
            }
            7 => {
                let (e, c, t) = (self.ext(), self.cv(), self.ty());
                format!("$$Q{e}{c}{t}")
            }
            8 | 9 => {
                let t = *self.r.pick(&['V', 'U', 'T']);
                format!("{t}{}", self.qualified())
            }
            10 => format!("W4{}", self.qualified()),
            11 | 12 => {
                let p = *self.r.pick(&["P", "P", "P", "Q", "R", "S", "A", "$$Q"]);
                format!("{p}6{}", self.function())
            }
            13 | 14 => {
                let p = *self.r.pick(&["P", "P", "P", "Q", "R", "S"]);
                let q = self.qualified();
                format!("{p}8{q}{}", self.member())
            }
            15 => {
                let p = *self.r.pick(&['P', 'P', 'Q', 'R', 'S']);
                let (e, c, q) = (self.ext(), self.member_cv(), self.qualified());
                format!("{p}{e}{c}{q}{}", self.ty())
            }
            16 => {
                let (e, c) = (self.ext(), self.cv());
                let p = *self.r.pick(&["P", "Q", "A", "$$Q"]);
                format!("{p}{e}{c}{}", self.array())
            }
            17 => self.array(),
            18 => match self.r.below(3) {
                0 => format!("P{}A$$A6{}", self.ext(), self.function()),
                1 => format!("$$A6{}", self.function()),
                _ => format!("$$A8@@{}", self.member()),
            },
            _ => match self.r.below(3) {
                0 => format!("?{}@", self.name()),
                1 if self.depth < 4 => format!("?{}@", self.class_template()),
                _ => format!("?{}@", self.name_again()),
            },
        };
        self.depth -= 1;
        s
    }

    fn array(&mut self) -> String {
        let n = self.r.range(1, 3);
        let dims: String = (0..n).map(|_| self.small()).collect();
        let rank = if self.wild && self.r.one_in(2) { crate::gen::number(self.r) } else { (n - 1).to_string() };
        let q = match self.r.below(5) {
            0 => format!("$$C{}", self.cv()),
            _ => String::new(),
        };
        format!("Y{rank}{dims}{q}{}", self.ty())
    }

    /// What follows a variable's name.
    fn variable(&mut self) -> String {
        let k = self.r.below(5);
        match self.r.below(8) {
            0 => {
                // a pointer to member names the class again
                let q = self.name();
                let (e, c) = (self.ext(), self.member_cv());
                format!("{k}P{e}{c}{q}@{}{e}{c}{q}@", self.ty())
            }
            1 => {
                let q = self.name();
                let m = self.member();
                format!("{k}P8{q}@{m}{}{}{q}@", self.ext(), self.member_cv())
            }
            _ => {
                let t = self.ty();
                let pointer = t.starts_with("$$Q") || t.starts_with(['P', 'Q', 'R', 'S', 'A']);
                let e = if pointer { self.ext() } else { "" };
                format!("{k}{t}{e}{}", self.cv())
            }
        }
    }

    /// What follows a function's name.
    fn encoding(&mut self) -> String {
        let extern_c = if self.r.one_in(12) { "$$J0" } else { "" };
        let s = match self.r.below(16) {
            0 => "9".to_owned(),
            1 => {
                let f = *self.r.pick(&['C', 'D', 'K', 'L', 'S', 'T']);
                format!("{f}{}", self.function())
            }
            2..=5 => {
                let f = *self.r.pick(&['A', 'B', 'E', 'F', 'I', 'J', 'M', 'N', 'Q', 'R', 'U', 'V']);
                format!("{f}{}", self.member())
            }
            6 => {
                let f = *self.r.pick(&['G', 'H', 'O', 'P', 'W', 'X']);
                format!("{f}{}{}", self.signed(), self.member())
            }
            7 => {
                let f = self.r.below(6);
                format!("${f}{}{}{}", self.signed(), self.signed(), self.member())
            }
            8 => {
                let f = self.r.below(6);
                let o: String = (0..4).map(|_| self.signed()).collect();
                format!("$R{f}{o}{}", self.member())
            }
            9 => format!("Z{}", self.function()),
            _ => format!("Y{}", self.function()),
        };
        format!("{extern_c}{s}")
    }

    fn literal(&mut self) -> String {
        let wide = self.r.one_in(3);
        let n = if self.r.one_in(2) { self.r.below(33) } else { *self.r.pick(&[0, 1, 2, 5, 7, 15, 31, 32, 40]) };
        let unit = if wide { 2 } else { *self.r.pick(&[1, 1, 1, 2, 4]) };
        let mut body = String::new();
        let nulls = self.r.one_in(3).then(|| self.r.range(1, 6));
        for i in 0..n {
            let end = i + 1 == n || nulls.is_some_and(|k| self.r.one_in(k));
            let c = if end { "?$AA".to_owned() } else { self.literal_byte() };
            if wide {
                body.push_str("?$AA");
                body.push_str(&c);
            } else {
                body.push_str(&c);
                for _ in 1..unit {
                    body.push_str("?$AA");
                }
            }
        }
        let len = match self.r.below(4) {
            // longer than what is there
            0 if self.r.one_in(2) => n * unit + 2 * self.r.range(1, 40),
            // so long that only its first bytes are there, of units of any size
            0 => (n * unit).max(32).next_multiple_of(4) + 4 * self.r.below(20),
            1 => n * unit + self.r.below(2),
            _ => n * unit,
        }
        .max(unit);
        let digits = if len <= 10 {
            (len - 1).to_string()
        } else {
            let hex = format!("{len:x}");
            hex.bytes().map(|c| char::from(b'A' + (c as char).to_digit(16).unwrap() as u8)).collect::<String>() + "@"
        };
        let crc: String = (0..8).map(|_| char::from(b'A' + self.r.below(16) as u8)).collect();
        format!("??_C@_{}{digits}{crc}@{body}@", u8::from(wide))
    }

    fn literal_byte(&mut self) -> String {
        match self.r.below(8) {
            0 => format!("?{}", self.r.below(10)),
            1 => format!("?{}", char::from(b'a' + self.r.below(26) as u8)),
            2 => format!("?{}", char::from(b'A' + self.r.below(26) as u8)),
            3 => {
                // the ones that print as escapes
                let c = *self.r.pick(&[0u8, 7, 8, 9, 10, 11, 12, 13, 0x22, 0x27, 0x5c, 0x7f, 0x1b, 0xff]);
                format!("?${}{}", char::from(b'A' + c / 16), char::from(b'A' + c % 16))
            }
            4 => format!("?${}{}", char::from(b'A' + self.r.below(16) as u8), char::from(b'A' + self.r.below(16) as u8)),
            _ => (*self.r.pick(&["a", "b", "Z", "0", "9", "\"", "'", "\\", "<", ">", "_", " ", "%"])).to_owned(),
        }
    }

    pub fn symbol(&mut self) -> String {
        match self.r.below(24) {
            0 | 1 => {
                let op = self.operator();
                let (q, e) = (self.scopes(), self.encoding());
                format!("?{op}{q}{e}")
            }
            2 => {
                // constructors and destructors have a class and no type
                let (c, q, k) = (self.scope(), self.scopes(), self.r.below(2));
                let f = *self.r.pick(&['Q', 'A', 'I', 'U', 'E', 'M']);
                format!("??{k}{c}{q}{f}{}{}{}@{}", self.ext(), self.cv(), self.conv(), self.params())
            }
            3 => {
                let (q, f) = (self.scopes(), *self.r.pick(&['Q', 'A', 'I', 'U']));
                let (e, c, v, t) = (self.ext(), self.cv(), self.conv(), self.ty());
                if self.r.one_in(3) {
                    let i = self.instance("?B");
                    format!("?{i}{q}{f}{e}{c}{v}{t}XZ")
                } else {
                    format!("??Bk@{q}{f}{e}{c}{v}{t}XZ")
                }
            }
            4 | 5 => {
                let k = *self.r.pick(&["_7", "_8", "_R4", "_S"]);
                let (q, n, c) = (self.qualified(), *self.r.pick(&['6', '7']), self.cv());
                let target = if self.r.one_in(2) { self.qualified() } else { "@".into() };
                format!("??{k}{q}{n}{c}{target}")
            }
            6 => {
                let t = match self.r.below(3) {
                    0 => self.ty(),
                    _ => format!("?{}{}", self.cv(), self.ty()),
                };
                format!("??_R0{t}@8")
            }
            7 => {
                let (a, b, c, d) = (self.small(), self.signed(), self.small(), self.small());
                format!("??_R1{a}{b}{c}{d}{}8", self.qualified())
            }
            8 => format!("??_R{}{}8", self.r.range(2, 3), self.qualified()),
            9 => format!(".?{}{}", self.cv(), self.ty()),
            10 => "??@0123456789abcdef0123456789abcdef@".to_owned() + self.r.pick::<&str>(&["", "??_R4@", "x"]),
            11 | 12 => self.literal(),
            13 => {
                let (q, n, c) = (self.qualified(), self.small(), self.conv());
                format!("??_9{q}$B{n}A{c}")
            }
            14 => {
                let k = *self.r.pick(&["_B", "__J"]);
                let q = self.qualified();
                let v = *self.r.pick(&["4IA", "5"]);
                let n = if self.r.one_in(2) { self.small() } else { String::new() };
                format!("??{k}{q}{v}{n}")
            }
            15 => {
                let k = *self.r.pick(&["E", "F"]);
                match self.r.below(3) {
                    0 => format!("??__{k}?{}{}@@YAXXZ", self.symbol_name(), self.variable()),
                    1 => format!("??__{k}{}{}@YAXXZ", self.symbol_name(), self.variable()),
                    _ => format!("??__{k}{}{}", self.symbol_name(), self.encoding()),
                }
            }
            16 => {
                let (q, e) = (self.template() + &self.scopes(), self.encoding());
                format!("?{q}{e}")
            }
            17..=19 => format!("?{}{}", self.symbol_name(), self.variable()),
            _ => format!("?{}{}", self.symbol_name(), self.encoding()),
        }
    }
}
