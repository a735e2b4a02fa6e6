//! Textual LLVM IR: modules are indexed eagerly, function bodies parsed on first use.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("field of scalar {:?}", self),
        }
    }
    pub fn fields(&self) -> Option<usize> {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => Some(*n as usize),
            Ty::Struct(f, _) => Some(f.len()),
            _ => None,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            t => panic!("bits of {:?}", t),
        }
    }
}

/// Constants as written.
#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, C)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, C)>),
    /// getelementptr with its base and constant offset terms
    Gep(Ty, Box<C>, Vec<(Ty, C)>),
    Cast(Box<(Ty, C)>),
    Bin(String, Box<(Ty, C)>, Box<(Ty, C)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opnd {
    R(u32),
    /// constant number in the function's table
    K(u32),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // index in Func::names
    Indirect(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(&'static str, Ty, Opnd, Opnd),
    Fneg(Ty, Opnd),
    Icmp(&'static str, Ty, Opnd, Opnd),
    Fcmp(&'static str, Ty, Opnd, Opnd),
    Cast(&'static str, Ty, Opnd, Ty),
    Select(Ty, Opnd, Opnd, Opnd, bool),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    /// base + constant + sum operand(bits) * scale
    Gep(Opnd, u64, Vec<(Opnd, u16, u64)>),
    Alloca(Ty, Opnd, u16),
    Call(Callee, Vec<(Ty, Opnd)>, Ty, bool),
    Extract(Ty, Opnd, Vec<u32>),
    Insert(Ty, Opnd, Opnd, Vec<u32>),
    ExtractEl(Ty, Opnd, Opnd, u16),
    InsertEl(Ty, Opnd, Opnd, Opnd, u16),
    Shuffle(Ty, Opnd, Opnd, Opnd, usize),
    Copy(Opnd),
    AtomicRmw(&'static str, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Instr {
    pub dst: u32, // u32::MAX: none
    pub op: Op,
    pub dbg: u32,
}

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub code: Vec<Instr>,
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, C)>,
    pub names: Vec<String>,
    pub sp: u32,
}

pub struct FuncDecl {
    pub body: Option<(usize, usize)>, // lines
    pub noreturn: bool,
}

pub struct Global {
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub path: String,
    pub lines: Vec<String>,
    pub funcs: HashMap<String, FuncDecl>,
    pub globals: HashMap<String, Global>,
    pub aliases: HashMap<String, String>,
    pub local: std::collections::HashSet<String>,
    pub types: HashMap<String, Ty>,
    /// attribute groups that say noreturn
    pub noreturn_groups: std::collections::HashSet<String>,
    pub meta: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Num(String),
    Local(String),
    Global(String),
    Meta(String),
    Attr(String),
    Str(String),
    CStr(Vec<u8>),
    P(char),
    End,
}

pub struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex {
            s: s.as_bytes(),
            i: 0,
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at the opening quote
        self.i += 1;
        let mut r = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    r.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    r.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                r.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        r
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let a = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
        }
    }
    pub fn next(&mut self) -> Tok {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if !self.s[self.i..].starts_with(b"/*") {
                break;
            }
            // a comment within the line
            self.i += 2;
            while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                self.i += 1;
            }
            self.i = (self.i + 2).min(self.s.len());
        }
        if self.i >= self.s.len() || self.s[self.i] == b';' {
            return Tok::End;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                Tok::Meta(self.name())
            }
            b'#' => {
                self.i += 1;
                Tok::Attr(self.name())
            }
            b'"' => Tok::Str(String::from_utf8_lossy(&self.quoted()).into_owned()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let a = self.i;
                self.i += 1;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric()
                        || self.s[self.i] == b'.'
                        || (self.s[self.i] == b'+' || self.s[self.i] == b'-')
                            && self.s[self.i - 1] == b'e')
                {
                    self.i += 1;
                }
                Tok::Num(String::from_utf8_lossy(&self.s[a..self.i]).into_owned())
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let a = self.i;
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Id(String::from_utf8_lossy(&self.s[a..self.i]).into_owned())
            }
            b'.' => {
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i] == b'.' {
                    self.i += 1;
                }
                Tok::Id("...".into())
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn all(mut self) -> Vec<Tok> {
        let mut v = vec![];
        loop {
            let t = self.next();
            if t == Tok::End {
                return v;
            }
            v.push(t);
        }
    }
}

pub struct Par<'m> {
    t: Vec<Tok>,
    i: usize,
    types: &'m HashMap<String, Ty>,
}

const VALUE_WORDS: &[&str] = &[
    "null", "true", "false", "undef", "poison", "zeroinitializer", "none", "getelementptr",
    "ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "trunc", "add", "sub", "xor", "splat", "asm", "addrspacecast",
    "dso_local_equivalent", "no_cfi", "blockaddress",
];

impl<'m> Par<'m> {
    fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::End)
    }
    fn peek2(&self) -> &Tok {
        self.t.get(self.i + 1).unwrap_or(&Tok::End)
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == s)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?} in {:?}", c, self.peek(), self.t))
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => return,
                _ => {}
            }
        }
    }

    fn is_ty(&self) -> bool {
        match self.peek() {
            Tok::Id(s) => {
                matches!(
                    s.as_str(),
                    "void" | "float" | "double" | "ptr" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128"
                ) || s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit())
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }

    fn ty(&mut self) -> Result<Ty, String> {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                s if s.starts_with('i') => match s[1..].parse() {
                    Ok(w) => Ty::Int(w),
                    Err(_) => return Err(format!("type {}", s)),
                },
                _ => Ty::Other,
            },
            Tok::P('[') => {
                let n = self.int()?;
                self.next(); // x
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eat('}') {
                    f.push(self.ty()?);
                    self.eat(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    while !self.eat('}') {
                        f.push(self.ty()?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int()?;
                    self.next();
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            Tok::Local(n) => self
                .types
                .get(&n)
                .cloned()
                .ok_or_else(|| format!("unknown type %{}", n))?,
            t => return Err(format!("type expected at {:?}", t)),
        };
        Ok(t)
    }

    fn int(&mut self) -> Result<u128, String> {
        match self.next() {
            Tok::Num(s) => parse_int(&s),
            t => Err(format!("number expected: {:?}", t)),
        }
    }

    fn skip_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Id(s) => {
                    if VALUE_WORDS.contains(&s.as_str()) || s.starts_with("f0x") {
                        return;
                    }
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Tok::Num(_)) {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }

    /// attributes in front of a type
    fn skip_ret_attrs(&mut self) {
        while !self.is_ty() {
            match self.peek().clone() {
                Tok::Id(s) => {
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Tok::Num(_)) {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }

    fn constant(&mut self, ty: &Ty) -> Result<C, String> {
        Ok(match self.next() {
            Tok::Num(s) => match ty {
                Ty::F64 | Ty::F32 => {
                    if s.ends_with("nan") {
                        // +qnan, -qnan, +nan(0x..), +snan(0x..): quiet bit, payload, sign
                        let mut payload = 0u128;
                        if self.is_p('(') {
                            self.expect('(')?;
                            match self.next() {
                                Tok::Num(h) => payload = parse_int(&h)? as u128,
                                t => return Err(format!("nan payload: {:?}", t)),
                            }
                            self.expect(')')?;
                        }
                        let quiet = !s.contains("snan");
                        let sign = s.starts_with('-');
                        return Ok(C::Int(if *ty == Ty::F32 {
                            0x7f80_0000 | payload | (quiet as u128) << 22 | (sign as u128) << 31
                        } else {
                            0x7ff0_0000_0000_0000 | payload | (quiet as u128) << 51 | (sign as u128) << 63
                        }));
                    }
                    let v: f64 = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        s.parse().map_err(|_| format!("float {}", s))?
                    };
                    if *ty == Ty::F32 {
                        C::Int((v as f32).to_bits() as u128)
                    } else {
                        C::Int(v.to_bits() as u128)
                    }
                }
                _ => C::Int(parse_int(&s)?),
            },
            Tok::Id(s) if s.starts_with("f0x") => {
                C::Int(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?)
            }
            Tok::Id(s) => match s.as_str() {
                "true" => C::Int(1),
                "false" => C::Int(0),
                "null" => C::Int(0),
                "undef" | "poison" => C::Undef,
                "zeroinitializer" | "none" => C::Zero,
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.expect(')')?;
                    C::Splat(Box::new((t, v)))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        let w = self.next();
                        if let Tok::Id(s) = w {
                            if s == "inrange" && self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    let b = self.constant(&pt)?;
                    let mut ix = vec![];
                    while self.eat(',') {
                        self.eat_id("inrange");
                        let t = self.ty()?;
                        let v = self.constant(&t)?;
                        ix.push((t, v));
                    }
                    self.expect(')')?;
                    C::Gep(t, Box::new(b), ix)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.eat_id("to");
                    self.ty()?;
                    self.expect(')')?;
                    C::Cast(Box::new((t, v)))
                }
                "add" | "sub" | "xor" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let v2 = self.constant(&t2)?;
                    self.expect(')')?;
                    C::Bin(s, Box::new((t, v)), Box::new((t2, v2)))
                }
                _ => return Err(format!("constant {}", s)),
            },
            Tok::Global(g) => C::Global(g),
            Tok::CStr(b) => C::Bytes(b),
            Tok::P('[') => {
                let v = self.const_list(']')?;
                C::Agg(v)
            }
            Tok::P('{') => {
                let v = self.const_list('}')?;
                C::Agg(v)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let v = self.const_list('}')?;
                    self.expect('>')?;
                    C::Agg(v)
                } else {
                    let v = self.const_list('>')?;
                    C::Agg(v)
                }
            }
            t => return Err(format!("constant expected: {:?}", t)),
        })
    }

    fn const_list(&mut self, end: char) -> Result<Vec<(Ty, C)>, String> {
        let mut v = vec![];
        while !self.eat(end) {
            let t = self.ty()?;
            let c = self.constant(&t)?;
            v.push((t, c));
            self.eat(',');
        }
        Ok(v)
    }
}

fn parse_int(s: &str) -> Result<u128, String> {
    if let Some(r) = s.strip_prefix('-') {
        r.parse::<u128>()
            .map(|v| v.wrapping_neg())
            .map_err(|e| format!("{} {}", s, e))
    } else {
        s.parse::<u128>().map_err(|e| format!("{} {}", s, e))
    }
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read(path).map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&text).into_owned();
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            path: path.into(),
            lines: vec![],
            funcs: Default::default(),
            globals: Default::default(),
            aliases: Default::default(),
            local: Default::default(),
            types: Default::default(),
            noreturn_groups: Default::default(),
            meta: Default::default(),
        };
        // named types first
        for _ in 0..3 {
            for l in &lines {
                if l.starts_with('%') {
                    if let Some(p) = l.find(" = type ") {
                        let name = match Lex::new(&l[..p]).next() {
                            Tok::Local(n) => n,
                            _ => continue,
                        };
                        let mut par = Par {
                            t: Lex::new(&l[p + 8..]).all(),
                            i: 0,
                            types: &m.types,
                        };
                        if let Ok(t) = par.ty() {
                            m.types.insert(name, t);
                        }
                    }
                }
            }
        }
        for l in &lines {
            if l.starts_with("attributes #") {
                if l.contains(" noreturn ") {
                    let n = l[12..].split(' ').next().unwrap().to_string();
                    m.noreturn_groups.insert(n);
                }
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = find_name(l).ok_or_else(|| format!("no name: {}", l))?;
                let mut lx = Lex::new(&l[at..]);
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    _ => return Err(l.clone()),
                };
                if l.starts_with("declare ") {
                    let noreturn = m.groups_noreturn(l);
                    m.funcs.insert(
                        name,
                        FuncDecl {
                            body: None,
                            noreturn,
                        },
                    );
                } else {
                    if l.starts_with("define internal ") || l.starts_with("define private ") {
                        m.local.insert(name.clone());
                    }
                    let start = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    let noreturn = m.groups_noreturn(&lines[start]);
                    m.funcs.insert(
                        name,
                        FuncDecl {
                            body: Some((start, i)),
                            noreturn,
                        },
                    );
                }
            } else if l.starts_with('@') {
                m.global(l).map_err(|e| format!("{}: {} in {}", path, e, l))?;
            } else if l.starts_with('!') {
                let mut k = 1;
                let b = l.as_bytes();
                while k < b.len() && b[k].is_ascii_digit() {
                    k += 1;
                }
                if k > 1 && l[k..].starts_with(" = ") {
                    let n: u32 = l[1..k].parse().unwrap();
                    if l.contains("!DI") {
                        m.meta.insert(n, l[k + 3..].to_string());
                    }
                }
            }
            i += 1;
        }
        m.lines = lines;
        Ok(m)
    }

    fn groups_noreturn(&self, l: &str) -> bool {
        let end = l.rfind(')').unwrap_or(0);
        let mut r = false;
        for t in Lex::new(&l[end + 1..]).all() {
            if let Tok::Attr(a) = t {
                r |= self.noreturn_groups.contains(&a);
            }
        }
        r
    }

    fn global(&mut self, l: &str) -> Result<(), String> {
        let t = Lex::new(l).all();
        let types = self.types.clone();
        let mut p = Par {
            t,
            i: 0,
            types: &types,
        };
        let name = match p.next() {
            Tok::Global(n) => n,
            t => return Err(format!("{:?}", t)),
        };
        p.expect('=')?;
        let mut external = false;
        let mut tls = false;
        let constant;
        loop {
            match p.next() {
                Tok::Id(s) => match s.as_str() {
                    "private" | "internal" => {
                        self.local.insert(name.clone());
                    }
                    "external" | "extern_weak" => external = true,
                    "thread_local" => {
                        tls = true;
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                    "addrspace" => p.skip_parens(),
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "alias" => {
                        // alias type, ptr @target
                        loop {
                            let t = p.next();
                            match t {
                                Tok::Global(g) => {
                                    self.aliases.insert(name, g);
                                    return Ok(());
                                }
                                Tok::End => return Err("alias".into()),
                                _ => {}
                            }
                        }
                    }
                    _ => {
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                },
                t => return Err(format!("{:?}", t)),
            }
        }
        let ty = p.ty()?;
        let init = if external {
            None
        } else {
            Some(p.constant(&ty)?)
        };
        self.globals.insert(
            name,
            Global {
                ty,
                init,
                constant,
                tls,
            },
        );
        Ok(())
    }

    pub fn parse_func(&self, mi: usize, name: &str) -> Result<Func, String> {
        let (a, b) = self.funcs[name].body.unwrap();
        let mut regs: HashMap<String, u32> = Default::default();
        let mut f = Func {
            name: name.to_string(),
            module: mi,
            nregs: 0,
            params: vec![],
            blocks: vec![],
            consts: vec![],
            names: vec![],
            sp: 0,
        };
        // header
        {
            let l = &self.lines[a];
            let at = find_name(l).unwrap();
            let t = Lex::new(&l[at..]).all();
            let mut p = Par {
                t,
                i: 1,
                types: &self.types,
            };
            p.expect('(')?;
            let mut n = 0;
            while !p.eat(')') {
                if p.is_id("...") {
                    p.i += 1;
                    continue;
                }
                p.ty()?;
                p.skip_attrs();
                let nm = match p.peek().clone() {
                    Tok::Local(s) => {
                        p.i += 1;
                        s
                    }
                    _ => format!("{}", n),
                };
                let r = regs.len() as u32;
                regs.insert(nm, r);
                f.params.push(r);
                n += 1;
                p.eat(',');
            }
            // !dbg
            while *p.peek() != Tok::End {
                if let Tok::Meta(s) = p.next() {
                    if s == "dbg" {
                        if let Tok::Meta(k) = p.next() {
                            f.sp = k.parse().unwrap_or(0);
                        }
                    }
                }
            }
        }
        // blocks and register names
        let mut labels: HashMap<String, u32> = Default::default();
        let mut stmts: Vec<(usize, Vec<String>)> = vec![];
        let mut i = a + 1;
        while i < b {
            let l = &self.lines[i];
            let tl = l.trim();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let nm = if l.starts_with('"') {
                    String::from_utf8_lossy(&Lex::new(l).quoted()).into_owned()
                } else {
                    l[..l.find(':').ok_or_else(|| format!("label? {}", l))?].to_string()
                };
                labels.insert(nm, stmts.len() as u32);
                stmts.push((i, vec![]));
            } else {
                if stmts.is_empty() {
                    labels.insert("\0entry".into(), 0);
                    stmts.push((i, vec![]));
                }
                let mut s = tl.to_string();
                if s.starts_with("switch ") && !s.contains(']') {
                    loop {
                        i += 1;
                        s.push(' ');
                        s.push_str(self.lines[i].trim());
                        if self.lines[i].trim().starts_with(']') {
                            break;
                        }
                    }
                }
                stmts.last_mut().unwrap().1.push(s);
            }
            i += 1;
        }
        for (_, v) in &stmts {
            for s in v {
                if s.starts_with('%') {
                    if let Some(k) = s.find(" = ") {
                        if let Tok::Local(n) = Lex::new(&s[..k]).next() {
                            let r = regs.len() as u32;
                            regs.entry(n).or_insert(r);
                        }
                    }
                }
            }
        }
        f.nregs = regs.len() as u32;
        for (_, v) in stmts {
            let mut blk = Block::default();
            for s in v {
                let mut fp = FuncPar {
                    p: Par {
                        t: Lex::new(&s).all(),
                        i: 0,
                        types: &self.types,
                    },
                    f: &mut f,
                    regs: &regs,
                    labels: &labels,
                    m: self,
                };
                fp.stmt(&mut blk).map_err(|e| format!("{}: {}\n  in {}", name, e, s))?;
            }
            f.blocks.push(blk);
        }
        Ok(f)
    }

    fn attr_str(&self, n: u32, key: &str) -> Option<String> {
        let s = self.meta.get(&n)?;
        let k = s.find(&format!("{}: ", key))?;
        // key must start a word
        let r = &s[k + key.len() + 2..];
        if r.starts_with('"') {
            Some(r[1..].split('"').next()?.to_string())
        } else {
            Some(r.split([',', ')']).next()?.to_string())
        }
    }
    fn attr_ref(&self, n: u32, key: &str) -> Option<u32> {
        self.attr_str(n, key)?.strip_prefix('!')?.parse().ok()
    }
    /// (function, file, line) of a location
    pub fn locate(&self, loc: u32) -> Option<(String, String, u32)> {
        let line = self.attr_str(loc, "line")?.parse().ok()?;
        let mut sc = self.attr_ref(loc, "scope")?;
        for _ in 0..64 {
            let s = self.meta.get(&sc)?;
            if s.contains("!DISubprogram(") {
                let link = self
                    .attr_str(sc, "linkageName")
                    .or_else(|| self.attr_str(sc, "name"))?;
                let file = self.attr_ref(sc, "file")?;
                return Some((link, self.file(file)?, line));
            }
            sc = self.attr_ref(sc, "scope")?;
        }
        None
    }
    pub fn file(&self, f: u32) -> Option<String> {
        let n = self.attr_str(f, "filename")?;
        if n.starts_with('/') {
            Some(n)
        } else {
            Some(format!("{}/{}", self.attr_str(f, "directory")?, n))
        }
    }
    pub fn inlined_at(&self, loc: u32) -> Option<u32> {
        self.attr_ref(loc, "inlinedAt")
    }
}

/// position of the '@name' of a define / declare
fn find_name(l: &str) -> Option<usize> {
    let b = l.as_bytes();
    let mut i = 0;
    let mut q = false;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b'@' if !q => return Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}

struct FuncPar<'a, 'm> {
    p: Par<'m>,
    f: &'a mut Func,
    regs: &'a HashMap<String, u32>,
    labels: &'a HashMap<String, u32>,
    m: &'m Module,
}

fn intern(s: &str) -> &'static str {
    use std::cell::RefCell;
    thread_local!(static T: RefCell<HashMap<String, &'static str>> = Default::default());
    T.with(|t| {
        *t.borrow_mut()
            .entry(s.to_string())
            .or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
    })
}

impl FuncPar<'_, '_> {
    fn k(&mut self, t: Ty, c: C) -> Opnd {
        self.f.consts.push((t, c));
        Opnd::K(self.f.consts.len() as u32 - 1)
    }
    fn val(&mut self, t: &Ty) -> Result<Opnd, String> {
        if let Tok::Local(n) = self.p.peek().clone() {
            self.p.i += 1;
            return self
                .regs
                .get(&n)
                .map(|r| Opnd::R(*r))
                .ok_or_else(|| format!("register %{}", n));
        }
        let c = self.p.constant(t)?;
        Ok(self.k(t.clone(), c))
    }
    fn tv(&mut self) -> Result<(Ty, Opnd), String> {
        let t = self.p.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> Result<u32, String> {
        // label %x
        if !self.p.eat_id("label") {
            return Err("label".into());
        }
        match self.p.next() {
            Tok::Local(n) => self.block(&n),
            t => Err(format!("{:?}", t)),
        }
    }
    fn block(&self, n: &str) -> Result<u32, String> {
        if let Some(b) = self.labels.get(n) {
            return Ok(*b);
        }
        // the unnamed entry block
        if self.labels.contains_key("\0entry") {
            return Ok(0);
        }
        Err(format!("label %{}", n))
    }

    fn stmt(&mut self, blk: &mut Block) -> Result<(), String> {
        let mut dst = u32::MAX;
        if let (Tok::Local(n), Tok::P('=')) = (self.p.peek().clone(), self.p.peek2().clone()) {
            dst = self.regs[&n];
            self.p.i += 2;
        }
        let w = match self.p.next() {
            Tok::Id(s) => s,
            t => return Err(format!("instruction? {:?}", t)),
        };
        let save = self.p.i;
        if w == "phi" {
            while !self.p.is_ty() {
                self.p.i += 1;
            }
            let t = self.p.ty()?;
            let mut inc = vec![];
            loop {
                self.p.expect('[')?;
                let v = self.val(&t)?;
                self.p.expect(',')?;
                let b = match self.p.next() {
                    Tok::Local(n) => self.block(&n)?,
                    t => return Err(format!("{:?}", t)),
                };
                self.p.expect(']')?;
                inc.push((b, v));
                if !(self.p.is_p(',') && *self.p.peek2() == Tok::P('[')) {
                    break;
                }
                self.p.i += 1;
            }
            blk.phis.push((dst, inc));
            return Ok(());
        }
        let op = match self.op(&w) {
            Ok(op) => op,
            Err(e) => Op::Unsupported(format!("{}: {}", w, e)),
        };
        let mut dbg = 0;
        for k in save..self.p.t.len() {
            if self.p.t[k] == Tok::Meta("dbg".into()) {
                if let Some(Tok::Meta(n)) = self.p.t.get(k + 1) {
                    dbg = n.parse().unwrap_or(0);
                }
            }
        }
        blk.code.push(Instr { dst, op, dbg });
        Ok(())
    }

    fn skip_words(&mut self) {
        // flags before a type
        while !self.p.is_ty() {
            if self.p.is_p('(') {
                self.p.skip_parens();
            } else if *self.p.peek() == Tok::End {
                return;
            } else {
                self.p.i += 1;
            }
        }
    }

    fn op(&mut self, w: &str) -> Result<Op, String> {
        Ok(match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words();
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let b = self.val(&t)?;
                Op::Bin(intern(w), t, a, b)
            }
            "fneg" => {
                self.skip_words();
                let (t, a) = self.tv()?;
                Op::Fneg(t, a)
            }
            "icmp" | "fcmp" => {
                let mut pred = String::new();
                while !self.p.is_ty() {
                    if let Tok::Id(s) = self.p.next() {
                        pred = s;
                    } else {
                        return Err("predicate".into());
                    }
                }
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let b = self.val(&t)?;
                if w == "icmp" {
                    Op::Icmp(intern(&pred), t, a, b)
                } else {
                    Op::Fcmp(intern(&pred), t, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                self.skip_words();
                let (t, a) = self.tv()?;
                if !self.p.eat_id("to") {
                    return Err("to".into());
                }
                let t2 = self.p.ty()?;
                Op::Cast(intern(w), t, a, t2)
            }
            "select" => {
                self.skip_words();
                let (tc, c) = self.tv()?;
                self.p.expect(',')?;
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let (_, b) = self.tv()?;
                Op::Select(t, c, a, b, matches!(tc, Ty::Vec(..)))
            }
            "load" => {
                self.skip_words();
                let t = self.p.ty()?;
                self.p.expect(',')?;
                let (_, a) = self.tv()?;
                Op::Load(t, a)
            }
            "store" => {
                self.skip_words();
                let (t, v) = self.tv()?;
                self.p.expect(',')?;
                let (_, a) = self.tv()?;
                Op::Store(t, v, a)
            }
            "getelementptr" => {
                self.skip_words();
                let t = self.p.ty()?;
                self.p.expect(',')?;
                let pt = self.p.ty()?;
                if pt != Ty::Ptr {
                    return Err("vector of pointers".into());
                }
                let base = self.val(&pt)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while self.p.eat(',') {
                    if matches!(self.p.peek(), Tok::Meta(_)) {
                        break;
                    }
                    let it = self.p.ty()?;
                    let c = match self.p.peek() {
                        Tok::Num(s) => Some(parse_int(s)?),
                        _ => None,
                    };
                    let v = self.val(&it)?;
                    if first {
                        first = false;
                        match c {
                            Some(k) => {
                                off = off.wrapping_add((k as u64).wrapping_mul(cur.size()))
                            }
                            None => terms.push((v, it.bits(), cur.size())),
                        }
                    } else {
                        let next;
                        match c {
                            Some(k) => {
                                if let Ty::Struct(..) = cur {
                                    off = off.wrapping_add(cur.field_offset(k as usize));
                                    next = cur.field(k as usize).clone();
                                } else {
                                    let e = cur.field(0).clone();
                                    off = off.wrapping_add((k as u64).wrapping_mul(e.size()));
                                    next = e;
                                }
                            }
                            None => {
                                let e = cur.field(0).clone();
                                terms.push((v, it.bits(), e.size()));
                                next = e;
                            }
                        }
                        cur = next;
                    }
                }
                Op::Gep(base, off, terms)
            }
            "alloca" => {
                self.skip_words();
                let t = self.p.ty()?;
                if self.p.is_p(',') && !matches!(self.p.peek2(), Tok::Id(s) if s == "align" || s == "addrspace")
                    && !matches!(self.p.peek2(), Tok::Meta(_))
                {
                    self.p.i += 1;
                    let (nt, n) = self.tv()?;
                    Op::Alloca(t, n, nt.bits())
                } else {
                    let n = self.k(Ty::Int(64), C::Int(1));
                    Op::Alloca(t, n, 64)
                }
            }
            "tail" | "musttail" | "notail" | "call" => {
                // up to the return type
                let mut k = self.p.i;
                while k < self.p.t.len() && !matches!(&self.p.t[k], Tok::Global(_)) {
                    k += 1;
                }
                self.p.skip_ret_attrs();
                let rt = self.p.ty()?;
                if self.p.is_p('(') {
                    self.p.skip_parens();
                }
                let callee = match self.p.next() {
                    Tok::Global(n) => {
                        self.f.names.push(n);
                        Callee::Direct(self.f.names.len() as u32 - 1)
                    }
                    Tok::Local(n) => Callee::Indirect(Opnd::R(
                        *self.regs.get(&n).ok_or_else(|| format!("%{}", n))?,
                    )),
                    Tok::Id(s) if s == "asm" => {
                        while !self.p.is_p('(') {
                            self.p.i += 1;
                        }
                        Callee::Asm
                    }
                    Tok::Id(s) if s == "inttoptr" || s == "getelementptr" => {
                        return Err(format!("callee {}", s))
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                self.p.expect('(')?;
                let mut args = vec![];
                while !self.p.eat(')') {
                    let t = self.p.ty()?;
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match self.p.peek() {
                                Tok::P('(') | Tok::P('{') => d += 1,
                                Tok::P(')') | Tok::P('}') if d > 0 => d -= 1,
                                Tok::P(')') => break,
                                Tok::P(',') if d == 0 => break,
                                Tok::End => return Err("metadata".into()),
                                _ => {}
                            }
                            self.p.i += 1;
                        }
                        self.p.eat(',');
                        continue;
                    }
                    self.p.skip_attrs();
                    let v = self.val(&t)?;
                    args.push((t, v));
                    self.p.eat(',');
                }
                let mut noret = false;
                loop {
                    let t = self.p.next();
                    match t {
                        Tok::Attr(a) => noret |= self.m.noreturn_groups.contains(&a),
                        Tok::End => break,
                        _ => {}
                    }
                }
                Op::Call(callee, args, rt, noret)
            }
            "extractvalue" => {
                let (t, a) = self.tv()?;
                let mut ix = vec![];
                while self.p.eat(',') {
                    if let Tok::Num(_) = self.p.peek() {
                        ix.push(self.p.int()? as u32);
                    } else {
                        break;
                    }
                }
                Op::Extract(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let (_, b) = self.tv()?;
                let mut ix = vec![];
                while self.p.eat(',') {
                    if let Tok::Num(_) = self.p.peek() {
                        ix.push(self.p.int()? as u32);
                    } else {
                        break;
                    }
                }
                Op::Insert(t, a, b, ix)
            }
            "extractelement" => {
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let (it, i) = self.tv()?;
                Op::ExtractEl(t, a, i, it.bits())
            }
            "insertelement" => {
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let (_, v) = self.tv()?;
                self.p.expect(',')?;
                let (it, i) = self.tv()?;
                Op::InsertEl(t, a, v, i, it.bits())
            }
            "shufflevector" => {
                let (t, a) = self.tv()?;
                self.p.expect(',')?;
                let (_, b) = self.tv()?;
                self.p.expect(',')?;
                let (mt, m) = self.tv()?;
                Op::Shuffle(t, a, b, m, mt.fields().unwrap())
            }
            "freeze" => {
                let (_, a) = self.tv()?;
                Op::Copy(a)
            }
            "atomicrmw" => {
                self.p.eat_id("volatile");
                let o = match self.p.next() {
                    Tok::Id(s) => s,
                    _ => return Err("op".into()),
                };
                let (_, a) = self.tv()?;
                self.p.expect(',')?;
                let (t, v) = self.tv()?;
                Op::AtomicRmw(intern(&o), t, a, v)
            }
            "cmpxchg" => {
                self.skip_words();
                let (_, a) = self.tv()?;
                self.p.expect(',')?;
                let (t, e) = self.tv()?;
                self.p.expect(',')?;
                let (_, n) = self.tv()?;
                Op::CmpXchg(t, a, e, n)
            }
            "fence" => Op::Fence,
            "br" => {
                if self.p.is_id("label") {
                    Op::Br(self.label()?)
                } else {
                    let (_, c) = self.tv()?;
                    self.p.expect(',')?;
                    let a = self.label()?;
                    self.p.expect(',')?;
                    let b = self.label()?;
                    Op::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv()?;
                self.p.expect(',')?;
                let d = self.label()?;
                self.p.expect('[')?;
                let mut cases = vec![];
                while !self.p.eat(']') {
                    let ct = self.p.ty()?;
                    let k = match self.p.next() {
                        Tok::Num(s) => parse_int(&s)?,
                        Tok::Id(s) if s == "true" => 1,
                        Tok::Id(s) if s == "false" => 0,
                        t => return Err(format!("case {:?}", t)),
                    } & crate::expr::mask(ct.bits());
                    self.p.expect(',')?;
                    cases.push((k, self.label()?));
                }
                Op::Switch(t, v, d, cases)
            }
            "ret" => {
                let t = self.p.ty()?;
                if t == Ty::Void {
                    Op::Ret(None)
                } else {
                    let v = self.val(&t)?;
                    Op::Ret(Some(v))
                }
            }
            "unreachable" => Op::Unreachable,
            _ => return Err("unknown instruction".into()),
        })
    }
}
