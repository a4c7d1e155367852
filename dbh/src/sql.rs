//! Enough of SQL to tell what a statement does.
#![allow(dead_code)]

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Word(String),
    Ident(String),
    Str(Vec<u8>),
    Num(String),
    Hex(Vec<u8>),
    Param,
    P(char),
}

/// What stands for a value in a statement.
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Null,
    Int(i128),
    /// Anything written with a point or exponent
    Dec(String),
    F32(u32),
    F64(u64),
    Bytes(Vec<u8>),
    Date(u16, u8, u8),
    Datetime(u16, u8, u8, u8, u8, u8, u32),
    /// Microseconds
    Time(i64),
    Param(usize),
    Call(String),
    Default,
    Col(ColRef),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ColRef {
    pub table: Option<String>,
    pub name: String,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Join {
    pub table: String,
    pub alias: String,
    pub on: (ColRef, ColRef),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stmt {
    Select { items: Vec<Val>, from: Option<(Option<String>, String, String)>, joins: Vec<Join>, conds: Vec<(ColRef, Val)>, order: Vec<(String, bool)>, limit: usize },
    Insert { table: String, rows: Vec<Vec<(String, Val)>> },
    Update { table: String, set: Vec<(String, Val)>, conds: Vec<(ColRef, Val)> },
    Delete { table: String, conds: Vec<(ColRef, Val)> },
    Create { table: String, lenient: bool, columns: Vec<String>, unique: Vec<Vec<String>> },
    /// First word and the rest
    Other(String, Vec<Tok>),
}

/// As the server's lexer in its default mode.
pub fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let hexv = |h: &str| -> Result<Vec<u8>, String> {
        let h = if h.len() % 2 == 1 { format!("0{h}") } else { h.to_string() };
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())).collect()
    };
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '`' || x == '"' || x == '\'' {
            let mut t = String::new();
            i += 1;
            loop {
                if i >= c.len() {
                    return Err(format!("{x} is not closed"));
                }
                if c[i] == x {
                    if c.get(i + 1) == Some(&x) {
                        t.push(x);
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                if x != '`' && c[i] == '\\' {
                    i += 1;
                    let e = *c.get(i).ok_or("backslash at the end")?;
                    match e {
                        '0' => t.push('\0'),
                        'b' => t.push('\x08'),
                        'n' => t.push('\n'),
                        'r' => t.push('\r'),
                        't' => t.push('\t'),
                        'Z' => t.push('\x1a'),
                        e => t.push(e),
                    }
                    i += 1;
                    continue;
                }
                t.push(c[i]);
                i += 1;
            }
            out.push(if x == '`' { Tok::Ident(t) } else { Tok::Str(t.into_bytes()) });
        } else if (x == 'x' || x == 'X') && c.get(i + 1) == Some(&'\'') {
            let end = (i + 2..c.len()).find(|j| c[*j] == '\'').ok_or("x' is not closed")?;
            out.push(Tok::Hex(hexv(&c[i + 2..end].iter().collect::<String>())?));
            i = end + 1;
        } else if x.is_ascii_digit() {
            let mut j = i;
            if x == '0' && matches!(c.get(i + 1), Some('x')) {
                j += 2;
                while j < c.len() && c[j].is_ascii_hexdigit() {
                    j += 1;
                }
                out.push(Tok::Hex(hexv(&c[i + 2..j].iter().collect::<String>())?));
            } else {
                while j < c.len() && (c[j].is_ascii_digit() || c[j] == '.') {
                    j += 1;
                }
                if j < c.len() && (c[j] == 'e' || c[j] == 'E') {
                    j += 1;
                    if j < c.len() && (c[j] == '-' || c[j] == '+') {
                        j += 1;
                    }
                    while j < c.len() && c[j].is_ascii_digit() {
                        j += 1;
                    }
                }
                out.push(Tok::Num(c[i..j].iter().collect()));
            }
            i = j;
        } else if x.is_alphanumeric() || x == '_' || x == '$' || x == '@' {
            let mut j = i;
            while j < c.len() && (c[j].is_alphanumeric() || matches!(c[j], '_' | '$' | '@')) {
                j += 1;
            }
            out.push(Tok::Word(c[i..j].iter().collect()));
            i = j;
        } else if x == '?' {
            out.push(Tok::Param);
            i += 1;
        } else {
            out.push(Tok::P(x));
            i += 1;
        }
    }
    Ok(out)
}

struct Parser {
    t: Vec<Tok>,
    i: usize,
    params: usize,
}

type R<T> = Result<T, String>;

impl Parser {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x.eq_ignore_ascii_case(w))
    }
    fn word(&mut self, w: &str) -> bool {
        let r = self.is(w);
        self.i += r as usize;
        r
    }
    fn p(&mut self, c: char) -> bool {
        let r = self.peek() == Some(&Tok::P(c));
        self.i += r as usize;
        r
    }
    fn need(&mut self, w: &str) -> R<()> {
        if self.word(w) {
            Ok(())
        } else {
            Err(format!("{w} expected, not {:?}", self.peek()))
        }
    }
    fn needp(&mut self, c: char) -> R<()> {
        if self.p(c) {
            Ok(())
        } else {
            Err(format!("{c} expected, not {:?}", self.peek()))
        }
    }
    fn name(&mut self) -> R<String> {
        let r = match self.peek() {
            Some(Tok::Ident(x)) => x.clone(),
            Some(Tok::Word(x)) => x.clone(),
            x => return Err(format!("name expected, not {x:?}")),
        };
        self.i += 1;
        Ok(r)
    }
    fn col(&mut self) -> R<ColRef> {
        let a = self.name()?;
        if self.p('.') {
            let b = self.name()?;
            if self.p('.') {
                return Ok(ColRef { table: Some(b), name: self.name()? });
            }
            return Ok(ColRef { table: Some(a), name: b });
        }
        Ok(ColRef { table: None, name: a })
    }
    fn val(&mut self) -> R<Val> {
        let neg = self.p('-');
        let t = self.peek().cloned().ok_or("value expected")?;
        Ok(match t {
            Tok::Num(x) => {
                self.i += 1;
                let x = if neg { format!("-{x}") } else { x };
                match x.parse() {
                    Ok(i) => Val::Int(i),
                    Err(_) => Val::Dec(x),
                }
            }
            _ if neg => return Err("- before no number".into()),
            Tok::Str(b) | Tok::Hex(b) => {
                self.i += 1;
                Val::Bytes(b)
            }
            Tok::Param => {
                self.i += 1;
                self.params += 1;
                Val::Param(self.params - 1)
            }
            Tok::P('*') => {
                self.i += 1;
                Val::Call("*".into())
            }
            Tok::Word(w) if w.eq_ignore_ascii_case("null") => {
                self.i += 1;
                Val::Null
            }
            Tok::Word(w) if w.eq_ignore_ascii_case("default") => {
                self.i += 1;
                Val::Default
            }
            Tok::Word(w) if self.t.get(self.i + 1) == Some(&Tok::P('(')) => {
                self.i += 2;
                let mut depth = 1;
                while depth > 0 {
                    match self.peek() {
                        Some(Tok::P('(')) => depth += 1,
                        Some(Tok::P(')')) => depth -= 1,
                        None => return Err(") expected".into()),
                        _ => (),
                    }
                    self.i += 1;
                }
                Val::Call(w.to_lowercase())
            }
            Tok::Word(_) | Tok::Ident(_) => Val::Col(self.col()?),
            x => return Err(format!("value expected, not {x:?}")),
        })
    }
    fn names(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        self.needp('(')?;
        if self.p(')') {
            return Ok(v);
        }
        loop {
            v.push(self.name()?);
            if !self.p(',') {
                break;
            }
        }
        self.needp(')')?;
        Ok(v)
    }
    fn sets(&mut self) -> R<Vec<(String, Val)>> {
        let mut v = vec![];
        loop {
            let c = self.col()?.name;
            self.needp('=')?;
            v.push((c, self.val()?));
            if !self.p(',') {
                return Ok(v);
            }
        }
    }
    fn conds(&mut self) -> R<Vec<(ColRef, Val)>> {
        let mut v = vec![];
        if !self.word("where") {
            return Ok(v);
        }
        loop {
            let paren = self.p('(');
            let a = self.val()?;
            if paren && self.p(',') {
                // a tuple
                let mut a = vec![a];
                loop {
                    a.push(self.val()?);
                    if !self.p(',') {
                        break;
                    }
                }
                self.needp(')')?;
                self.needp('=')?;
                self.needp('(')?;
                for (i, a) in a.into_iter().enumerate() {
                    if i > 0 {
                        self.needp(',')?;
                    }
                    match (a, self.val()?) {
                        (Val::Col(c), x) | (x, Val::Col(c)) => v.push((c, x)),
                        x => return Err(format!("no condition: {x:?}")),
                    }
                }
                self.needp(')')?;
                if !self.word("and") {
                    return Ok(v);
                }
                continue;
            }
            self.needp('=')?;
            let b = self.val()?;
            match (a, b) {
                (Val::Col(c), x) | (x, Val::Col(c)) => v.push((c, x)),
                x => return Err(format!("no condition: {x:?}")),
            }
            if paren {
                self.needp(')')?;
            }
            if !self.word("and") {
                return Ok(v);
            }
        }
    }
    fn table(&mut self) -> R<(Option<String>, String, String)> {
        let a = self.name()?;
        let (schema, table) = if self.p('.') { (Some(a), self.name()?) } else { (None, a) };
        let alias = if self.word("as") {
            self.name()?
        } else if matches!(self.peek(), Some(Tok::Ident(_))) {
            self.name()?
        } else {
            table.clone()
        };
        Ok((schema, table, alias))
    }
    fn stmt(&mut self) -> R<Stmt> {
        let first = match self.peek() {
            Some(Tok::Word(w)) => w.to_lowercase(),
            x => return Err(format!("statement expected, not {x:?}")),
        };
        self.i += 1;
        Ok(match first.as_str() {
            "select" => {
                let mut items = vec![];
                loop {
                    items.push(self.val()?);
                    if self.word("as") {
                        self.name()?;
                    }
                    if !self.p(',') {
                        break;
                    }
                }
                let mut from = None;
                let mut joins = vec![];
                if self.word("from") {
                    from = Some(self.table()?);
                    loop {
                        let inner = self.word("inner");
                        if !self.word("join") {
                            if inner {
                                return Err("join expected".into());
                            }
                            break;
                        }
                        let (_, table, alias) = self.table()?;
                        self.need("on")?;
                        let paren = self.p('(');
                        let a = self.col()?;
                        self.needp('=')?;
                        let b = self.col()?;
                        if paren {
                            self.needp(')')?;
                        }
                        joins.push(Join { table, alias, on: (a, b) });
                    }
                }
                let conds = self.conds()?;
                let mut order = vec![];
                if self.word("order") {
                    self.need("by")?;
                    loop {
                        let c = self.col()?.name;
                        let down = self.word("desc");
                        if !down {
                            self.word("asc");
                        }
                        order.push((c, down));
                        if !self.p(',') {
                            break;
                        }
                    }
                }
                let limit = match self.word("limit") {
                    true => match self.val()? {
                        Val::Int(n) => n as usize,
                        x => return Err(format!("limit {x:?}")),
                    },
                    false => usize::MAX,
                };
                Stmt::Select { items, from, joins, conds, order, limit }
            }
            "insert" => {
                self.word("into");
                let table = self.table()?.1;
                if self.word("set") {
                    return self.done(|p| Ok(Stmt::Insert { table, rows: vec![p.sets()?] }));
                }
                let names = self.names()?;
                if !self.word("values") {
                    self.need("value")?;
                }
                let mut rows = vec![];
                loop {
                    self.needp('(')?;
                    let mut row = vec![];
                    if !self.p(')') {
                        loop {
                            row.push(self.val()?);
                            if !self.p(',') {
                                break;
                            }
                        }
                        self.needp(')')?;
                    }
                    if row.len() != names.len() {
                        return Err("column count doesn't match value count".into());
                    }
                    rows.push(names.iter().cloned().zip(row).collect());
                    if !self.p(',') {
                        break;
                    }
                }
                Stmt::Insert { table, rows }
            }
            "update" => {
                let table = self.table()?.1;
                self.need("set")?;
                let set = self.sets()?;
                Stmt::Update { table, set, conds: self.conds()? }
            }
            "delete" => {
                self.need("from")?;
                let table = self.table()?.1;
                Stmt::Delete { table, conds: self.conds()? }
            }
            "create" => {
                if !self.word("table") {
                    return Ok(self.other(first));
                }
                let lenient = self.word("if");
                if lenient {
                    self.need("not")?;
                    self.need("exists")?;
                }
                let table = self.table()?.1;
                self.needp('(')?;
                let (mut columns, mut unique) = (vec![], vec![]);
                loop {
                    let uniq = self.word("unique") | self.word("primary");
                    if uniq {
                        self.word("key");
                        self.word("index");
                        unique.push(self.names()?);
                    } else {
                        columns.push(self.name()?);
                    }
                    let mut depth = 0;
                    loop {
                        match self.peek() {
                            None => return Err(") expected".into()),
                            Some(Tok::P('(')) => depth += 1,
                            Some(Tok::P(')')) if depth == 0 => break,
                            Some(Tok::P(')')) => depth -= 1,
                            Some(Tok::P(',')) if depth == 0 => break,
                            _ => (),
                        }
                        self.i += 1;
                    }
                    if !self.p(',') {
                        break;
                    }
                }
                self.needp(')')?;
                self.i = self.t.len();
                Stmt::Create { table, lenient, columns, unique }
            }
            _ => self.other(first),
        })
    }
    fn other(&mut self, first: String) -> Stmt {
        let rest = self.t[self.i..].to_vec();
        self.i = self.t.len();
        Stmt::Other(first, rest)
    }
    fn done(&mut self, f: impl FnOnce(&mut Self) -> R<Stmt>) -> R<Stmt> {
        f(self)
    }
}

pub fn parse(s: &str) -> R<(Stmt, usize)> {
    let t = lex(s)?;
    let mut p = Parser { t, i: 0, params: 0 };
    let st = p.stmt()?;
    p.p(';');
    if p.i != p.t.len() {
        return Err(format!("unexpected {:?}", p.peek()));
    }
    Ok((st, p.params))
}

/// The statement with its parameters.
pub fn bind(s: Stmt, params: &[Val]) -> Stmt {
    let v = |x: Val| match x {
        Val::Param(i) => params.get(i).cloned().unwrap_or(Val::Null),
        x => x,
    };
    let cs = |c: Vec<(ColRef, Val)>| c.into_iter().map(|(c, x)| (c, v(x))).collect::<Vec<_>>();
    match s {
        Stmt::Select { items, from, joins, conds, order, limit } => Stmt::Select { items: items.into_iter().map(v).collect(), from, joins, conds: cs(conds), order, limit },
        Stmt::Insert { table, rows } => Stmt::Insert { table, rows: rows.into_iter().map(|r| r.into_iter().map(|(c, x)| (c, v(x))).collect()).collect() },
        Stmt::Update { table, set, conds } => Stmt::Update { table, set: set.into_iter().map(|(c, x)| (c, v(x))).collect(), conds: cs(conds) },
        Stmt::Delete { table, conds } => Stmt::Delete { table, conds: cs(conds) },
        x => x,
    }
}
