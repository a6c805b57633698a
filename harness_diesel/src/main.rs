//! C14: diesel support against String's and str's own.
use arraystring::prelude::*;
use diesel::backend::Backend;
use diesel::deserialize::FromSql;
use diesel::mysql::{Mysql, MysqlType, MysqlValue};
use diesel::pg::{Pg, PgMetadataLookup, PgTypeMetadata, PgValue};
use diesel::prelude::*;
use diesel::query_builder::bind_collector::RawBytesBindCollector;
use diesel::query_builder::BindCollector;
use diesel::serialize::ToSql;
use diesel::sql_types::{Binary, Nullable, Text};
use kit::choices::Ch;
use kit::mini::{Problem, Verdict};
use std::fmt::Debug;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

diesel::table! {
    t (id) {
        id -> Integer,
        a -> Text,
        b -> Nullable<Text>,
    }
}
// The same columns, read as what they hold.
#[derive(QueryableByName, Debug, PartialEq)]
struct Held {
    #[diesel(sql_type = Text)]
    kind: String,
    #[diesel(sql_type = Binary)]
    bytes: Vec<u8>,
}
#[derive(QueryableByName)]
struct One<T> {
    #[diesel(sql_type = Text)]
    a: T,
}

/// How a string reaches the database.
#[derive(Debug, Hash, Clone, Copy, PartialEq)]
pub enum Bind {
    Insert,
    InsertRef,
    InsertStruct,
    InsertMany,
    InsertOption,
    Update,
    UpdateStruct,
    Param,
    ParamNullable,
    Expr,
    Filter,
    FilterAny,
    Replace,
}
const BINDS: [Bind; 13] = [
    Bind::Insert, Bind::InsertRef, Bind::InsertStruct, Bind::InsertMany, Bind::InsertOption, Bind::Update, Bind::UpdateStruct, Bind::Param, Bind::ParamNullable, Bind::Expr, Bind::Filter,
    Bind::FilterAny, Bind::Replace,
];
/// What a column holds.
#[derive(Debug, Hash, Clone, PartialEq)]
pub enum Held0 {
    Text(String),
    /// typed text, whatever the bytes
    RawText(Vec<u8>),
    Blob(Vec<u8>),
    Int(i64),
    Real(i32),
    Null,
}
/// How it is read.
#[derive(Debug, Hash, Clone, Copy, PartialEq)]
pub enum Load {
    Column,
    First,
    Pair,
    Beside,
    Struct,
    ByName,
    Nullable,
    All,
    Concat,
    Literal,
    Iterated,
}
const LOADS: [Load; 11] = [
    Load::Column, Load::First, Load::Pair, Load::Beside, Load::Struct, Load::ByName, Load::Nullable, Load::All, Load::Concat, Load::Literal, Load::Iterated,
];
#[derive(Debug, Hash, Clone)]
pub enum Case {
    /// text put on top of cleared text, then bound
    Store(u8, Bind, String, String),
    Load(u8, Load, Held0),
    /// bytes from the wire of postgres (true) or mysql
    Wire(u8, bool, Vec<u8>),
    /// text to the wire of postgres (true) or mysql
    WireOut(u8, bool, String, String),
}

fn prefix(s: &str, cap: usize) -> &str {
    let mut n = s.len().min(cap);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}
struct NoLookup;
impl PgMetadataLookup for NoLookup {
    fn lookup_type(&mut self, _: &str, _: Option<&str>) -> PgTypeMetadata {
        PgTypeMetadata::new(25, 1009)
    }
}

pub struct Db(SqliteConnection);
impl Db {
    fn new() -> Self {
        let mut c = SqliteConnection::establish(":memory:").expect("sqlite");
        diesel::sql_query("CREATE TABLE t (id INTEGER PRIMARY KEY, a, b)").execute(&mut c).expect("table");
        Db(c)
    }
    fn reset(&mut self) {
        diesel::sql_query("DELETE FROM t").execute(&mut self.0).expect("delete");
    }
    fn held(&mut self, col: &str) -> Vec<Held> {
        diesel::sql_query(format!("SELECT typeof({col}) AS kind, ifnull(CAST({col} AS BLOB), x'') AS bytes FROM t ORDER BY id")).load(&mut self.0).expect("held")
    }
    /// one row whose both columns hold this
    fn put(&mut self, h: &Held0) {
        let q = |s: &str| diesel::sql_query(format!("INSERT INTO t (id, a, b) SELECT 1, v, v FROM (SELECT {s} AS v)"));
        match h {
            Held0::Text(s) => q("?").bind::<Text, _>(s.as_str()).execute(&mut self.0),
            Held0::RawText(b) => q("CAST(? AS TEXT)").bind::<Binary, _>(b.as_slice()).execute(&mut self.0),
            Held0::Blob(b) => q("?").bind::<Binary, _>(b.as_slice()).execute(&mut self.0),
            Held0::Int(i) => q(&format!("{i}")).execute(&mut self.0),
            Held0::Real(i) => q(&format!("{i} / 8.0")).execute(&mut self.0),
            Held0::Null => q("NULL").execute(&mut self.0),
        }
        .expect("put");
    }
}

pub trait Subject: Sized {
    const CAP: usize;
    fn make(junk: &str, s: &str) -> Self;
    fn text(&self) -> &str;
    fn store(db: &mut Db, how: Bind, x: &Self) -> Result<Option<String>, String>;
    fn load(db: &mut Db, how: Load) -> Option<Vec<Option<String>>>;
    fn wire(pg: bool, b: &[u8]) -> Option<String>;
    fn wire_out(pg: bool, x: &Self) -> Option<Vec<u8>>;
}
fn from_pg<T: FromSql<Text, Pg>>(b: &[u8]) -> Option<T> {
    let oid = NonZeroU32::new(25).unwrap();
    T::from_sql(PgValue::new(b, &oid)).ok()
}
fn from_mysql<T: FromSql<Text, Mysql>>(b: &[u8]) -> Option<T> {
    T::from_sql(MysqlValue::new(b, MysqlType::String)).ok()
}
fn bytes_of<DB: Backend>(c: &RawBytesBindCollector<DB>) -> Option<Vec<u8>> {
    c.binds.last().cloned().flatten()
}
fn to_pg<T: ToSql<Text, Pg> + ?Sized>(x: &T) -> Option<Vec<u8>> {
    let mut c = RawBytesBindCollector::<Pg>::new();
    BindCollector::<Pg>::push_bound_value::<Text, T>(&mut c, x, &mut NoLookup as &mut dyn PgMetadataLookup).ok()?;
    bytes_of(&c)
}
fn to_mysql<T: ToSql<Text, Mysql> + ?Sized>(x: &T) -> Option<Vec<u8>> {
    let mut c = RawBytesBindCollector::<Mysql>::new();
    BindCollector::<Mysql>::push_bound_value::<Text, T>(&mut c, x, &mut ()).ok()?;
    bytes_of(&c)
}

/// The last thing a `store` compares, as text; Ok(None): nothing amiss.
macro_rules! subject {
    ($m: ident, $t: ty, $n: expr, $make: expr, $text: expr) => {
        mod $m {
            use super::*;
            #[derive(Insertable, AsChangeset, Queryable, Selectable)]
            #[diesel(table_name = t)]
            pub struct Row {
                pub id: i32,
                pub a: $t,
                pub b: Option<$t>,
            }
        }
        impl Subject for $t {
            const CAP: usize = $n;
            fn make(junk: &str, s: &str) -> Self {
                $make(junk, s)
            }
            fn text(&self) -> &str {
                let f: fn(&$t) -> &str = $text;
                f(self)
            }
            fn store(db: &mut Db, how: Bind, x: &Self) -> Result<Option<String>, String> {
                let e = |e: diesel::result::Error| e.to_string();
                let want = Held { kind: "text".into(), bytes: x.text().as_bytes().to_vec() };
                let c = &mut db.0;
                let mut rows = 1;
                match how {
                    Bind::Insert => diesel::insert_into(t::table).values((t::a.eq(x.clone()), t::b.eq("-"))).execute(c).map_err(e)?,
                    Bind::InsertRef => diesel::insert_into(t::table).values((t::a.eq(x), t::b.eq("-"))).execute(c).map_err(e)?,
                    Bind::InsertStruct => diesel::insert_into(t::table).values($m::Row { id: 1, a: x.clone(), b: Some(x.clone()) }).execute(c).map_err(e)?,
                    Bind::InsertMany => {
                        rows = 3;
                        diesel::insert_into(t::table).values(vec![t::a.eq(x), t::a.eq(x), t::a.eq(x)]).execute(c).map_err(e)?
                    }
                    Bind::InsertOption => diesel::insert_into(t::table).values((t::a.eq(x), t::b.eq(Some(x)))).execute(c).map_err(e)?,
                    Bind::Replace => diesel::replace_into(t::table).values((t::id.eq(1), t::a.eq(x))).execute(c).map_err(e)?,
                    Bind::Update | Bind::UpdateStruct => {
                        diesel::insert_into(t::table).values((t::id.eq(1), t::a.eq("before"))).execute(c).map_err(e)?;
                        match how {
                            Bind::Update => diesel::update(t::table.find(1)).set(t::a.eq(x)).execute(c).map_err(e)?,
                            _ => diesel::update(t::table.find(1)).set($m::Row { id: 1, a: x.clone(), b: Some(x.clone()) }).execute(c).map_err(e)?,
                        }
                    }
                    Bind::Param | Bind::ParamNullable => {
                        let q = diesel::sql_query("SELECT typeof(?1) AS kind, CAST(?1 AS BLOB) AS bytes");
                        let got: Vec<Held> = match how {
                            Bind::Param => q.bind::<Text, _>(x).load(c).map_err(e)?,
                            _ => q.bind::<Nullable<Text>, _>(Some(x.clone())).load(c).map_err(e)?,
                        };
                        return Ok((got != [want]).then(|| format!("a bound parameter arrives as {:?}", got)));
                    }
                    Bind::Expr => {
                        let got: (String, Vec<u8>) = diesel::select((x.into_sql::<Text>(), diesel::dsl::sql::<Binary>("CAST(").bind::<Text, _>(x.clone()).sql(" AS BLOB)"))).get_result(c).map_err(e)?;
                        return Ok((got.0 != x.text() || got.1 != x.text().as_bytes()).then(|| format!("a selected expression gives {:?}", got)));
                    }
                    Bind::Filter | Bind::FilterAny => {
                        diesel::insert_into(t::table).values(vec![(t::id.eq(1), t::a.eq(x.text())), (t::id.eq(2), t::a.eq("other than it")), (t::id.eq(3), t::a.eq(""))]).execute(c).map_err(e)?;
                        let by = |c: &mut SqliteConnection, s: &str| t::table.filter(t::a.eq(s.to_owned())).select(t::id).order(t::id).load::<i32>(c);
                        let want = by(c, x.text()).map_err(e)?;
                        let got: Vec<i32> = match how {
                            Bind::Filter => t::table.filter(t::a.eq(x)).select(t::id).order(t::id).load(c).map_err(e)?,
                            _ => t::table.filter(t::a.eq_any([x, x])).select(t::id).order(t::id).load(c).map_err(e)?,
                        };
                        return Ok((got != want).then(|| format!("a filter finds rows {:?}, filtering by its text finds {:?}", got, want)));
                    }
                };
                let mut held = db.held("a");
                if how == Bind::InsertOption || how == Bind::InsertStruct {
                    rows = 2;
                    held.extend(db.held("b"));
                }
                let good = held.len() == rows && held.iter().all(|h| *h == want);
                Ok((!good).then(|| format!("what is stored is {:?}", held)))
            }
            fn load(db: &mut Db, how: Load) -> Option<Vec<Option<String>>> {
                let s = |x: $t| Some(x.text().to_owned());
                let c = &mut db.0;
                Some(match how {
                    Load::Column => t::table.select(t::a).load::<$t>(c).ok()?.into_iter().map(s).collect(),
                    Load::First => vec![s(t::table.select(t::a).first::<$t>(c).ok()?)],
                    Load::Pair => {
                        let (i, x, y): (i32, $t, Option<$t>) = t::table.first(c).ok()?;
                        vec![Some(i.to_string()), s(x), y.and_then(s)]
                    }
                    // the same value, read by String before and after
                    Load::Beside => {
                        let (p, x, q): (String, $t, String) = t::table.select((t::a, t::a, t::a)).first(c).ok()?;
                        vec![Some(prefix(&p, Self::CAP).to_owned()), s(x), Some(prefix(&q, Self::CAP).to_owned())]
                    }
                    Load::Struct => {
                        let r: $m::Row = t::table.select($m::Row::as_select()).first(c).ok()?;
                        vec![s(r.a), r.b.and_then(s)]
                    }
                    Load::ByName => diesel::sql_query("SELECT a FROM t").load::<One<$t>>(c).ok()?.into_iter().map(|o| s(o.a)).collect(),
                    Load::Nullable => t::table.select(t::b).load::<Option<$t>>(c).ok()?.into_iter().map(|o| o.and_then(s)).collect(),
                    Load::All => t::table.load::<(i32, $t, Option<$t>)>(c).ok()?.into_iter().flat_map(|(_, x, y)| [s(x), y.and_then(s)]).collect(),
                    Load::Concat => t::table.select(t::a.concat("é€")).load::<$t>(c).ok()?.into_iter().map(s).collect(),
                    Load::Literal => t::table.select(diesel::dsl::sql::<Text>("lower(a) || 'x'")).load::<$t>(c).ok()?.into_iter().map(s).collect(),
                    Load::Iterated => {
                        let mut v = vec![];
                        for r in t::table.select((t::a, t::id)).load_iter::<($t, i32), diesel::connection::DefaultLoadingMode>(c).ok()? {
                            v.push(s(r.ok()?.0));
                        }
                        v
                    }
                })
            }
            fn wire(pg: bool, b: &[u8]) -> Option<String> {
                Some(if pg { from_pg::<$t>(b)? } else { from_mysql::<$t>(b)? }.text().to_owned())
            }
            fn wire_out(pg: bool, x: &Self) -> Option<Vec<u8>> {
                if pg {
                    to_pg(x)
                } else {
                    to_mysql(x)
                }
            }
        }
    };
}
macro_rules! soiled {
    ($t: ty) => {
        |junk: &str, s: &str| {
            let mut x = <$t>::from_str_truncate(junk);
            x.clear();
            x.push_str_truncate(s);
            x
        }
    };
}

macro_rules! subjects {
    ($($i: literal $m: ident $n: literal)*) => {
        subject!(string, String, usize::MAX, |_: &str, s: &str| s.to_owned(), |x| x.as_str());
        subject!(cache, CacheString, 63, soiled!(CacheString), |x| x.as_str());
        $(subject!($m, ArrayString<$n>, $n, soiled!(ArrayString<$n>), |x| x.as_str());)*
        const CAPS: &[usize] = &[63, $($n),*];
        fn dispatch(db: &mut Db, i: u8, case: &Case, v: &mut Verdict, trace: bool) -> Option<String> {
            match i {
                0 => judge::<CacheString>(db, case, v, trace),
                $($i => judge::<ArrayString<$n>>(db, case, v, trace),)*
                _ => unreachable!(),
            }
        }
    };
}
subjects! { 1 c1 1 2 c2 2 3 c3 3 4 c5 5 5 c23 23 6 c64 64 7 c255 255 }

fn judge<T: Subject>(db: &mut Db, case: &Case, v: &mut Verdict, trace: bool) -> Option<String> {
    match case {
        Case::Store(_, how, junk, s) => {
            let x = T::make(junk, s);
            v.nontrivial = !x.text().is_empty();
            v.classes.push(if x.text().len() == T::CAP { "stored, full" } else if x.text().contains('\0') { "stored, with NUL" } else { "stored" });
            db.reset();
            let r = T::store(db, *how, &x);
            if trace {
                v.trace.push(format!("{:?} of {:?}: {:?}", how, x.text(), r));
            }
            match r {
                Ok(f) => f.map(|f| format!("{:?} of {:?}: {}", how, x.text(), f)),
                Err(e) => Some(format!("{:?} of {:?} fails: {}", how, x.text(), e)),
            }
        }
        Case::Load(_, how, h) => {
            db.reset();
            db.put(h);
            let theirs = String::load(db, *how);
            let ours = T::load(db, *how);
            let want: Option<Vec<Option<String>>> = theirs.as_ref().map(|v| v.iter().map(|s| s.as_ref().map(|s| prefix(s, T::CAP).to_owned())).collect());
            let cut = want != theirs;
            v.nontrivial = theirs.as_ref().map_or(true, |t| t.iter().flatten().any(|s| !s.is_empty()));
            v.classes.push(match (&theirs, h) {
                (None, _) => "loaded, String fails",
                (_, Held0::Text(_)) if cut => "loaded from text, cut",
                (_, Held0::Text(_)) => "loaded from text",
                (_, Held0::Null) => "loaded from NULL",
                _ if cut => "loaded from another type, cut",
                _ => "loaded from another type",
            });
            if trace {
                v.trace.push(format!("{:?} of {:?} as String {:?}, as the type {:?}", how, h, theirs, ours));
            }
            (ours != want).then(|| format!("{:?} of {:?} gives {:?}, expected {:?} (String, cut to {} bytes)", how, h, ours, want, T::CAP))
        }
        Case::Wire(_, pg, b) => {
            let (ours, theirs) = (T::wire(*pg, b), String::wire(*pg, b));
            let want = theirs.as_ref().map(|s| prefix(s, T::CAP).to_owned());
            v.nontrivial = !b.is_empty();
            v.classes.push(if theirs.is_none() { "wire, String fails" } else if want != theirs { "wire, cut" } else { "wire" });
            if trace {
                v.trace.push(format!("wire bytes {:?} as String {:?}, as the type {:?}", b, theirs, ours));
            }
            (ours != want).then(|| format!("{} bytes {:?} give {:?}, expected {:?}", if *pg { "postgres" } else { "mysql" }, b, ours, want))
        }
        Case::WireOut(_, pg, junk, s) => {
            let x = T::make(junk, s);
            v.nontrivial = !x.text().is_empty();
            v.classes.push("to the wire");
            let got = T::wire_out(*pg, &x);
            let want = if *pg { to_pg(x.text()) } else { to_mysql(x.text()) };
            if trace {
                v.trace.push(format!("{:?} goes to the wire as {:?}", x.text(), got));
            }
            (got != want || want.as_deref() != Some(x.text().as_bytes())).then(|| format!("{:?} goes to the wire as {:?}, its text as {:?}", x.text(), got, want))
        }
    }
}

const CHARS: [char; 18] = ['a', 'Z', ' ', '"', '\'', '\\', '%', '\n', '\0', '\u{7f}', 'é', '€', '😀', '\u{feff}', '\r', '\t', '\u{fffd}', '\u{ffff}'];
fn any(c: &mut Ch) -> char {
    if c.flag() {
        return kit::chars::ch(c);
    }
    c.of(&CHARS)
}
fn text(c: &mut Ch, cap: usize, small: bool) -> String {
    if small {
        let n = c.pick(3);
        return (0..n).map(|_| c.of(&['a', '\'', '\0', '€', '😀'])).collect();
    }
    if c.chance(1, 8) {
        // as they come in the wild
        return kit::chars::wild(c);
    }
    let target = match c.weighted(&[60, 80, 20, 10, 1]) {
        0 => c.pick(8) as usize,
        1 => (cap + 4).saturating_sub(c.pick(9) as usize),
        2 => c.pick(600) as usize,
        // lengths that vanish when narrowed
        3 => 256 * (1 + c.pick(3) as usize) - 2 + c.pick(cap as u32 + 4) as usize,
        _ => 65536 - 2 + c.pick(cap as u32 + 4) as usize,
    };
    let one = any(c);
    let mixed = c.flag() && target < 1000;
    let mut s = "-".repeat(c.pick(4) as usize);
    while s.len() < target {
        s.push(if mixed { any(c) } else { one });
    }
    s
}
fn raw(c: &mut Ch, cap: usize, small: bool) -> Vec<u8> {
    let mut b = text(c, cap, small).into_bytes();
    match if small { c.pick(5) as usize } else { c.weighted(&[4, 1, 1, 1, 1]) } {
        1 => b.push(c.of(&[0xff, 0xc3, 0x80, 0xed])),
        2 => drop(b.pop()),
        3 => b.insert(0, 0xa9),
        4 if !b.is_empty() => {
            let i = c.pick(b.len() as u32) as usize;
            b[i] = c.of(&[0xff, 0xe2, 0xf0, 0]);
        }
        _ => {}
    }
    b
}
fn junk(c: &mut Ch) -> String {
    c.of(&["", "x", "😀"]).repeat(255)
}
struct C14;
impl Problem for C14 {
    type Case = Case;
    type Ctx = Db;
    fn ctx(&self) -> Db {
        Db::new()
    }
    fn case(&self, c: &mut Ch, small: bool) -> Case {
        let i = c.pick(if small { 5 } else { CAPS.len() as u32 }) as u8;
        let cap = CAPS[i as usize];
        match c.weighted(if small { &[1, 1, 1, 1] } else { &[5, 8, 2, 1] }) {
            0 => Case::Store(i, c.of(&BINDS), junk(c), text(c, cap, small)),
            1 => {
                let how = c.of(&LOADS);
                let h = match c.weighted(if small { &[1, 1, 1, 1, 1, 1] } else { &[8, 2, 4, 1, 1, 1] }) {
                    0 => Held0::Text(text(c, cap, small)),
                    1 => Held0::RawText(raw(c, cap, small)),
                    2 => Held0::Blob(raw(c, cap, small)),
                    3 => Held0::Int(if small { c.of(&[0, 7, -123456789, i64::MIN]) } else { c.u64() as i64 >> c.pick(64) }),
                    4 => Held0::Real(if small { c.of(&[0, 4, -9999999, i32::MAX]) } else { c.u64() as i32 >> c.pick(32) }),
                    _ => Held0::Null,
                };
                Case::Load(i, how, h)
            }
            2 => Case::Wire(i, c.flag(), raw(c, cap, small)),
            _ => Case::WireOut(i, c.flag(), junk(c), text(c, cap, small)),
        }
    }
    fn check(&self, db: &mut Db, case: &Case, trace: bool) -> Verdict {
        let i = match case {
            Case::Store(i, ..) | Case::Load(i, ..) | Case::Wire(i, ..) | Case::WireOut(i, ..) => *i,
        };
        let mut v = Verdict::default();
        match catch_unwind(AssertUnwindSafe(|| dispatch(db, i, case, &mut v, trace))) {
            Ok(f) => v.finding = f.map(|f| format!("capacity {}: {}", CAPS[i as usize], f)),
            Err(_) => {
                *db = Db::new();
                v.finding = Some(format!("capacity {}: panicked", CAPS[i as usize]));
            }
        }
        v
    }
    fn rule(&self) -> String {
        "cases are texts bound in 13 ways to an in-memory SQLite database (what is stored read back as type and bytes), columns of every storage class read in 11 ways as the type and as String, and the wire values of postgres and mysql both ways; a case is non-trivial when its text is not empty or String fails, distinct by type and input".into()
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    kit::mini::main(|p| (p == "C14").then_some(C14))
}
