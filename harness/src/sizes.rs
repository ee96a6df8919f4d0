//! Size and depth sweeps: one dimension of an input grows while everything else stays small.
#[allow(unused_imports)]
use vcore::rng::Rng;

pub type Maker = fn(usize) -> String;

fn r(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// (name, what grows, whether the tree's depth grows with it)
pub const FAMILIES: &[(&str, Maker, bool)] = &[
    ("ident", |n| format!("select {} from t", r("a", n)), false),
    ("ident_upper", |n| format!("select {} from t", r("B", n)), false),
    ("ident_multi", |n| format!("select {}, b", r("é", n)), false),
    ("ident_kwtail", |n| format!("select {}select from t", r("x", n)), false),
    ("qident", |n| format!("select \"{}\" as y", r("q", n)), false),
    ("qident_dq", |n| format!("select \"{}\" as y", r("\"\"", n)), false),
    ("qident_multi", |n| format!("select \"{}\" , 1", r("日", n)), false),
    ("uident", |n| format!("select U&\"{}\" , 1", r("\\0061", n)), false),
    ("string", |n| format!("select '{}' || 'b'", r("x", n)), false),
    ("string_q", |n| format!("select '{}' , 1", r("''", n)), false),
    ("string_nl", |n| format!("select '{}' , 1", r("\n", n)), false),
    ("string_cont", |n| format!("select 'a'{} , 1", r("\n'b'", n)), false),
    ("string_cont_ws", |n| format!("select 'a'{}\n'b' , 1", r(" ", n)), false),
    ("string_notcont", |n| format!("select 'a'{}'b' , 1", r(" ", n)), false),
    ("estring", |n| format!("select e'{}' , 1", r("\\n", n)), false),
    ("estring_bs", |n| format!("select e'{}' , 1", r("\\\\", n)), false),
    ("estring_u", |n| format!("select e'{}' , 1", r("\\u0041", n)), false),
    ("estring_pair", |n| format!("select e'{}' , 1", r("\\uD83D\\uDE00", n)), false),
    ("estring_oct", |n| format!("select e'{}' , 1", r("\\1", n)), false),
    ("ustring", |n| format!("select U&'{}' , 1", r("\\0041", n)), false),
    ("bstring", |n| format!("select b'{}' , 1", r("01", n)), false),
    ("xstring", |n| format!("select x'{}' , 1", r("1F", n)), false),
    ("nstring", |n| format!("select n'{}' , 1", r("z", n)), false),
    ("dollar", |n| format!("select $${}$$ , 1", r("x", n)), false),
    ("dollar_tag", |n| format!("select ${0}$ x ${0}$ , 1", r("t", n.max(1))), false),
    ("dollar_near", |n| format!("select $t${}$t$ , 1", r("$x", n)), false),
    ("dollar_d", |n| format!("select $t${}$t$ , 1", r("$", n)), false),
    ("dollar_open", |n| format!("select ${}$ x", r("t", n.max(1))), false),
    ("int", |n| format!("select {} , 1", r("1", n.max(1))), false),
    ("int_zero", |n| format!("select {}1 , 1", r("0", n)), false),
    ("int_under", |n| format!("select 1{} , 1", r("_1", n)), false),
    ("hex", |n| format!("select 0x{} , 1", r("F", n.max(1))), false),
    ("hex0", |n| format!("select 0x{}F , 1", r("0", n)), false),
    ("oct", |n| format!("select 0o{} , 1", r("7", n.max(1))), false),
    ("bin", |n| format!("select 0b{} , 1", r("1", n.max(1))), false),
    ("dec", |n| format!("select .{} , 1", r("5", n.max(1))), false),
    ("exp", |n| format!("select 1e{} , 1", r("9", n.max(1))), false),
    ("param", |n| format!("select ${} , 1", r("1", n.max(1))), false),
    ("junk", |n| format!("select {}a , 1", r("1", n.max(1))), false),
    ("op", |n| format!("select a {} b", r("@", n.max(1))), false),
    ("op_plus", |n| format!("select a @{} b", r("+", n)), false),
    ("op_minus", |n| format!("select a <{} b", r("-", n.min(1))), false),
    ("op_comment", |n| format!("select a {}/* c */ b", r("|", n.max(1))), false),
    ("op_dash", |n| format!("select a {}-- c\n b", r("|", n.max(1))), false),
    ("op_lead", |n| format!("select a {}- b", r("=", n.max(1))), false),
    ("ws", |n| format!("select{} 1", r(" ", n)), false),
    ("ws_nl", |n| format!("select{} 1", r("\n", n)), false),
    ("ws_crlf", |n| format!("select{} 1", r("\r\n", n)), false),
    ("ws_lead", |n| format!("{}select 1", r("\t", n)), false),
    ("ws_tail", |n| format!("select 1{}", r("\n ", n)), false),
    ("ws_only", |n| r(" ", n), false),
    ("block", |n| format!("select /*{}*/ 1", r("c", n)), false),
    ("block_star", |n| format!("select /*{}*/ 1", r("*", n)), false),
    ("block_slash", |n| format!("select /*{}*/ 1", r(" /", n)), false),
    ("block_multi", |n| format!("select /*{}*/ 1", r("日", n)), false),
    ("block_nest", |n| format!("select {}{} 1", r("/* ", n.min(4000)), r(" */", n.min(4000))), false),
    ("block_nest_open", |n| format!("select {}{} 1", r("/* ", n.min(4000)), r(" */", n.min(4000).saturating_sub(1))), false),
    ("block_siblings", |n| format!("select /*{}*/ 1", r("/**/", n.min(3000))), false),
    ("line", |n| format!("select --{}\n1", r("-", n)), false),
    ("line_multi", |n| format!("select --{}\r1", r("é", n)), false),
    ("line_last", |n| format!("select 1 --{}", r("z", n)), false),
    ("blocks", |n| format!("select {} 1", r("/* a */", n)), false),
    ("blocks_sp", |n| format!("select {} 1", r(" /* a */ ", n)), false),
    ("lines", |n| format!("select {} 1", r("-- a\n", n)), false),
    ("lines_lead", |n| format!("{}select 1", r("-- a\n", n)), false),
    ("blocks_tail", |n| format!("select 1{}", r("/*b*/ ", n)), false),
    ("comments_only", |n| r("/*b*/--\n", n), false),
    ("list", |n| format!("select 1{}", r(" , 1", n)), true),
    ("list_tight", |n| format!("select 1{}", r(",a", n)), true),
    ("list_comments", |n| format!("select 1{}", r("/*x*/,--y\n2", n)), true),
    ("stmts", |n| r("select 1;", n), true),
    ("stmts_nl", |n| r("select a from b;\n", n), true),
    ("stmts_comment", |n| r("-- c\nselect 1;\n", n), true),
    ("semis", |n| r(";", n), true),
    ("semis_sp", |n| r("; ", n), true),
    ("idents", |n| format!("select {} from t", (0..n.max(1)).map(|i| format!("c{i}")).collect::<Vec<_>>().join(", ")), true),
    ("values", |n| format!("insert into t values (1){}", r(", (1)", n)), true),
    ("froms", |n| format!("select * from a{}", r(", b", n)), true),
    ("joins", |n| format!("select * from a{}", r(" join b on true", n)), true),
    ("ands", |n| format!("select a{}", r(" and b", n)), true),
    ("ors", |n| format!("select a{}", r(" or not b", n)), true),
    ("plus", |n| format!("select 1{}", r(" + 1", n)), true),
    ("minus_tight", |n| format!("select 1{}", r("-1", n)), true),
    ("pow", |n| format!("select 1{}", r(" ^ 2", n)), true),
    ("ops", |n| format!("select a{}", r(" || b", n)), true),
    ("cmp_err", |n| format!("select a{} < b < c", r(" + 1", n)), true),
    ("casts", |n| format!("select a{}", r("::int", n)), true),
    ("subscripts", |n| format!("select a{}", r("[1]", n)), true),
    ("dots", |n| format!("select a{}", r(".b", n)), true),
    ("collates", |n| format!("select a{}", r(" collate x", n)), true),
    ("unaries", |n| format!("select {}1", r("- ", n)), true),
    ("nots", |n| format!("select {}true", r("not ", n)), true),
    ("parens", |n| format!("select {}1{}", r("(", n), r(")", n)), true),
    ("parens_open", |n| format!("select {}1{}", r("(", n), r(")", n.saturating_sub(1))), true),
    ("parens_extra", |n| format!("select {}1{}", r("(", n), r(")", n + 1)), true),
    ("selects", |n| format!("{}select 1{}", r("(", n), r(")", n)), true),
    ("subselects", |n| format!("{}1{}", r("select (", n), r(")", n)), true),
    ("fromsub", |n| format!("{}select 1{}", r("select * from (", n), r(") x", n)), true),
    ("cases", |n| format!("select {}1{}", r("case when a then ", n), r(" end", n)), true),
    ("whens", |n| format!("select case{} end", r(" when a then b", n.max(1))), true),
    ("funcs", |n| format!("select {}1{}", r("f(", n), r(")", n)), true),
    ("args", |n| format!("select f(1{})", r(", 1", n)), true),
    ("arrays", |n| format!("select {}1{}", r("array[", n), r("]", n)), true),
    ("typedims", |n| format!("create table t (a int{})", r("[]", n)), true),
    ("cols", |n| format!("create table t (a int{})", r(", b text not null", n)), true),
    ("unions", |n| format!("select 1{}", r(" union select 1", n)), true),
    ("intersects", |n| format!("select 1{}", r(" intersect all select 1", n)), true),
    ("ctes", |n| format!("with a as (select 1){} select 1", r(", b as (select 1)", n)), true),
    ("params", |n| format!("select $1{}", (0..n).map(|i| format!(", ${}", i + 2)).collect::<String>()), true),
    ("strs", |n| format!("select ''{}", r(", 'a'", n)), true),
    ("lists_in", |n| format!("select a in (1{})", r(", 2", n)), true),
    ("not_ins", |n| format!("select true{}", r(" and a not in (1)", n)), true),
    ("withs", |n| format!("select {}1", r("null::time with time zone, ", n)), true),
    ("nulls_ord", |n| format!("select 1 order by a nulls first{}", r(", a nulls last", n)), true),
    ("err_after_list", |n| format!("select 1{} )", r(" , 1", n)), true),
    ("err_after_stmts", |n| format!("{}select from from", r("select 1;", n)), true),
    ("err_after_ws", |n| format!("select{} )", r(" \n", n)), false),
    ("err_after_comments", |n| format!("select{} )", r("/*a*/", n)), false),
    ("err_str_after", |n| format!("{}select 'x", r("select 1;", n)), true),
    ("err_esc_after", |n| format!("select '{}', e'\\uD83Dx'", r("y", n)), false),
    ("err_multi", |n| format!("select '{}' )", r("é", n)), false),
];

/// Lengths tried; `cap` bounds the unit count.
pub fn lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=140).collect();
    v.extend([150, 160, 191, 192, 193, 199, 200, 201, 255, 256, 257, 300, 333, 383, 384, 400, 499, 500, 501, 511, 512, 513, 600, 767, 768, 999, 1000, 1001]);
    v.extend([1023, 1024, 1025, 1500, 1999, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8193, 10000]);
    v.extend([16385, 32769]);
    if thorough {
        v.extend([16383, 16384, 20000, 32766, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 99999, 100000, 100001, 131071, 131072, 131073, 262143, 262144, 262145]);
    }
    v
}

pub fn count(thorough: bool) -> u64 {
    (FAMILIES.len() * lengths(thorough).len()) as u64
}

pub fn case(thorough: bool, idx: u64) -> Option<String> {
    let l = lengths(thorough);
    let f = FAMILIES.get(idx as usize % FAMILIES.len())?;
    let n = *l.get(idx as usize / FAMILIES.len())?;
    Some((f.1)(n))
}

/// A family at a random size.
pub fn random(rng: &mut Rng, max: usize) -> String {
    let f = rng.pick(FAMILIES);
    let bits = rng.range(1, 63 - (max as u64).leading_zeros() as usize);
    (f.1)(rng.below(1 << bits).min(max))
}
