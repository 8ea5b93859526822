use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
/// Prints tokens. `__mark!(N);` is replaced by the N-th text; inside the first position of a block
/// `__spec!(N);` moves its text in front of the block.
pub fn print(ts: TokenStream, marks: &[String]) -> String { let mut o = String::new(); go(ts, marks, &mut o); o }
fn mark(t: &[TokenTree], name: &str) -> Option<usize> {
    if t.len() < 3 { return None; }
    match (&t[0], &t[1], &t[2]) { (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g)) if i == name && p.as_char() == '!' => g.stream().to_string().trim().parse().ok(), _ => None }
}
fn go(ts: TokenStream, marks: &[String], o: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(n) = mark(&v[i..], "__mark") {
            o.push('\n'); o.push_str(&marks[n]); o.push('\n'); i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut rest = &inner[..];
                    if let Some(n) = mark(rest, "__spec") { o.push('\n'); o.push_str(&marks[n]); o.push('\n'); rest = &rest[3..]; if let Some(TokenTree::Punct(p)) = rest.first() { if p.as_char() == ';' { rest = &rest[1..]; } } }
                    o.push_str("{\n"); go(rest.iter().cloned().collect(), marks, o); o.push_str("\n}"); 
                    // A statement may follow.
                    o.push('\n');
                } else { o.push_str(a); go(g.stream(), marks, o); o.push_str(b); o.push(' '); }
            }
            TokenTree::Punct(p) => { o.push(p.as_char()); if p.spacing() == Spacing::Alone { o.push(' '); } if p.as_char() == ';' { o.push('\n'); } }
            t => { o.push_str(&t.to_string()); o.push(' '); }
        }
        i += 1;
    }
}
