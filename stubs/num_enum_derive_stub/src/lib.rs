use proc_macro::{Delimiter, TokenStream, TokenTree};
fn parse(item: TokenStream) -> (String, String, Vec<(String, Option<String>)>) {
    let mut name = String::new(); let mut repr = String::from("u8"); let mut vs = vec![];
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => { let s = g.stream().to_string().replace(' ', ""); if let Some(r) = s.strip_prefix("repr(") { repr = r.trim_end_matches(')').to_string(); } }
            TokenTree::Ident(d) if d.to_string() == "enum" => { name = toks[i + 1].to_string(); }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let b: Vec<TokenTree> = g.stream().into_iter().collect(); let mut j = 0;
                while j < b.len() {
                    match &b[j] {
                        TokenTree::Punct(p) if p.as_char() == '#' => { j += 2; }
                        TokenTree::Ident(d) => {
                            let v = d.to_string(); j += 1; let mut e = String::new();
                            while j < b.len() && !matches!(&b[j], TokenTree::Punct(p) if p.as_char() == ',') { if !matches!(&b[j], TokenTree::Punct(p) if p.as_char() == '=') { e.push_str(&b[j].to_string()); } j += 1; }
                            vs.push((v, if e.is_empty() { None } else { Some(e) })); j += 1;
                        }
                        _ => j += 1,
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    (name, repr, vs)
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(item: TokenStream) -> TokenStream {
    let (n, r, _) = parse(item);
    format!("impl ::std::convert::From<{n}> for {r} {{ fn from(e: {n}) -> {r} {{ e as {r} }} }}").parse().unwrap()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(item: TokenStream) -> TokenStream {
    let (n, r, vs) = parse(item);
    let arms: String = vs.iter().map(|(v, _)| format!("if n == {n}::{v} as {r} {{ return Ok({n}::{v}); }} ")).collect();
    format!("impl ::std::convert::TryFrom<{r}> for {n} {{ type Error = ::num_enum::TryFromPrimitiveError<{n}>; fn try_from(n: {r}) -> ::std::result::Result<Self, Self::Error> {{ {arms} Err(::num_enum::TryFromPrimitiveError::mk(n as u64)) }} }}").parse().unwrap()
}
