use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut name = String::new(); let mut dflt = false; let mut fields: Vec<(String, String, bool)> = vec![]; let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => { let s = g.stream().to_string(); if s.starts_with("builder") && s.contains("default") { dflt = true; } }
            TokenTree::Ident(d) if d.to_string() == "struct" => { name = toks[i + 1].to_string(); }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let b: Vec<TokenTree> = g.stream().into_iter().collect(); let mut j = 0; let mut fd = false;
                while j < b.len() {
                    match &b[j] {
                        TokenTree::Punct(p) if p.as_char() == '#' => { let s = b[j + 1].to_string(); if s.contains("builder") && s.contains("default") { fd = true; } j += 2; }
                        TokenTree::Ident(d) if d.to_string() == "pub" => { j += 1; if let TokenTree::Group(_) = &b[j] { j += 1; } }
                        TokenTree::Ident(d) => {
                            let f = d.to_string(); j += 2; let mut t: Vec<TokenTree> = vec![]; let mut depth = 0;
                            while j < b.len() { if let TokenTree::Punct(p) = &b[j] { match p.as_char() { '<' => depth += 1, '>' => depth -= 1, ',' if depth == 0 => break, _ => {} } } t.push(b[j].clone()); j += 1; }
                            j += 1; fields.push((f, t.into_iter().collect::<TokenStream>().to_string(), fd)); fd = false;
                        }
                        _ => j += 1,
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    let mut o = format!("#[derive(Clone)] pub struct {name}Builder {{ ");
    for (f, t, _) in &fields { o += &format!("{f}: ::std::option::Option<{t}>, "); }
    o += &format!("}} impl ::std::default::Default for {name}Builder {{ fn default() -> Self {{ Self {{ ");
    for (f, _, _) in &fields { o += &format!("{f}: ::std::option::Option::None, "); }
    o += "} } } ";
    o += &format!("#[derive(Debug)] pub enum {name}BuilderError {{ UninitializedField(&'static str), ValidationError(String) }} impl ::std::fmt::Display for {name}BuilderError {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ match self {{ Self::UninitializedField(s) => f.write_str(s), Self::ValidationError(s) => f.write_str(s) }} }} }} impl ::std::error::Error for {name}BuilderError {{}} impl ::std::convert::From<String> for {name}BuilderError {{ fn from(s: String) -> Self {{ Self::ValidationError(s) }} }} ");
    o += &format!("impl {name}Builder {{ ");
    for (f, t, _) in &fields {
        let tt = t.replace(' ', "");
        if let Some(x) = tt.strip_prefix("Option<") { let x = &x[..x.len() - 1]; o += &format!("pub fn {f}<VALUE: ::std::convert::Into<{x}>>(&mut self, value: VALUE) -> &mut Self {{ self.{f} = ::std::option::Option::Some(::std::option::Option::Some(value.into())); self }} "); }
        else { o += &format!("pub fn {f}<VALUE: ::std::convert::Into<{t}>>(&mut self, value: VALUE) -> &mut Self {{ self.{f} = ::std::option::Option::Some(value.into()); self }} "); }
    }
    o += &format!("pub fn build(&self) -> ::std::result::Result<{name}, {name}BuilderError> {{ ");
    if dflt { o += &format!("let d: {name} = ::std::default::Default::default(); "); }
    o += &format!("Ok({name} {{ ");
    for (f, _, fd) in &fields {
        if dflt { o += &format!("{f}: match self.{f} {{ Some(ref v) => ::std::clone::Clone::clone(v), None => d.{f} }}, "); }
        else if *fd { o += &format!("{f}: match self.{f} {{ Some(ref v) => ::std::clone::Clone::clone(v), None => ::std::default::Default::default() }}, "); }
        else { o += &format!("{f}: match self.{f} {{ Some(ref v) => ::std::clone::Clone::clone(v), None => return Err({name}BuilderError::UninitializedField(\"{f}\")) }}, "); }
    }
    o += "}) } }";
    o.parse().unwrap()
}
