//! Reads the macro expansion of a unit system and prints, as JSON, the impl headers, method signatures,
//! structs, traits, type aliases and constants it declares.
use quote::ToTokens;
use syn::visit_mut::VisitMut;
use syn::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn txt<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn ident_path(p: &Path) -> Option<String> { if p.segments.len() == 1 && p.segments[0].arguments.is_none() && p.leading_colon.is_none() { Some(p.segments[0].ident.to_string()) } else { None } }
fn path(p: &Path) -> String {
    let name = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
    let mut args = vec![];
    let mut assoc = vec![];
    for s in &p.segments {
        match &s.arguments {
            PathArguments::AngleBracketed(a) => {
                for x in &a.args {
                    match x {
                        GenericArgument::Type(t) => args.push(ty(t)),
                        GenericArgument::Const(e) => args.push(cexpr(e)),
                        GenericArgument::AssocType(t) => assoc.push(format!("{{\"name\":{},\"ty\":{}}}", js(&t.ident.to_string()), ty(&t.ty))),
                        GenericArgument::Lifetime(_) => {}
                        o => args.push(format!("{{\"k\":\"other\",\"text\":{}}}", js(&txt(o)))),
                    }
                }
            }
            PathArguments::Parenthesized(_) => args.push(format!("{{\"k\":\"other\",\"text\":{}}}", js(&txt(s)))),
            PathArguments::None => {}
        }
    }
    format!("\"name\":{},\"args\":{},\"assoc\":{}", js(&name), arr(args), arr(assoc))
}
fn cexpr(e: &Expr) -> String {
    // strip blocks that hold a single expression
    let mut e = e.clone();
    loop {
        e = match &e {
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(x, None) => x.clone(),
                _ => break,
            },
            Expr::Paren(p) => (*p.expr).clone(),
            Expr::Group(p) => (*p.expr).clone(),
            _ => break,
        }
    }
    if let Expr::Path(p) = &e {
        if let Some(i) = ident_path(&p.path) {
            return format!("{{\"k\":\"cname\",\"name\":{}}}", js(&i));
        }
    }
    format!("{{\"k\":\"cexpr\",\"text\":{}}}", js(&txt(&e)))
}
fn ty(t: &Type) -> String {
    match t {
        Type::Path(p) => match &p.qself {
            None => format!("{{\"k\":\"path\",{}}}", path(&p.path)),
            Some(q) => {
                let n = q.position;
                let mut tr = p.path.clone();
                let last = tr.segments.last().unwrap().ident.to_string();
                let segs: Vec<_> = tr.segments.iter().take(n).cloned().collect();
                tr.segments = segs.into_iter().collect();
                format!("{{\"k\":\"assoc\",\"self\":{},\"trait\":{{{}}},\"member\":{}}}", ty(&q.ty), path(&tr), js(&last))
            }
        },
        Type::Reference(r) => format!("{{\"k\":\"ref\",\"mut\":{},\"ty\":{}}}", r.mutability.is_some(), ty(&r.elem)),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Tuple(t) => format!("{{\"k\":\"tuple\",\"args\":{}}}", arr(t.elems.iter().map(ty).collect())),
        o => format!("{{\"k\":\"other\",\"text\":{}}}", js(&txt(o))),
    }
}
fn bound(b: &TypeParamBound) -> Option<String> {
    match b {
        TypeParamBound::Trait(t) => Some(format!("{{\"maybe\":{},{}}}", matches!(t.modifier, TraitBoundModifier::Maybe(_)), path(&t.path))),
        _ => None,
    }
}
fn generics(g: &Generics) -> String {
    let mut ps = vec![];
    let mut wh = vec![];
    for p in &g.params {
        match p {
            GenericParam::Type(t) => {
                ps.push(format!("{{\"k\":\"type\",\"name\":{}}}", js(&t.ident.to_string())));
                let bs: Vec<_> = t.bounds.iter().filter_map(bound).collect();
                if !bs.is_empty() {
                    wh.push(format!("{{\"ty\":{{\"k\":\"path\",\"name\":{},\"args\":[],\"assoc\":[]}},\"bounds\":{}}}", js(&t.ident.to_string()), arr(bs)));
                }
            }
            GenericParam::Const(c) => ps.push(format!("{{\"k\":\"const\",\"name\":{},\"ty\":{}}}", js(&c.ident.to_string()), ty(&c.ty))),
            GenericParam::Lifetime(_) => {}
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            match p {
                WherePredicate::Type(t) => wh.push(format!("{{\"ty\":{},\"bounds\":{}}}", ty(&t.bounded_ty), arr(t.bounds.iter().filter_map(bound).collect()))),
                WherePredicate::Lifetime(_) => {}
                o => wh.push(format!("{{\"other\":{}}}", js(&txt(o)))),
            }
        }
    }
    format!("\"params\":{},\"where\":{}", arr(ps), arr(wh))
}
fn sig(s: &Signature, vis: bool) -> String {
    let mut ins = vec![];
    for a in &s.inputs {
        match a {
            FnArg::Receiver(r) => {
                let t = if r.colon_token.is_some() { ty(&r.ty) } else {
                    let me = "{\"k\":\"path\",\"name\":\"Self\",\"args\":[],\"assoc\":[]}".to_string();
                    if r.reference.is_some() { format!("{{\"k\":\"ref\",\"mut\":{},\"ty\":{}}}", r.mutability.is_some(), me) } else { me }
                };
                ins.push(format!("{{\"receiver\":true,\"ty\":{t}}}"));
            }
            FnArg::Typed(t) => ins.push(format!("{{\"receiver\":false,\"ty\":{}}}", ty(&t.ty))),
        }
    }
    let out = match &s.output {
        ReturnType::Default => "{\"k\":\"tuple\",\"args\":[]}".to_string(),
        ReturnType::Type(_, t) => ty(t),
    };
    format!("{{\"name\":{},\"pub\":{},\"const\":{},{},\"inputs\":{},\"output\":{}}}", js(&s.ident.to_string()), vis, s.constness.is_some(), generics(&s.generics), arr(ins), out)
}
fn line<T: syn::spanned::Spanned>(_: &T) -> usize { 0 }
fn items(items: &[Item], module: &str, out: &mut Vec<String>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    items_(c, &format!("{}{}::", module, m.ident), out);
                }
            }
            Item::Impl(i) => {
                let mut methods = vec![];
                let mut assoc = vec![];
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => methods.push(sig(&f.sig, i.trait_.is_some() || matches!(f.vis, Visibility::Public(_)))),
                        ImplItem::Type(t) => assoc.push(format!("{}:{}", js(&t.ident.to_string()), ty(&t.ty))),
                        _ => {}
                    }
                }
                let tr = match &i.trait_ {
                    Some((bang, p, _)) => format!("{{\"neg\":{},{}}}", bang.is_some(), path(p)),
                    None => "null".into(),
                };
                let auto = i.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
                out.push(format!("{{\"item\":\"impl\",\"line\":{},\"module\":{},\"auto\":{},\"trait\":{},\"self\":{},{},\"assoc\":{{{}}},\"methods\":{}}}", line(i), js(module), auto, tr, ty(&i.self_ty), generics(&i.generics), assoc.join(","), arr(methods)));
            }
            Item::Struct(s) => {
                let fs: Vec<_> = s.fields.iter().map(|f| format!("{{\"name\":{},\"ty\":{},\"vis\":{}}}", js(&f.ident.as_ref().map_or(String::new(), |i| i.to_string())), ty(&f.ty), js(&txt(&f.vis)))).collect();
                let attrs: Vec<_> = s.attrs.iter().map(|a| js(&txt(a))).collect();
                out.push(format!("{{\"item\":\"struct\",\"module\":{},\"name\":{},{},\"fields\":{},\"attrs\":{}}}", js(module), js(&s.ident.to_string()), generics(&s.generics), arr(fs), arr(attrs)));
            }
            Item::Trait(t) => {
                let sup: Vec<_> = t.supertraits.iter().filter_map(bound).collect();
                out.push(format!("{{\"item\":\"trait\",\"module\":{},\"name\":{},{},\"supers\":{}}}", js(module), js(&t.ident.to_string()), generics(&t.generics), arr(sup)));
            }
            Item::Type(t) => out.push(format!("{{\"item\":\"type\",\"module\":{},\"name\":{},{},\"ty\":{}}}", js(module), js(&t.ident.to_string()), generics(&t.generics), ty(&t.ty))),
            Item::Const(c) => out.push(format!("{{\"item\":\"const\",\"module\":{},\"name\":{},\"ty\":{}}}", js(module), js(&c.ident.to_string()), ty(&c.ty))),
            Item::Use(u) => out.push(format!("{{\"item\":\"use\",\"module\":{},\"text\":{}}}", js(module), js(&txt(u)))),
            _ => {}
        }
    }
}
fn items_(c: &[Item], m: &str, out: &mut Vec<String>) { items(c, m, out) }
struct Sub(std::collections::HashMap<String, String>);
impl VisitMut for Sub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(r) = ident_path(&p.path).and_then(|i| self.0.get(&i)) {
                *e = parse_str(r).unwrap();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "subst" {
        // subst: lines "expr \t NAME=replacement \t ..." -> expression text
        let mut s = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
        for l in s.lines() {
            let mut it = l.split('\t');
            let mut e: Expr = parse_str(it.next().unwrap()).expect("expression");
            let m = it.map(|x| x.split_once('=').unwrap()).map(|(k, v)| (k.to_string(), v.to_string())).collect();
            Sub(m).visit_expr_mut(&mut e);
            println!("{}", txt(&e));
        }
        return;
    }
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let f = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            let st = e.span().start();
            eprintln!("cannot parse the expansion at line {}: {e}", st.line);
            std::process::exit(2);
        }
    };
    let mut out = vec![];
    items(&f.items, "", &mut out);
    println!("[\n{}\n]", out.join(",\n"));
}
