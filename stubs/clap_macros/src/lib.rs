use proc_macro::{TokenStream, TokenTree};
fn name(t: TokenStream) -> String {
    let mut it = t.into_iter();
    while let Some(x) = it.next() {
        if let TokenTree::Ident(i) = &x {
            let s = i.to_string();
            if s == "enum" || s == "struct" { if let Some(TokenTree::Ident(n)) = it.next() { return n.to_string(); } }
        }
    }
    panic!("no name")
}
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(t: TokenStream) -> TokenStream { format!("impl clap::Parser for {} {{ fn parse() -> Self {{ crate::verif_entry::opt() }} }}", name(t)).parse().unwrap() }
#[proc_macro_derive(ValueEnum, attributes(arg, command, clap, value))]
pub fn value_enum(t: TokenStream) -> TokenStream { format!("impl clap::ValueEnum for {} {{}}", name(t)).parse().unwrap() }
#[proc_macro_derive(Subcommand, attributes(arg, command, clap))]
pub fn subcommand(t: TokenStream) -> TokenStream { format!("impl clap::Subcommand for {} {{}}", name(t)).parse().unwrap() }
#[proc_macro_derive(Args, attributes(arg, command, clap))]
pub fn args(t: TokenStream) -> TokenStream { format!("impl clap::Args for {} {{}}", name(t)).parse().unwrap() }
