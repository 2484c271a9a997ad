use crate::sup::Prop;
pub mod sax;
pub mod tree;
pub mod xp;
pub mod corpus;
pub mod deep;
pub mod xpnode;
pub mod xpval;
pub mod xpmore;
pub mod errs;
pub mod cli;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![];
    v.extend(sax::all());
    v.extend(tree::all());
    v.extend(xpnode::all());
    v.extend(xpval::all());
    v.extend(xpmore::all());
    v.extend(errs::all());
    v.extend(cli::all());
    v
}
