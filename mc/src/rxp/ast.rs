use std::rc::Rc;

/// Why there is no value: the language says it is an error, or the language
/// (as far as the properties state it) leaves the outcome open.
#[derive(Clone, Debug, PartialEq)]
pub enum RErr { Err(String), Unspec(&'static str) }
pub type R<T> = Result<T, RErr>;
pub fn err<T>(s: &str) -> R<T> { Err(RErr::Err(s.to_string())) }
pub fn unspec<T>(s: &'static str) -> R<T> { Err(RErr::Unspec(s)) }

pub type Seq = Vec<It>;
#[derive(Clone, Debug)]
pub enum It {
    N(usize),
    S(String),
    I(i64),
    D(f64),
    F(f64),
    B(bool),
    M(Rc<Vec<(It, Seq)>>),
    A(Rc<Vec<Seq>>),
    Fn(Rc<Fun>),
}
#[derive(Debug)]
pub enum Fun {
    Inline { params: Vec<(String, SeqT)>, ret: SeqT, body: Option<Rc<E>>, env: Env },
    /// The focus is that where the function was made.
    Named(String, usize, crate::rxp::eval::Focus),
    Partial(String, Vec<Option<Seq>>, crate::rxp::eval::Focus),
}
#[derive(Debug)]
pub struct Bound { pub name: String, pub value: Seq, pub next: Env }
pub type Env = Option<Rc<Bound>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Axis { Anc, AncSelf, Attr, Child, Desc, DescSelf, Foll, FollSib, Parent, Prec, PrecSib, SelfAx }
impl Axis {
    pub fn reverse(self) -> bool { matches!(self, Axis::Anc | Axis::AncSelf | Axis::Parent | Axis::Prec | Axis::PrecSib) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Test {
    Name(String),                              // qname, *, p:*, *:l
    Node, Text, Comment,
    Pi(Option<String>),
    El(Option<String>, Option<String>),        // name, type (with trailing ?)
    At(Option<String>, Option<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum SeqT { Empty, Of(ItemT, char) }       // occurrence ' ', '?', '*', '+'
#[derive(Clone, Debug, PartialEq)]
pub enum ItemT { Item, Kind(Test), AnyFn, Fn(Vec<SeqT>, Box<SeqT>), Map(String, Box<SeqT>), Array(Box<SeqT>), Atomic(String) }
pub fn any() -> SeqT { SeqT::Of(ItemT::Item, '*') }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    GEq, GNe, GLt, GLe, GGt, GGe, VEq, VNe, VLt, VLe, VGt, VGe, Is, Before, After,
    Concat, To, Add, Sub, Mul, Div, IDiv, Mod, Union, Intersect, Except,
}

#[derive(Debug)]
pub enum E {
    Int(String), Dec(String), Dbl(String), Str(String),
    Var(String), Ctx, Seq(Vec<Rc<E>>),
    Root,
    Path(Rc<E>, Rc<E>),
    Step(Axis, Test, Vec<Rc<E>>),
    Filter(Rc<E>, Rc<E>),
    CallDyn(Rc<E>, Vec<Option<Rc<E>>>),
    Lookup(Rc<E>, Key),
    ULookup(Key),
    Bin(Op, Rc<E>, Rc<E>),
    Or(Rc<E>, Rc<E>), And(Rc<E>, Rc<E>),
    Neg(Rc<E>), Plus(Rc<E>),
    Map(Rc<E>, Rc<E>),
    If(Rc<E>, Rc<E>, Rc<E>),
    For(String, Rc<E>, Rc<E>), Let(String, Rc<E>, Rc<E>), Some(String, Rc<E>, Rc<E>), Every(String, Rc<E>, Rc<E>),
    Inst(Rc<E>, SeqT), Treat(Rc<E>, SeqT), Cast(Rc<E>, String, bool), Castable(Rc<E>, String, bool),
    Call(String, Vec<Option<Rc<E>>>),
    Ref(String, usize),
    Inline(Vec<(String, SeqT)>, SeqT, Option<Rc<E>>),
    MapC(Vec<(Rc<E>, Rc<E>)>), ArrS(Vec<Rc<E>>), ArrC(Option<Rc<E>>),
}
#[derive(Debug, Clone)]
pub enum Key { Name(String), Int(String), Paren(Rc<E>), Star }
