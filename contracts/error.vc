fn Error::scanner -> r
  sig
    ensures
    [C16] r.skind() == ErrorKind::Scanner,
    [C16] r.smark() == Some(problem_mark),
    [C16] r.scontext() == Some((context, context_mark)),
    [C16] r.sproblem() == Some(problem),
fn Error::parser -> r
  sig
    ensures
    [C16] r.skind() == ErrorKind::Parser,
    [C16] r.smark() == Some(problem_mark),
    [C16] r.scontext() == Some((context, context_mark)),
    [C16] r.sproblem() == Some(problem),
fn Error::composer -> r
  sig
    ensures
    [C16] r.skind() == ErrorKind::Composer,
    [C16] r.smark() == Some(problem_mark),
    [C16] r.scontext() == Some((context, context_mark)),
    [C16] r.sproblem() == Some(problem),
fn Error::reader -> r
  sig
    ensures
    [C16] r.skind() == ErrorKind::Reader,
    [C16] r.smark() is None && r.scontext() is None,
    [C16] r.sproblem() == Some(problem),
    [C16] r.soffset() == Some(offset),
fn Error::emitter -> r
  sig
    ensures
    [C16] r.skind() == ErrorKind::Emitter,
    [C16] r.smark() is None && r.scontext() is None,
    [C16] r.sproblem() == Some(problem),
fn Error::From::from -> r
  attr #[verifier::external_body]
  sig
    ensures
    [C16] r.skind() == ErrorKind::Io,
    [C16] r.smark() is None && r.scontext() is None,
fn Error::kind -> r
  sig
    ensures
    [C16] r == self.skind(),
fn Error::problem_mark -> r
  sig
    ensures
    [C16] r == self.smark(),
fn Error::context_mark -> r
  sig
    ensures
    [C16] r is Some ==> r == Some(self.scontext()->Some_0.1) && self.scontext() is Some && self.scontext()->Some_0.0@.len() > 0,
    [C16] r is None ==> self.scontext() is None || self.scontext()->Some_0.0@.len() == 0,
fn Error::problem -> r
  sig
    ensures
    [C16] self.sproblem() is Some ==> r == self.sproblem()->Some_0,
fn Error::context -> r
  sig
    ensures
    [C16] r is Some ==> r == Some(self.scontext()->Some_0.0) && self.scontext() is Some && self.scontext()->Some_0.0@.len() > 0,
    [C16] r is None ==> self.scontext() is None || self.scontext()->Some_0.0@.len() == 0,
