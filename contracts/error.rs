verus!{
impl Error {
    /// The kind of an error, as reported.
    pub closed spec fn skind(&self) -> ErrorKind {
        match *self.0 {
            ErrorImpl::Reader { .. } => ErrorKind::Reader,
            ErrorImpl::Scanner(_) => ErrorKind::Scanner,
            ErrorImpl::Parser(_) => ErrorKind::Parser,
            ErrorImpl::Composer(_) => ErrorKind::Composer,
            ErrorImpl::Emitter(_) => ErrorKind::Emitter,
            ErrorImpl::Io(_) => ErrorKind::Io,
        }
    }
    /// Where the problem was found, if the error has a position.
    pub closed spec fn smark(&self) -> Option<Mark> {
        match *self.0 {
            ErrorImpl::Scanner(p) => Some(p.problem_mark),
            ErrorImpl::Parser(p) => Some(p.problem_mark),
            ErrorImpl::Composer(p) => Some(p.problem_mark),
            _ => None,
        }
    }
    /// The start of the construct the problem was found in.
    pub closed spec fn scontext(&self) -> Option<(&'static str, Mark)> {
        match *self.0 {
            ErrorImpl::Scanner(p) => Some((p.context, p.context_mark)),
            ErrorImpl::Parser(p) => Some((p.context, p.context_mark)),
            ErrorImpl::Composer(p) => Some((p.context, p.context_mark)),
            _ => None,
        }
    }
    pub closed spec fn sproblem(&self) -> Option<&'static str> {
        match *self.0 {
            ErrorImpl::Scanner(p) => Some(p.problem),
            ErrorImpl::Parser(p) => Some(p.problem),
            ErrorImpl::Composer(p) => Some(p.problem),
            ErrorImpl::Reader { problem, .. } => Some(problem),
            ErrorImpl::Emitter(problem) => Some(problem),
            ErrorImpl::Io(_) => None,
        }
    }
    /// Byte offset of a reader error.
    pub closed spec fn soffset(&self) -> Option<usize> {
        match *self.0 {
            ErrorImpl::Reader { offset, .. } => Some(offset),
            _ => None,
        }
    }
}
uninterp spec fn boxed(i: ErrorImpl) -> Box<ErrorImpl>;
/// In specifications a box is its content.
#[verifier::external_body]
broadcast proof fn axiom_boxed(i: ErrorImpl) ensures *(#[trigger] boxed(i)) == i {}
impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: std::io::Error) -> Self { Error(boxed(ErrorImpl::Io(v))) }
}
pub broadcast proof fn lemma_io_error(v: std::io::Error)
    ensures
        (#[trigger] <Error as vstd::std_specs::convert::FromSpec<std::io::Error>>::from_spec(v)).skind() == ErrorKind::Io,
        <Error as vstd::std_specs::convert::FromSpec<std::io::Error>>::from_spec(v).smark() is None,
        <Error as vstd::std_specs::convert::FromSpec<std::io::Error>>::from_spec(v).scontext() is None,
{
    broadcast use axiom_boxed;
}
}
verus!{
/// `?` converts an error with `From`.
#[verifier::external_body]
pub broadcast proof fn axiom_question(v: std::io::Error, e: Error)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<Error, std::io::Error>(v, e),
    ensures e == <Error as vstd::std_specs::convert::FromSpec<std::io::Error>>::from_spec(v),
{}
}
