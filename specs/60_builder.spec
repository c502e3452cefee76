@@ module builder
@ items
use crate::ulog::*;
use crate::prelude::XIntoIterator as IntoIterator;
use crate::prelude::XInto as Into;
broadcast use crate::xstd::collections::set_list_is;
/// What the parser is going to be told.
pub struct Wants { pub header: bool, pub timestamp: bool, pub padding: bool, pub allow: Option<Set<Seq<char>>> }
/// The texts are those that the names turn into.
pub open spec fn texts_of<S: Into<String>>(names: Seq<S>, texts: Seq<String>) -> bool {
    names.len() == texts.len() && forall|i: int| 0 <= i < names.len() ==> #[trigger] names[i].into_ok(texts[i])
}
@@ item builder::ULogParserBuilder
@ after
impl<R: Read> ULogParserBuilder<R> {
    pub closed spec fn wants(&self) -> Wants {
        Wants { header: self.include_header, timestamp: self.include_timestamp, padding: self.include_padding,
            allow: match self.allowed_subscription_names { Some(s) => Some(s.m()), None => None } }
    }
    pub closed spec fn source(&self) -> R { self.reader }
}
@@ fn builder::ULogParserBuilder::new
@ spec
    ensures r.source() == $1, /*@[C07,C09,C12]*/ r.wants() == (Wants { header: false, timestamp: false, padding: false, allow: None }),
@@ fn builder::ULogParserBuilder::include_header
@ spec
    ensures r.source() == self.source(), /*@[C12]*/ r.wants() == (Wants { header: $1, ..self.wants() }),
@@ fn builder::ULogParserBuilder::include_timestamp
@ spec
    ensures r.source() == self.source(), /*@[C09]*/ r.wants() == (Wants { timestamp: $1, ..self.wants() }),
@@ fn builder::ULogParserBuilder::include_padding
@ spec
    ensures r.source() == self.source(), /*@[C09]*/ r.wants() == (Wants { padding: $1, ..self.wants() }),
@@ fn builder::ULogParserBuilder::set_subscription_allow_list
@ spec
    ensures r.source() == self.source(),
        /*@[C07]*/ exists|texts: Seq<String>| #![trigger svs(texts)] texts_of($1.its(), texts) && r.wants() == (Wants { allow: Some(svs(texts).to_set()), ..self.wants() }),
@ closure 0
    |$p0: S| -> (o: String) ensures /*@[C07]*/ $p0.into_ok(o)
@@ fn builder::ULogParserBuilder::build
@ spec
    ensures
        /*@[C01,C12]*/ r is Ok && r->Ok_0.wf() && r->Ok_0.left() == self.source().stream() && r->Ok_0.failed() == self.source().failed() && r->Ok_0.state is HEADER && r->Ok_0.datastream.num_bytes_read == 0,
        /*@[C12]*/ r->Ok_0.include_header == self.wants().header,
        /*@[C09]*/ r->Ok_0.include_timestamp == self.wants().timestamp && r->Ok_0.include_padding == self.wants().padding,
        /*@[C07]*/ r->Ok_0.allow() == self.wants().allow,
        /*@[C10]*/ r->Ok_0.max_bytes_to_read is None,
        /*@[C08,C19]*/ r->Ok_0.fs() == Map::<Seq<char>, SDef>::empty() && r->Ok_0.subs() == Map::<u16, SSub>::empty() && r->Ok_0.multi() == Set::<Seq<char>>::empty(),
