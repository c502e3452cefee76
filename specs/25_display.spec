@@ path fmt crate::xstd::fmt
@@ path std::fmt crate::xstd::fmt
@@ module display
@ items
use crate::ulog::*;
impl XToString for def::BaseType {
    open spec fn disp(&self) -> Seq<char> { crate::xstd::fmt::Display::shown(self) }
    fn x_to_string(&self) -> String { crate::xstd::fmt::x_printed(self) }
}
impl XToString for def::TypeExpr {
    open spec fn disp(&self) -> Seq<char> { crate::xstd::fmt::Display::shown(self) }
    fn x_to_string(&self) -> String { crate::xstd::fmt::x_printed(self) }
}
@@ impl display::<fmt::Display for def::BaseType>
@ items
    open spec fn shown(&self) -> Seq<char> { base_str(self.sv()) }
@@ fn display::<fmt::Display for def::BaseType>::fmt
@ tags
C05 C06 C11
@@ impl display::<fmt::Display for def::TypeExpr>
@ items
    open spec fn shown(&self) -> Seq<char> { type_str(self.sv()) }
@@ fn display::<fmt::Display for def::TypeExpr>::fmt
@ tags
C05 C06 C11
@ prologue
    broadcast use {cseq_assoc};
@@ impl display::<fmt::Display for def::Field>
@ items
    open spec fn shown(&self) -> Seq<char> { type_str(self.r#type.sv()) + " "@ + self.name@ }
@@ fn display::<fmt::Display for def::Field>::fmt
@ tags
C05 C06 C11
@ prologue
    broadcast use {cseq_assoc};
@@ fn display::fmt_array
@ drop
    printing of values is not part of any listed property
@@ impl display::<std::fmt::Display for inst::FieldValue>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::Parameter>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for inst::ParameterValue>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::DefaultParameter>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::Info>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::MultiInfo>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::Subscription>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for def::Format>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for inst::Format>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::LoggedString>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::LogLevel>
@ drop
    printing of values is not part of any listed property
@@ impl display::<fmt::Display for msg::Dropout>
@ drop
    printing of values is not part of any listed property
