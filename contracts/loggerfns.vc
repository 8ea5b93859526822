// The logger.
//@ mode plain
pub struct SystemTime {}
pub struct Utc {}
pub struct DateTime<T> { t: T }
pub struct TimeText {}
impl SystemTime { #[verifier::external_body] pub fn now() -> (ret: SystemTime) { unimplemented!() } }
impl DateTime<Utc> {
    #[verifier::external_body]
    pub fn from(t: SystemTime) -> (ret: DateTime<Utc>) { unimplemented!() }
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (ret: TimeText) { unimplemented!() }
}
pub uninterp spec fn time_text(t: TimeText) -> Seq<char>;
impl Text for TimeText { open spec fn text(&self) -> Seq<char> { time_text(*self) } #[verifier::external_body] fn as_text(&self) -> (ret: &str) { unimplemented!() } }
//@ type structs/logger.rs LoggerVerbosity
//@ type structs/logger.rs SystemCall
//@ type structs/logger.rs Log
//@ type structs/logger.rs Logger
/// The levels that a verbosity lets through.
pub open spec fn admits(v: LoggerVerbosity, l: Log) -> bool {
    match v {
        LoggerVerbosity::All => true,
        LoggerVerbosity::NoDebug => !(l is Debug),
        LoggerVerbosity::OnlyIssues => l is Warn || l is Panic,
        LoggerVerbosity::OnlyPanics => l is Panic,
    }
}
pub open spec fn level_text(l: Log) -> Seq<char> { match l { Log::Debug(_) => "DEBUG"@, Log::Info(_) => "INFO"@, Log::Warn(_) => "WARN"@, Log::Panic(_) => "PANIC!"@ } }
pub open spec fn msg(l: Log) -> Seq<char> { match l { Log::Debug(s) => s@, Log::Info(s) => s@, Log::Warn(s) => s@, Log::Panic(s) => s@ } }
pub open spec fn caller_text(s: SystemCall) -> Seq<char> { match s { SystemCall::Named(s) => s@, SystemCall::NodePath(s) => "["@ + s@ + "]"@ } }
/// One line of the log.
pub open spec fn line(time: Seq<char>, caller: Seq<char>, l: Log) -> Seq<char> { "<"@ + time + " UTC> | "@ + caller + " | "@ + level_text(l) + " | "@ + msg(l) + "\n"@ }
impl SystemCall {
//@ fn structs/logger.rs SystemCall::format | mcall=to_string=>&:to_text
    ensures ret@ == caller_text(*self), // [C18]
//@ end
}
impl<'a> Log<'a> {
//@ fn structs/logger.rs Log::get_lv | mcall=to_string=>&:to_text
    ensures ret@ == level_text(*self), // [C18]
//@ end
//@ fn structs/logger.rs Log::get_msg
    ensures ret@ == msg(*self), // [C18]
//@ end
//@ fn structs/logger.rs Log::get_colour | mcall=to_string=>&:to_text
//@ end
//@ fn structs/logger.rs Log::is_debug
    ensures ret == (*self is Debug), // [C18]
//@ end
//@ fn structs/logger.rs Log::is_problematic
    ensures ret == (*self is Warn || *self is Panic), // [C18]
//@ end
//@ fn structs/logger.rs Log::is_panic
    ensures ret == (*self is Panic), // [C18]
//@ end
}
impl Logger {
//@ fn structs/logger.rs Logger::post_manual | strplus mcall=to_string=>&:to_text
    ensures
        final(self).verbosity_lv == old(self).verbosity_lv, final(self).crash_header == old(self).crash_header, final(self).crash_footer == old(self).crash_footer,
        !admits(old(self).verbosity_lv, log) ==> *final(self) == *old(self), // [C18]
        admits(old(self).verbosity_lv, log) ==> final(self).log@ == old(self).log@ + line(ret@, caller_text(system), log), // [C18]
//@ hint exit
    proof { assert(self.log@ =~= old(self).log@ + line(time@, caller_text(system), log)); }
//@ end
//@ fn structs/logger.rs Logger::new | mcall=to_string=>&:to_text
    ensures ret.verbosity_lv == verbosity_lv, verbosity_lv is All ==> exists|t: Seq<char>| ret.log@ == #[trigger] line(t, "SysLogger"@, Log::Debug("System logger has initialized. Hello World!")), // [C18]
        !(verbosity_lv is All) ==> ret.log@.len() == 0, // [C18]
//@ end
//@ fn structs/logger.rs Logger::set_default_header_on_panic | mcall=to_string=>&:to_text
    ensures final(self).crash_header@ == msg@, final(self).crash_footer == old(self).crash_footer, // [C23]
        final(self).log == old(self).log, final(self).verbosity_lv == old(self).verbosity_lv, // [C18]
//@ end
//@ fn structs/logger.rs Logger::set_default_footer_on_panic | mcall=to_string=>&:to_text
    ensures final(self).crash_footer@ == msg@, final(self).crash_header == old(self).crash_header, // [C23]
        final(self).log == old(self).log, final(self).verbosity_lv == old(self).verbosity_lv, // [C18]
//@ end
//@ fn structs/logger.rs Logger::to_str
    ensures ret@ == self.log@, // [C18]
//@ end
}
