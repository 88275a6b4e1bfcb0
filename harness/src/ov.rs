//! Plain replacements for std routines whose exact code is not the subject:
//! the executor calls these instead of the std function of the same meaning.

/// `<str as Debug>::fmt` without escaping: only error messages go through it.
#[unsafe(no_mangle)]
pub fn sx_ov_str_debug(s: &str, f: &mut core::fmt::Formatter) -> core::fmt::Result {
    use core::fmt::Write;
    f.write_char('"')?;
    f.write_str(s)?;
    f.write_char('"')
}
