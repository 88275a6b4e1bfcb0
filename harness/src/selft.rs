//! Executor self-test: a concrete document is parsed, serialised, compared and
//! iterated; the log must equal that of a native run.
use crate::sx;
pub fn all() {
    let s = std::env::var("SX_INPUT").unwrap();
    let k = std::env::var("SX_KIND").unwrap();
    macro_rules! one {
        ($t:ty) => {
            match s.parse::<$t>() {
                Ok(v) => {
                    sx::log(&format!("{v:?}"));
                    sx::log(&format!("{:?}", ikal::ser::ical(&v)));
                }
                Err(e) => sx::log(&format!("{e:?}")),
            }
        };
    }
    match k.as_str() {
        "alarms" => one!(ikal::VAlarm),
        "events" => {
            one!(ikal::VEvent);
            if let Ok(v) = s.parse::<ikal::VEvent>() {
                for (i, e) in v.recurrent().take(5).enumerate() {
                    sx::log(&format!("{i} {:?} {:?}", e.dtstart, e.dtend));
                }
            }
        }
        "freebusy" => one!(ikal::VFreebusy),
        "journals" => one!(ikal::VJournal),
        "timezones" => one!(ikal::VTimezone),
        "todos" => one!(ikal::VTodo),
        _ => one!(ikal::VCalendar),
    }
}
