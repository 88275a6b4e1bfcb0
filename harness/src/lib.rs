mod sx;
#[cfg(feature = "self")]
mod selft;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c26")]
mod c26;
#[cfg(feature = "c27")]
mod c27;
#[cfg(feature = "c28")]
mod c28;
mod ov;
#[cfg(any(feature = "c13", feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19", feature = "c20", feature = "c21", feature = "c22", feature = "c25", feature = "c26"))]
mod rec;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c18", feature = "c19", feature = "c20", feature = "c21", feature = "c22", feature = "c23", feature = "c24", feature = "c25", feature = "c26"))]
mod props;
mod t;

#[cfg(feature = "replay")]
pub fn load(path: &str) {
    sx::load(path)
}

macro_rules! entries {
    ($($f:literal $n:ident => $p:path;)*) => {
        $(
            #[cfg(feature = $f)]
            #[unsafe(no_mangle)]
            pub extern "C" fn $n() { $p() }
        )*
        pub fn run(name: &str) {
            match name {
                $( #[cfg(feature = $f)] stringify!($n) => $p(), )*
                _ => panic!("no harness {name}"),
            }
        }
    };
}

entries! {
    "self" selft_all => selft::all;
    "c06" c06_date => c06::date;
    "c06" c06_floating => c06::floating;
    "c06" c06_local => c06::local;
    "c06" c06_event => c06::event;
    "c06" c06_event_zone => c06::event_zone;
    "c08" c08_from_str => c08::from_str;
    "c08" c08_weekdaynum => c08::weekdaynum;
    "c08" c08_property => c08::property;
    "c08" c08_integer => c08::integer;
    "c07" c07_parts => c07::parts;
    "c07" c07_limits => c07::limits;
    "c07" c07_malformed => c07::malformed;
    "c15" c15_date => c15::date;
    "c15" c15_time => c15::time;
    "c15" c15_event => c15::event;
    "c15" c15_journal => c15::journal;
    "c15" c15_todo => c15::todo;
    "c15" c15_local => c15::local;
    "c16" c16_event => c16::event;
    "c16" c16_journal => c16::journal;
    "c16" c16_todo => c16::todo;
    "c16" c16_total => c16::total;
    "c16" c16_text => c16::text;
    "c17" c17_event => c17::event;
    "c17" c17_journal => c17::journal;
    "c17" c17_todo => c17::todo;
    "c17" c17_local => c17::local;
    "c17" c17_text => c17::text;
    "c18" c18_event => c18::event;
    "c18" c18_journal => c18::journal;
    "c18" c18_todo => c18::todo;
    "c18" c18_several => c18::several;
    "c18" c18_text => c18::text;
    "c18" c18_local => c18::local;
    "c19" c19_event => c19::event;
    "c19" c19_journal => c19::journal;
    "c19" c19_todo => c19::todo;
    "c19" c19_local => c19::local;
    "c19" c19_many => c19::many;
    "c20" c20_events => c20::events;
    "c20" c20_todos => c20::todos;
    "c20" c20_journals => c20::journals;
    "c20" c20_local => c20::local;
    "c21" c21_dates => c21::dates;
    "c21" c21_dates3 => c21::dates3;
    "c21" c21_times => c21::times;
    "c21" c21_times3 => c21::times3;
    "c21" c21_periods => c21::periods;
    "c21" c21_periods3 => c21::periods3;
    "c22" c22_convert => c22::convert;
    "c22" c22_to_local => c22::to_local;
    "c22" c22_add => c22::add;
    "c22" c22_period => c22::period;
    "c04" c04_pairs => c04::pairs;
    "c04" c04_all => c04::all;
    "c04" c04_missing => c04::missing;
    "c04" c04_recurrence_id => c04::recurrence_id;
    "c04" c04_lists => c04::lists;
    "c04" c04_dates => c04::dates;
    "c03" c03_values => c03::values;
    "c03" c03_long => c03::long;
    "c03" c03_params => c03::params;
    "c03" c03_two => c03::two;
    "c03" c03_names => c03::names;
    "c02" c02_lines => c02::lines;
    "c02" c02_any => c02::any;
    "c02" c02_whole => c02::whole;
    "c02" c02_everywhere => c02::everywhere;
    "c05" c05_nesting => c05::nesting;
    "c05" c05_parts => c05::parts;
    "c05" c05_cut => c05::cut;
    "c05" c05_mismatch => c05::mismatch;
    "c05" c05_spoiled => c05::spoiled;
    "c09" c09_pairs => c09::pairs;
    "c09" c09_all => c09::all;
    "c09" c09_lists => c09::lists;
    "c09" c09_numbers => c09::numbers;
    "c09" c09_malformed => c09::malformed;
    "c10" c10_long => c10::long;
    "c10" c10_lists => c10::lists;
    "c10" c10_components => c10::components;
    "c10" c10_nested => c10::nested;
    "c11" c11_each => c11::each;
    "c11" c11_some => c11::some;
    "c11" c11_extensions => c11::extensions;
    "c11" c11_nested => c11::nested;
    "c11" c11_values => c11::values;
    "c12" c12_values => c12::values;
    "c12" c12_params => c12::params;
    "c12" c12_typed => c12::typed;
    "c12" c12_all => c12::all;
    "c12" c12_any => c12::any;
    "c12" c12_nested => c12::nested;
    "c13" c13_dates => c13::dates;
    "c13" c13_durations => c13::durations;
    "c13" c13_periods => c13::periods;
    "c13" c13_offsets => c13::offsets;
    "c13" c13_enums => c13::enums;
    "c13" c13_rules => c13::rules;
    "c13" c13_lists => c13::lists;
    "c13" c13_uris => c13::uris;
    "c13" c13_statuses => c13::statuses;
    "c14" c14_texts => c14::texts;
    "c14" c14_special => c14::special;
    "c14" c14_params => c14::params;
    "c14" c14_raw => c14::raw;
    "c14" c14_nested => c14::nested;
    "c23" c23_fields => c23::fields;
    "c23" c23_enums => c23::enums;
    "c23" c23_several => c23::several;
    "c23" c23_bad => c23::bad;
    "c01" c01_values => c01::values;
    "c01" c01_ascii => c01::ascii;
    "c01" c01_inside => c01::inside;
    "c01" c01_numbers => c01::numbers;
    "c01" c01_durations => c01::durations;
    "c01" c01_lines => c01::lines;
    "c01" c01_replaced => c01::replaced;
    "c01" c01_raw => c01::raw;
    "c01" c01_pieces => c01::pieces;
    "c01" c01_cut => c01::cut;
    "c01" c01_changed => c01::changed;
    "c15" c15_context => c15::context;
    "c15" c15_rules => c15::rules;
    "c16" c16_context => c16::context;
    "c16" c16_rules => c16::rules;
    "c17" c17_context => c17::context;
    "c17" c17_rules => c17::rules;
    "c18" c18_context => c18::context;
    "c18" c18_rules => c18::rules;
    "c19" c19_context => c19::context;
    "c19" c19_rules => c19::rules;
    "c20" c20_context => c20::context;
    "c20" c20_rules => c20::rules;
    "c20" c20_long => c20::long;
    "c15" c15_every => c15::every;
    "c17" c17_many => c17::many;
    "c18" c18_many => c18::many;
    "c09" c09_triples => c09::triples;
    "c03" c03_standard => c03::standard;
    "c04" c04_params => c04::params;
    "c06" c06_changed => c06::changed;
    "c11" c11_standard => c11::standard;
    "c12" c12_repeated => c12::repeated;
    "c12" c12_standard => c12::standard;
    "c14" c14_standard => c14::standard;
    "c24" c24_values => c24::values;
    "c24" c24_components => c24::components;
    "c24" c24_nested => c24::nested;
    "c24" c24_kinds => c24::kinds;
    "c24" c24_arbitrary => c24::arbitrary;
    "c25" c25_dates => c25::dates;
    "c25" c25_others => c25::others;
    "c25" c25_texts => c25::texts;
    "c25" c25_alarms => c25::alarms;
    "c25" c25_views => c25::views;
    "c25" c25_new => c25::new;
    "c26" c26_event => c26::event;
    "c26" c26_journal => c26::journal;
    "c26" c26_todo => c26::todo;
    "c26" c26_local => c26::local;
    "c26" c26_context => c26::context;
    "c26" c26_many => c26::many;
    "c26" c26_ranges => c26::ranges;
    "c21" c21_lengths => c21::lengths;
    "c24" c24_zone => c24::zone;
    "c12" c12_zone => c12::zone;
    "c21" c21_fractions => c21::fractions;
    "c11" c11_mixed => c11::mixed;
    "c03" c03_large => c03::large;
    "c04" c04_large => c04::large;
    "c04" c04_many_dates => c04::many_dates;
    "c05" c05_many => c05::many;
    "c09" c09_large => c09::large;
    "c10" c10_huge => c10::huge;
    "c11" c11_large => c11::large;
    "c12" c12_large => c12::large;
    "c03" c03_near => c03::near;
    "c06" c06_lists => c06::lists;
    "c13" c13_numbers => c13::numbers;
    "c13" c13_years => c13::years;
    "c13" c13_places => c13::places;
    "c13" c13_long => c13::long;
    "c22" c22_far => c22::far;
    "c27" c27_five => c27::five;
    "c27" c27_longer => c27::longer;
    "c27" c27_seconds => c27::seconds;
    "c27" c27_short => c27::short;
    "c28" c28_positions => c28::positions;
    "c28" c28_digits => c28::digits;
    "c28" c28_statuses => c28::statuses;
    "c28" c28_codes => c28::codes;
    "c28" c28_periods => c28::periods;
    "c27" c27_written => c27::written;
}
