//! T01, T02: rounding of times and conversion to and from the wire formats.
use bd_time::{OffsetDateTimeExt, ProtoDurationExt, TimestampExt, ToProtoDuration};
use protobuf::well_known_types::timestamp::Timestamp;
use time::{Duration, OffsetDateTime};

const SEC: i64 = 1_000_000_000;

const DAYS: [(i32, u16); 8] = [(2024, 366), (1969, 365), (2000, 60), (1970, 1), (1971, 1), (2100, 59), (1, 1), (9999, 364)];
const HOURS: [u8; 6] = [0, 23, 13, 1, 22, 12];

/// Any time of one of the days; its seconds since the epoch and the nanoseconds of the second.
fn any_time() -> (OffsetDateTime, i64, i64) {
  let (y, d) = DAYS[vh::choose("day", vh::param("days", 4)) as usize];
  let date = time::Date::from_ordinal_date(y, d).unwrap();
  let h = HOURS[vh::choose("hour", vh::param("hours", 3)) as usize] as u64;
  let (m, s) = (vh::range("minute", 0, 59), vh::range("second", 0, 59));
  let n = vh::range("nanos", 0, 999_999_999);
  let t = time::Time::from_hms_nano(h as u8, m as u8, s as u8, n as u32).unwrap_or_else(|_| vh::fail("time"));
  let midnight = date.midnight().assume_utc().unix_timestamp();
  (date.with_time(t).assume_utc(), midnight + (h * 3600 + m * 60 + s) as i64, n as i64)
}

const INTERVALS: [i64; 7] = [60, 300, 1, 3600, 5, 7, 86_400];

vh::entry!(t01_rounding, {
  let (t, s, n) = any_time();
  let i = INTERVALS[vh::choose("interval", vh::param("intervals", 5)) as usize];
  let half = if vh::choose("fraction", 2) == 1 { Duration::milliseconds(500) } else { Duration::ZERO };
  let up = vh::choose("up", 2) == 1;
  if up {
    let c = t.ceil(Duration::seconds(i) + half);
    let x = c.unix_timestamp();
    vh::check(x.rem_euclid(i) == 0 && c.nanosecond() == 0, "ceil_is_a_multiple");
    vh::check(x > s || (x == s && n == 0), "ceil_is_not_before");
    vh::check(x - s < i || (x - s == i && n > 0), "ceil_is_the_first");
  } else {
    let f = t.floor(Duration::seconds(i) + half);
    let x = f.unix_timestamp();
    vh::check(x.rem_euclid(i) == 0 && f.nanosecond() == 0, "floor_is_a_multiple");
    vh::check(x <= s && s - x < i, "floor_is_the_last_before");
  }
  vh::reach("rounded");
});

vh::entry!(t02_timestamp, {
  let (t, s, n) = any_time();
  let p = t.into_proto();
  vh::check(p.seconds == s && i64::from(p.nanos) == n, "wire_names_the_instant");
  vh::check(t.unix_timestamp_ms() == s * 1000 + n / 1_000_000, "milliseconds");
  vh::reach("time");
});

// any wire timestamp of those days
vh::entry!(t02_from_wire, {
  let (y, d) = DAYS[vh::choose("day", DAYS.len() as u64) as usize];
  let midnight = time::Date::from_ordinal_date(y, d).unwrap().midnight().assume_utc().unix_timestamp();
  let seconds = midnight + vh::range("second", 0, 86_399) as i64;
  let nanos = vh::range("nanos", 0, 999_999_999) as i32;
  let t = Timestamp { seconds, nanos, ..Default::default() }.to_offset_date_time();
  vh::check(t.unix_timestamp() == seconds && t.nanosecond() == nanos as u32, "instant");
  vh::reach("wire");
});

vh::entry!(t02_duration, {
  use protobuf::well_known_types::duration::Duration as Wire;
  let s = vh::u64v("seconds") as i64;
  let n = vh::range("nanos", 0, 1_999_999_998) as i64 - 999_999_999;
  // what the format allows: the parts do not disagree in sign
  vh::assume(!(s > 0 && n < 0) && !(s < 0 && n > 0));
  vh::assume(s.unsigned_abs() <= 315_576_000_000);
  let n = n as i32;
  let w = Wire { seconds: s, nanos: n, ..Default::default() };
  let d = w.to_time_duration();
  vh::check(d.whole_seconds() == s && d.subsec_nanoseconds() == n, "duration");
  let back = d.into_proto();
  vh::check(back.seconds == s && back.nanos == n, "back_to_the_same_wire_value");
  let a = w.to_std_duration_absolute();
  vh::check(a.as_secs() == s.unsigned_abs() && a.subsec_nanos() == n.unsigned_abs(), "absolute");
  match w.to_std_duration_checked() {
    None => {
      vh::check(s < 0 || n < 0, "only_negative_refused");
      vh::reach("negative");
    },
    Some(c) => {
      vh::check(s >= 0 && n >= 0, "negative_refused");
      vh::check(c == a, "checked");
      let back = c.into_proto();
      vh::check(back.seconds == s && back.nanos == n, "back_to_the_same_wire_value");
      vh::reach("positive");
    },
  }
});
