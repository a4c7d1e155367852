//! Nothing but records with derived models: these must compile.
#![allow(dead_code, unused_imports)]
use {
    chrono::{Duration, NaiveDate, NaiveDateTime},
    mysql_connector::{macros::*, model::*, types::Hex},
};

include!("records.in");

fn main() {}
