use crate::engine::Suite;

pub type Builder = fn(&mut Suite, bool);

macro_rules! props {
    ($($id:literal => $m:ident :: $f:ident),* $(,)?) => {
        pub fn all() -> Vec<(&'static str, Builder)> {
            vec![$(($id, $m::$f as Builder)),*]
        }
    };
}

mod c01_headers;
mod c02_header_text;
mod c03_body_stream;
mod c05_body_values;
mod c07_message;
mod c08_channels;
mod c12_tokens;
mod c14_errors;
mod c15_hyperium;
mod c16_request;
mod c18_mime;
mod c20_encodings;
mod c21_forwarded;
mod c22_dates;
mod c24_lists;
mod c27_auth;
mod c28_trace;
mod c30_security;
mod c32_values;
mod c34_readers;
mod c36_compare;
pub mod edits;

props! {
    "C01" => c01_headers::build,
    "C02" => c02_header_text::build,
    "C03" => c03_body_stream::build_c03,
    "C04" => c03_body_stream::build_c04,
    "C05" => c05_body_values::build_c05,
    "C06" => c05_body_values::build_c06,
    "C07" => c07_message::build_c07,
    "C08" => c08_channels::build_c08,
    "C09" => c08_channels::build_c09,
    "C10" => c07_message::build_c10,
    "C11" => c07_message::build_c11,
    "C12" => c12_tokens::build_c12,
    "C13" => c12_tokens::build_c13,
    "C14" => c14_errors::build,
    "C15" => c15_hyperium::build,
    "C16" => c16_request::build_c16,
    "C17" => c16_request::build_c17,
    "C18" => c18_mime::build_c18,
    "C19" => c18_mime::build_c19,
    "C20" => c20_encodings::build,
    "C21" => c21_forwarded::build,
    "C22" => c22_dates::build_c22,
    "C23" => c22_dates::build_c23,
    "C24" => c24_lists::build_c24,
    "C25" => c24_lists::build_c25,
    "C26" => c24_lists::build_c26,
    "C27" => c27_auth::build,
    "C28" => c28_trace::build_c28,
    "C29" => c28_trace::build_c29,
    "C30" => c30_security::build_c30,
    "C31" => c30_security::build_c31,
    "C32" => c32_values::build_c32,
    "C33" => c32_values::build_c33,
    "C34" => c34_readers::build_c34,
    "C35" => c34_readers::build_c35,
    "C36" => c36_compare::build,
}
