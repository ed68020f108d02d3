pub mod cal;
pub mod fmt;
pub mod ivtext;
pub mod parse;
