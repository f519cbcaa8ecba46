pub mod any;
pub mod atx;
pub mod clk;
pub mod crx;
pub mod dor;
pub mod header;
pub mod ion;
pub mod met;
pub mod obs;
pub mod strict;
pub mod text;
pub mod nav;
