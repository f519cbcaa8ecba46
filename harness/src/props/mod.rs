mod atx;
mod built;
mod clk;
mod combine;
mod crx;
mod dor;
mod header;
mod ion;
mod met;
mod nav;
mod names;
mod notes;
mod obs;
mod orbit;
mod robust;
mod same;
mod serial;
mod blocks;
mod signals;
mod transport;
mod usage;
mod views;
pub static ALL: &[&crate::case::Property] = &[&obs::PARSE, &obs::WRITE, &header::READ, &header::WRITE, &nav::READ, &crx::READ, &crx::WRITE, &crx::KERNELS, &met::READ, &clk::READ, &atx::READ, &ion::READ, &dor::READ, &robust::PARSE, &usage::USE, &names::NAMES, &transport::TRANSPORT, &orbit::ORBITS, &views::VIEWS, &signals::SIGNALS, &combine::COMBINE, &built::BUILT, &same::SAME, &blocks::BLOCKS, &serial::SERIAL, &notes::NOTES];
