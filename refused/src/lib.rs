//! Invocations of the macros that have to be refused, from the file named by FZMON_REFUSED, one to a line.
#![allow(unused)]
include!(env!("FZMON_REFUSED"));
