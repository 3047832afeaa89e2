//! One of the programs which tools/memory.py writes.
#![allow(dead_code, unused_imports)]
include!(env!("CFAIL"));
