pub use rand_xorshift::XorShiftRng;
