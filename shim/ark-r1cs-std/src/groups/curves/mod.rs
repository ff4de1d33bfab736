pub mod short_weierstrass;
pub mod twisted_edwards;
