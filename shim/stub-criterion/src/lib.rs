//! Offline stand-in (unused by library code under test).
