#[path = "/repo/crates/epoch-snark/src/encoding.rs"]
pub mod encoding;
pub use encoding::EncodingError;
#[path = "/repo/crates/epoch-snark/src/epoch_block.rs"]
pub mod epoch_block;
pub use epoch_block::{EpochBlock, EpochTransition};
pub struct Blob;
impl ark_serialize::CanonicalDeserialize for Blob { fn deserialize<R: std::io::Read>(_: R) -> Result<Self, ark_serialize::SerializationError> { Ok(Blob) } }
pub fn verify(_: &Blob, _: &EpochBlock, _: &EpochBlock, _: &Blob) -> Result<(), EncodingError> { Err(ark_serialize::SerializationError::InvalidData.into()) }
