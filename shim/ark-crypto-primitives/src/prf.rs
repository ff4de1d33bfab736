pub mod blake2s {
    use ark_ff::{Field, PrimeField};
    #[derive(Clone, Debug, Default)]
    pub struct Blake2sWithParameterBlock {
        pub digest_length: u8, pub key_length: u8, pub fan_out: u8, pub depth: u8, pub leaf_length: u32, pub node_offset: u32, pub xof_digest_length: u16,
        pub node_depth: u8, pub inner_length: u8, pub salt: [u8; 8], pub personalization: [u8; 8],
    }
    fn block(p: &Blake2sWithParameterBlock) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[0] = p.digest_length; b[1] = p.key_length; b[2] = p.fan_out; b[3] = p.depth;
        b[4..8].copy_from_slice(&p.leaf_length.to_le_bytes()); b[8..12].copy_from_slice(&p.node_offset.to_le_bytes()); b[12..14].copy_from_slice(&p.xof_digest_length.to_le_bytes());
        b[14] = p.node_depth; b[15] = p.inner_length; b[16..24].copy_from_slice(&p.salt); b[24..32].copy_from_slice(&p.personalization);
        b
    }
    const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3], [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8], [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10], [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    pub fn words(b: &[u8; 32]) -> [u32; 8] { let mut r = [0; 8]; for (i, c) in b.chunks(4).enumerate() { r[i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]); } r }
    fn compress(h: &mut [u32; 8], m: &[u8], t: u64, last: bool) {
        let mut w = [0u32; 16]; for (i, c) in m.chunks(4).enumerate() { w[i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]); }
        let mut v = [0u32; 16]; v[..8].copy_from_slice(h); v[8..].copy_from_slice(&IV); v[12] ^= t as u32; v[13] ^= (t >> 32) as u32; if last { v[14] = !v[14]; }
        let mut g = |v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(16); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(8); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(7);
        };
        for s in SIGMA.iter() {
            g(&mut v, 0, 4, 8, 12, w[s[0]], w[s[1]]); g(&mut v, 1, 5, 9, 13, w[s[2]], w[s[3]]); g(&mut v, 2, 6, 10, 14, w[s[4]], w[s[5]]); g(&mut v, 3, 7, 11, 15, w[s[6]], w[s[7]]);
            g(&mut v, 0, 5, 10, 15, w[s[8]], w[s[9]]); g(&mut v, 1, 6, 11, 12, w[s[10]], w[s[11]]); g(&mut v, 2, 7, 8, 13, w[s[12]], w[s[13]]); g(&mut v, 3, 4, 9, 14, w[s[14]], w[s[15]]);
        }
        for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
    }
    pub fn blake2s(params: &[u32; 8], msg: &[u8]) -> [u32; 8] {
        let mut h = IV; for i in 0..8 { h[i] ^= params[i]; }
        let n = if msg.is_empty() { 1 } else { (msg.len() + 63) / 64 };
        for i in 0..n { let mut b = [0u8; 64]; let c = &msg[(64 * i).min(msg.len())..(64 * i + 64).min(msg.len())]; b[..c.len()].copy_from_slice(c); compress(&mut h, &b, (64 * i + c.len()) as u64, i == n - 1); }
        h
    }
    impl Blake2sWithParameterBlock {
        pub fn parameters(&self) -> [u32; 8] { words(&block(self)) }
        pub fn evaluate(&self, input: &[u8]) -> Vec<u8> { blake2s(&self.parameters(), input).iter().flat_map(|w| w.to_le_bytes().to_vec()).collect() }
    }
    pub mod constraints {
        use super::*;
        use ark_r1cs_std::{bits::uint32::bit_ids, prelude::*};
        use ark_relations::{r1cs::SynthesisError, sim};
        pub fn evaluate_blake2s_with_parameters<F: PrimeField>(input: &[Boolean<F>], parameters: &[u32; 8]) -> Result<Vec<UInt32<F>>, SynthesisError> {
            assert!(input.len() % 8 == 0);
            let cs = input.cs();
            let v = input.iter().map(|b| b.value()).collect::<Result<Vec<bool>, _>>().ok();
            let out = v.map(|b| {
                let msg: Vec<u8> = b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | ((*b as u8) << i))).collect();
                let d = blake2s(parameters, &msg);
                let mut pers = [0; 8]; pers[..4].copy_from_slice(&parameters[6].to_le_bytes()); pers[4..].copy_from_slice(&parameters[7].to_le_bytes());
                sim::hashed(msg, pers, d.iter().flat_map(|w| w.to_le_bytes().to_vec()).collect());
                d
            });
            let mut ids = bit_ids(input); ids.extend(parameters.iter().map(|p| *p as u64));
            cs.tag("blake2s input", &ids);
            Ok((0..8).map(|i| UInt32::ideal(&cs, "blake2s", &[i], out.map(|o| o[i as usize]))).collect())
        }
        pub fn evaluate_blake2s<F: PrimeField>(input: &[Boolean<F>]) -> Result<Vec<UInt32<F>>, SynthesisError> { evaluate_blake2s_with_parameters(input, &words(&block(&Blake2sWithParameterBlock { digest_length: 32, fan_out: 1, depth: 1, ..Default::default() }))) }
    }
    #[allow(unused)] fn _t<F: Field>() {}
}
pub use blake2s::Blake2sWithParameterBlock;
