//! Native compression functions (SHA-1, SHA-256, SHA-512) over their byte images.
pub const ALGS: [(usize, usize); 3] = [(20, 64), (32, 64), (64, 128)]; // state bytes, block bytes

fn root(n: u64, p: u32, bits: u32) -> u64 {
    // first `bits` bits of the fractional part of the p-th root of n
    let (mut lo, mut hi) = (0u128, 1u128 << (bits + 5));
    let pw = |x: u128| -> bool {
        // x^p <= n << (bits*p), without overflow: big multiplication in base 2^32
        let mut a = vec![1u64];
        for _ in 0..p {
            let xs: Vec<u64> = (0..4).map(|i| ((x >> (32 * i)) & 0xffff_ffff) as u64).collect();
            let mut r = vec![0u64; a.len() + 5];
            for (i, &ai) in a.iter().enumerate() {
                let mut c = 0u128;
                for (j, &xj) in xs.iter().enumerate() { let t = r[i + j] as u128 + ai as u128 * xj as u128 + c; r[i + j] = (t & 0xffff_ffff) as u64; c = t >> 32; }
                let mut k = i + 4;
                while c > 0 { let t = r[k] as u128 + c; r[k] = (t & 0xffff_ffff) as u64; c = t >> 32; k += 1; }
            }
            a = r;
        }
        let sh = bits * p;
        let mut b = vec![0u64; a.len()];
        let w = (sh / 32) as usize;
        let v = (n as u128) << (sh % 32);
        for i in 0..4 { if w + i < b.len() { b[w + i] = ((v >> (32 * i)) & 0xffff_ffff) as u64; } }
        for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i] < b[i]; } }
        true
    };
    while hi - lo > 1 { let m = (lo + hi) / 2; if pw(m) { lo = m } else { hi = m } }
    (lo & ((1u128 << bits) - 1)) as u64
}
fn primes(n: usize) -> Vec<u64> { let mut v = vec![]; let mut i = 2; while v.len() < n { if v.iter().all(|p| i % p != 0) { v.push(i); } i += 1; } v }

pub fn compress(alg: usize, st: &[u8], bl: &[u8]) -> Vec<u8> {
    use std::sync::OnceLock;
    static K2: OnceLock<Vec<u32>> = OnceLock::new();
    static K5: OnceLock<Vec<u64>> = OnceLock::new();
    let w32 = |b: &[u8], i: usize| u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    let s32 = |i: usize| u32::from_le_bytes(st[4 * i..4 * i + 4].try_into().unwrap());
    match alg {
        0 => {
            let mut w: Vec<u32> = (0..16).map(|i| w32(bl, i)).collect();
            for i in 16..80 { let x = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); w.push(x); }
            let h: Vec<u32> = (0..5).map(s32).collect();
            let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
            for i in 0..80 {
                let (f, k) = match i / 20 { 0 => ((b & c) | (!b & d), 0x5A827999u32), 1 => (b ^ c ^ d, 0x6ED9EBA1), 2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC), _ => (b ^ c ^ d, 0xCA62C1D6) };
                let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
                e = d; d = c; c = b.rotate_left(30); b = a; a = t;
            }
            [a, b, c, d, e].iter().zip(h).flat_map(|(x, y)| x.wrapping_add(y).to_le_bytes()).collect()
        }
        1 => {
            let k = K2.get_or_init(|| primes(64).into_iter().map(|p| root(p, 3, 32) as u32).collect());
            let mut w: Vec<u32> = (0..16).map(|i| w32(bl, i)).collect();
            for i in 16..64 {
                let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
                let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let h: Vec<u32> = (0..8).map(s32).collect();
            let mut v = h.clone();
            for i in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                v.rotate_right(1);
                v[4] = v[4].wrapping_add(t1);
                v[0] = t1.wrapping_add(t2);
            }
            v.iter().zip(h).flat_map(|(x, y)| x.wrapping_add(y).to_le_bytes()).collect()
        }
        _ => {
            let k = K5.get_or_init(|| primes(80).into_iter().map(|p| root(p, 3, 64)).collect());
            let mut w: Vec<u64> = (0..16).map(|i| u64::from_be_bytes(bl[8 * i..8 * i + 8].try_into().unwrap())).collect();
            for i in 16..80 {
                let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
                let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let h: Vec<u64> = (0..8).map(|i| u64::from_le_bytes(st[8 * i..8 * i + 8].try_into().unwrap())).collect();
            let mut v = h.clone();
            for i in 0..80 {
                let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
                let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                v.rotate_right(1);
                v[4] = v[4].wrapping_add(t1);
                v[0] = t1.wrapping_add(t2);
            }
            v.iter().zip(h).flat_map(|(x, y)| x.wrapping_add(y).to_le_bytes()).collect()
        }
    }
}
