//! What a bad disk or network does to bytes.

use simkit::{Ctx, Src};

pub fn damage(src: &mut Src, ctx: &mut Ctx, mut b: Vec<u8>, other: &[u8]) -> Vec<u8> {
    let n = b.len();
    match src.weighted(&[3, 6, 3, 2, 2, 2, 2, 4, 2, 1]) {
        0 => {
            ctx.fault("truncated");
            let k = src.idx(n + 1);
            b.truncate(k);
        }
        1 => {
            ctx.fault("bits flipped");
            if n > 0 {
                for _ in 0..1 + src.below(6) {
                    let i = src.idx(n);
                    b[i] ^= 1 << src.below(8);
                }
            }
        }
        2 => {
            ctx.fault("word overwritten");
            if n >= 4 {
                for _ in 0..1 + src.below(3) {
                    let i = src.idx(n / 4) * 4;
                    let v: u32 = match src.below(8) {
                        0 => 0,
                        1 => u32::MAX,
                        2 => 0x7fff_ffff,
                        3 => 0x8000_0000,
                        4 => n as u32 + src.below(9) as u32,
                        5 => (n as u32).wrapping_sub(i as u32).wrapping_sub(src.below(9) as u32),
                        6 => src.below(n as u64 + 1) as u32,
                        _ => (src.below(64) as u32).wrapping_neg(),
                    };
                    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        3 => {
            ctx.fault("range zeroed");
            if n > 0 {
                let i = src.idx(n);
                let k = src.idx(n - i + 1);
                b[i..i + k].fill(0);
            }
        }
        4 => {
            ctx.fault("torn: tail from another message");
            let k = src.idx(n + 1);
            b.truncate(k);
            if other.len() > k {
                b.extend_from_slice(&other[k..]);
            }
        }
        5 => {
            ctx.fault("torn: tail never written");
            let k = src.idx(n + 1);
            let f = *src.pick(&[0u8, 0xff]);
            b[k..].fill(f);
        }
        6 => {
            ctx.fault("shifted");
            let k = 1 + src.idx(9);
            if src.chance(1, 2) {
                b.drain(..k.min(n));
            } else {
                let mut v = vec![0u8; k];
                v.extend_from_slice(&b);
                b = v;
            }
        }
        7 => {
            ctx.fault("half-word overwritten");
            if n >= 2 {
                for _ in 0..1 + src.below(4) {
                    let i = src.idx(n / 2) * 2;
                    let v: u16 = match src.below(6) {
                        0 => 0,
                        1 => 1,
                        2 => u16::MAX,
                        3 => src.below(40) as u16,
                        4 => n as u16,
                        _ => src.below(65536) as u16,
                    };
                    b[i..i + 2].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        8 => {
            ctx.fault("block copied over another");
            if n > 1 {
                let a = src.idx(n);
                let c = src.idx(n);
                let k = src.idx(n - a.max(c)) + 1;
                let t = b[a..a + k].to_vec();
                b[c..c + k].copy_from_slice(&t);
            }
        }
        _ => {
            ctx.fault("replaced by junk");
            let k = src.size(200) as usize;
            b = (0..k).map(|_| if src.chance(1, 2) { src.below(16) as u8 } else { src.below(256) as u8 }).collect();
        }
    }
    b
}
