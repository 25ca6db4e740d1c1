//! Small unsigned big integers, schoolbook algorithms. Shares nothing with the library.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Big(pub Vec<u32>);

impl Big {
    pub fn from_u128(mut x: u128) -> Big {
        let mut v = Vec::new();
        while x != 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Big(v)
    }
    fn trim(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> i64 {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() as i64 * 32 - t.leading_zeros() as i64,
        }
    }
    pub fn bit(&self, i: i64) -> bool {
        if i < 0 {
            return false;
        }
        let (w, b) = ((i / 32) as usize, i % 32);
        self.0.get(w).is_some_and(|x| x >> b & 1 == 1)
    }
    pub fn to_u128(&self) -> u128 {
        assert!(self.bits() <= 128);
        self.0.iter().rev().fold(0, |a, &d| a << 32 | d as u128)
    }
    /// Whether any of the low n bits is set.
    pub fn any_below(&self, n: i64) -> bool {
        let mut left = n;
        for &d in &self.0 {
            if left <= 0 {
                return false;
            }
            let m = if left >= 32 { !0 } else { (1u32 << left) - 1 };
            if d & m != 0 {
                return true;
            }
            left -= 32;
        }
        false
    }
    pub fn shl(&self, n: i64) -> Big {
        assert!(n >= 0);
        if self.is_zero() {
            return self.clone();
        }
        let (w, b) = ((n / 32) as usize, (n % 32) as u32);
        let mut v = vec![0u32; w];
        let mut c = 0u32;
        for &d in &self.0 {
            let x = (d as u64) << b | c as u64;
            v.push(x as u32);
            c = (x >> 32) as u32;
        }
        v.push(c);
        Big(v).trim()
    }
    pub fn shr(&self, n: i64) -> Big {
        assert!(n >= 0);
        let (w, b) = ((n / 32) as usize, (n % 32) as u32);
        if w >= self.0.len() {
            return Big(vec![]);
        }
        let mut v = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            let x = ((hi << 32) | self.0[i] as u64) >> b;
            v.push(x as u32);
        }
        Big(v).trim()
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                match self.0[i].cmp(&o.0[i]) {
                    Ordering::Equal => {}
                    x => return x,
                }
            }
            Ordering::Equal
        })
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Big(v).trim()
    }
    /// self - o, self >= o.
    pub fn sub(&self, o: &Big) -> Big {
        let mut v = Vec::with_capacity(self.0.len());
        let mut bw = 0i64;
        for i in 0..self.0.len() {
            let mut x = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - bw;
            bw = 0;
            if x < 0 {
                x += 1 << 32;
                bw = 1;
            }
            v.push(x as u32);
        }
        assert_eq!(bw, 0);
        Big(v).trim()
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                c += v[i + j] as u64 + a as u64 * b as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Big(v).trim()
    }
    pub fn mul_small(&self, m: u32, add: u32) -> Big {
        let mut v = Vec::with_capacity(self.0.len() + 1);
        let mut c = add as u64;
        for &a in &self.0 {
            c += a as u64 * m as u64;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Big(v).trim()
    }
    pub fn pow(base: u32, mut e: u32) -> Big {
        let mut r = Big::from_u128(1);
        let mut b = Big::from_u128(base as u128);
        while e != 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e != 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Big(vec![]), self.clone());
        }
        if d.0.len() == 1 {
            let m = d.0[0] as u64;
            let mut q = vec![0u32; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                let x = r << 32 | self.0[i] as u64;
                q[i] = (x / m) as u32;
                r = x % m;
            }
            return (Big(q).trim(), Big::from_u128(r as u128));
        }
        // Knuth D
        let s = d.0.last().unwrap().leading_zeros() as i64;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        while u.len() <= self.0.len() {
            u.push(0);
        }
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= 1 << 32 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= 1 << 32 {
                    break;
                }
            }
            let mut bw = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                c += qh * v[i] as u64;
                let mut t = u[i + j] as i64 - bw - (c as u32) as i64;
                c >>= 32;
                bw = 0;
                if t < 0 {
                    t += 1 << 32;
                    bw = 1;
                }
                u[i + j] = t as u32;
            }
            let t = u[j + n] as i64 - bw - c as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = u[j + n].wrapping_add(c as u32);
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Big(q).trim(), Big(u).trim().shr(s))
    }
}
