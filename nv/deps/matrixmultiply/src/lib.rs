//! Assumed contract of the `matrixmultiply` dependency: C <- alpha A B + beta C, written as the
//! three textbook loops (the real crate computes the same sums with SIMD kernels).
macro_rules! gemm {
    ($name:ident, $t:ty) => {
        /// # Safety
        /// same as the real crate
        #[allow(clippy::too_many_arguments)]
        pub unsafe fn $name(
            m: usize, k: usize, n: usize, alpha: $t, a: *const $t, rsa: isize, csa: isize, b: *const $t, rsb: isize,
            csb: isize, beta: $t, c: *mut $t, rsc: isize, csc: isize,
        ) {
            for i in 0..m as isize {
                for j in 0..n as isize {
                    let mut s: $t = 0.0;
                    for l in 0..k as isize {
                        s += *a.offset(i * rsa + l * csa) * *b.offset(l * rsb + j * csb);
                    }
                    let cp = c.offset(i * rsc + j * csc);
                    if beta == 0.0 {
                        *cp = alpha * s;
                    } else {
                        *cp = beta * *cp + alpha * s;
                    }
                }
            }
        }
    };
}
gemm!(sgemm, f32);
gemm!(dgemm, f64);
