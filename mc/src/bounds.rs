//! Largest values measured over the families of C10 and C25 (tools/calibrate.py).
pub fn bound(k: &str) -> Option<f64> {
    TABLE.binary_search_by(|x| x.0.cmp(k)).ok().map(|i| TABLE[i].1)
}
const TABLE: &[(&str, f64)] = &[
    ("decompositions cycle classic 1e-3", 23.0),
    ("decompositions cycle classic 1e-4", 25.0),
    ("decompositions cycle classic 1e-6", 32.0),
    ("decompositions cycle classic 1e-8", 38.0),
    ("decompositions cycle default 1e-3", 23.0),
    ("decompositions cycle default 1e-4", 25.0),
    ("decompositions cycle default 1e-6", 32.0),
    ("decompositions cycle default 1e-8", 38.0),
    ("decompositions cycle fac 1e-3", 41.0),
    ("decompositions cycle fac 1e-4", 42.0),
    ("decompositions cycle fac 1e-6", 51.0),
    ("decompositions cycle fac 1e-8", 57.0),
    ("decompositions cycle fdjac 1e-3", 24.0),
    ("decompositions cycle fdjac 1e-4", 26.0),
    ("decompositions cycle fdjac 1e-6", 33.0),
    ("decompositions cycle fdjac 1e-8", 40.0),
    ("decompositions cycle fnewt 1e-3", 23.0),
    ("decompositions cycle fnewt 1e-4", 24.0),
    ("decompositions cycle fnewt 1e-6", 32.0),
    ("decompositions cycle fnewt 1e-8", 41.0),
    ("decompositions cycle hold 1e-3", 17.0),
    ("decompositions cycle hold 1e-4", 18.0),
    ("decompositions cycle hold 1e-6", 22.0),
    ("decompositions cycle hold 1e-8", 22.0),
    ("decompositions cycle newt10 1e-3", 23.0),
    ("decompositions cycle newt10 1e-4", 25.0),
    ("decompositions cycle newt10 1e-6", 30.0),
    ("decompositions cycle newt10 1e-8", 38.0),
    ("decompositions cycle newt3 1e-3", 22.0),
    ("decompositions cycle newt3 1e-4", 26.0),
    ("decompositions cycle newt3 1e-6", 34.0),
    ("decompositions cycle newt3 1e-8", 46.0),
    ("decompositions cycle noext 1e-3", 22.0),
    ("decompositions cycle noext 1e-4", 24.0),
    ("decompositions cycle noext 1e-6", 31.0),
    ("decompositions cycle noext 1e-8", 41.0),
    ("decompositions cycle nohold 1e-3", 24.0),
    ("decompositions cycle nohold 1e-4", 28.0),
    ("decompositions cycle nohold 1e-6", 45.0),
    ("decompositions cycle nohold 1e-8", 73.0),
    ("decompositions cycle safe 1e-3", 26.0),
    ("decompositions cycle safe 1e-4", 28.0),
    ("decompositions cycle safe 1e-6", 36.0),
    ("decompositions cycle safe 1e-8", 45.0),
    ("decompositions decay classic 1e-3", 32.0),
    ("decompositions decay classic 1e-4", 26.0),
    ("decompositions decay classic 1e-6", 31.0),
    ("decompositions decay classic 1e-8", 39.0),
    ("decompositions decay default 1e-3", 32.0),
    ("decompositions decay default 1e-4", 25.0),
    ("decompositions decay default 1e-6", 31.0),
    ("decompositions decay default 1e-8", 39.0),
    ("decompositions decay fac 1e-3", 42.0),
    ("decompositions decay fac 1e-4", 43.0),
    ("decompositions decay fac 1e-6", 48.0),
    ("decompositions decay fac 1e-8", 56.0),
    ("decompositions decay fdjac 1e-3", 31.0),
    ("decompositions decay fdjac 1e-4", 25.0),
    ("decompositions decay fdjac 1e-6", 34.0),
    ("decompositions decay fdjac 1e-8", 40.0),
    ("decompositions decay fnewt 1e-3", 30.0),
    ("decompositions decay fnewt 1e-4", 25.0),
    ("decompositions decay fnewt 1e-6", 32.0),
    ("decompositions decay fnewt 1e-8", 39.0),
    ("decompositions decay hold 1e-3", 27.0),
    ("decompositions decay hold 1e-4", 18.0),
    ("decompositions decay hold 1e-6", 20.0),
    ("decompositions decay hold 1e-8", 20.0),
    ("decompositions decay newt10 1e-3", 32.0),
    ("decompositions decay newt10 1e-4", 25.0),
    ("decompositions decay newt10 1e-6", 31.0),
    ("decompositions decay newt10 1e-8", 38.0),
    ("decompositions decay newt3 1e-3", 30.0),
    ("decompositions decay newt3 1e-4", 27.0),
    ("decompositions decay newt3 1e-6", 34.0),
    ("decompositions decay newt3 1e-8", 47.0),
    ("decompositions decay noext 1e-3", 32.0),
    ("decompositions decay noext 1e-4", 26.0),
    ("decompositions decay noext 1e-6", 32.0),
    ("decompositions decay noext 1e-8", 42.0),
    ("decompositions decay nohold 1e-3", 33.0),
    ("decompositions decay nohold 1e-4", 41.0),
    ("decompositions decay nohold 1e-6", 61.0),
    ("decompositions decay nohold 1e-8", 111.0),
    ("decompositions decay safe 1e-3", 27.0),
    ("decompositions decay safe 1e-4", 29.0),
    ("decompositions decay safe 1e-6", 35.0),
    ("decompositions decay safe 1e-8", 45.0),
    ("decompositions pair classic 1e-3", 9.0),
    ("decompositions pair classic 1e-4", 9.0),
    ("decompositions pair classic 1e-6", 9.0),
    ("decompositions pair classic 1e-8", 9.0),
    ("decompositions pair default 1e-3", 9.0),
    ("decompositions pair default 1e-4", 9.0),
    ("decompositions pair default 1e-6", 9.0),
    ("decompositions pair default 1e-8", 9.0),
    ("decompositions pair fac 1e-3", 22.0),
    ("decompositions pair fac 1e-4", 21.0),
    ("decompositions pair fac 1e-6", 21.0),
    ("decompositions pair fac 1e-8", 20.0),
    ("decompositions pair fdjac 1e-3", 9.0),
    ("decompositions pair fdjac 1e-4", 9.0),
    ("decompositions pair fdjac 1e-6", 9.0),
    ("decompositions pair fdjac 1e-8", 9.0),
    ("decompositions pair fnewt 1e-3", 9.0),
    ("decompositions pair fnewt 1e-4", 9.0),
    ("decompositions pair fnewt 1e-6", 9.0),
    ("decompositions pair fnewt 1e-8", 10.0),
    ("decompositions pair hold 1e-3", 8.0),
    ("decompositions pair hold 1e-4", 8.0),
    ("decompositions pair hold 1e-6", 8.0),
    ("decompositions pair hold 1e-8", 7.0),
    ("decompositions pair newt10 1e-3", 9.0),
    ("decompositions pair newt10 1e-4", 9.0),
    ("decompositions pair newt10 1e-6", 9.0),
    ("decompositions pair newt10 1e-8", 9.0),
    ("decompositions pair newt3 1e-3", 10.0),
    ("decompositions pair newt3 1e-4", 9.0),
    ("decompositions pair newt3 1e-6", 9.0),
    ("decompositions pair newt3 1e-8", 10.0),
    ("decompositions pair noext 1e-3", 9.0),
    ("decompositions pair noext 1e-4", 10.0),
    ("decompositions pair noext 1e-6", 9.0),
    ("decompositions pair noext 1e-8", 10.0),
    ("decompositions pair nohold 1e-3", 10.0),
    ("decompositions pair nohold 1e-4", 11.0),
    ("decompositions pair nohold 1e-6", 16.0),
    ("decompositions pair nohold 1e-8", 28.0),
    ("decompositions pair safe 1e-3", 9.0),
    ("decompositions pair safe 1e-4", 9.0),
    ("decompositions pair safe 1e-6", 9.0),
    ("decompositions pair safe 1e-8", 9.0),
    ("decompositions pr classic 1e-3", 13.0),
    ("decompositions pr classic 1e-4", 23.0),
    ("decompositions pr classic 1e-6", 13.0),
    ("decompositions pr classic 1e-8", 15.0),
    ("decompositions pr default 1e-3", 14.0),
    ("decompositions pr default 1e-4", 23.0),
    ("decompositions pr default 1e-6", 15.0),
    ("decompositions pr default 1e-8", 20.0),
    ("decompositions pr fac 1e-3", 22.0),
    ("decompositions pr fac 1e-4", 23.0),
    ("decompositions pr fac 1e-6", 24.0),
    ("decompositions pr fac 1e-8", 28.0),
    ("decompositions pr fdjac 1e-3", 14.0),
    ("decompositions pr fdjac 1e-4", 23.0),
    ("decompositions pr fdjac 1e-6", 15.0),
    ("decompositions pr fdjac 1e-8", 20.0),
    ("decompositions pr fnewt 1e-3", 14.0),
    ("decompositions pr fnewt 1e-4", 26.0),
    ("decompositions pr fnewt 1e-6", 13.0),
    ("decompositions pr fnewt 1e-8", 18.0),
    ("decompositions pr hold 1e-3", 12.0),
    ("decompositions pr hold 1e-4", 22.0),
    ("decompositions pr hold 1e-6", 12.0),
    ("decompositions pr hold 1e-8", 11.0),
    ("decompositions pr newt10 1e-3", 19.0),
    ("decompositions pr newt10 1e-4", 20.0),
    ("decompositions pr newt10 1e-6", 30.0),
    ("decompositions pr newt10 1e-8", 20.0),
    ("decompositions pr newt3 1e-3", 13.0),
    ("decompositions pr newt3 1e-4", 16.0),
    ("decompositions pr newt3 1e-6", 14.0),
    ("decompositions pr newt3 1e-8", 21.0),
    ("decompositions pr noext 1e-3", 14.0),
    ("decompositions pr noext 1e-4", 26.0),
    ("decompositions pr noext 1e-6", 15.0),
    ("decompositions pr noext 1e-8", 20.0),
    ("decompositions pr nohold 1e-3", 14.0),
    ("decompositions pr nohold 1e-4", 23.0),
    ("decompositions pr nohold 1e-6", 18.0),
    ("decompositions pr nohold 1e-8", 30.0),
    ("decompositions pr safe 1e-3", 13.0),
    ("decompositions pr safe 1e-4", 14.0),
    ("decompositions pr safe 1e-6", 14.0),
    ("decompositions pr safe 1e-8", 21.0),
    ("decompositions pr3 classic 1e-3", 10.0),
    ("decompositions pr3 classic 1e-4", 13.0),
    ("decompositions pr3 classic 1e-6", 16.0),
    ("decompositions pr3 classic 1e-8", 24.0),
    ("decompositions pr3 default 1e-3", 10.0),
    ("decompositions pr3 default 1e-4", 13.0),
    ("decompositions pr3 default 1e-6", 16.0),
    ("decompositions pr3 default 1e-8", 24.0),
    ("decompositions pr3 fac 1e-3", 22.0),
    ("decompositions pr3 fac 1e-4", 22.0),
    ("decompositions pr3 fac 1e-6", 26.0),
    ("decompositions pr3 fac 1e-8", 32.0),
    ("decompositions pr3 fdjac 1e-3", 10.0),
    ("decompositions pr3 fdjac 1e-4", 13.0),
    ("decompositions pr3 fdjac 1e-6", 16.0),
    ("decompositions pr3 fdjac 1e-8", 24.0),
    ("decompositions pr3 fnewt 1e-3", 16.0),
    ("decompositions pr3 fnewt 1e-4", 19.0),
    ("decompositions pr3 fnewt 1e-6", 24.0),
    ("decompositions pr3 fnewt 1e-8", 36.0),
    ("decompositions pr3 hold 1e-3", 10.0),
    ("decompositions pr3 hold 1e-4", 13.0),
    ("decompositions pr3 hold 1e-6", 16.0),
    ("decompositions pr3 hold 1e-8", 24.0),
    ("decompositions pr3 newt10 1e-3", 10.0),
    ("decompositions pr3 newt10 1e-4", 10.0),
    ("decompositions pr3 newt10 1e-6", 15.0),
    ("decompositions pr3 newt10 1e-8", 17.0),
    ("decompositions pr3 newt3 1e-3", 13.0),
    ("decompositions pr3 newt3 1e-4", 17.0),
    ("decompositions pr3 newt3 1e-6", 34.0),
    ("decompositions pr3 newt3 1e-8", 73.0),
    ("decompositions pr3 noext 1e-3", 15.0),
    ("decompositions pr3 noext 1e-4", 18.0),
    ("decompositions pr3 noext 1e-6", 32.0),
    ("decompositions pr3 noext 1e-8", 64.0),
    ("decompositions pr3 nohold 1e-3", 10.0),
    ("decompositions pr3 nohold 1e-4", 13.0),
    ("decompositions pr3 nohold 1e-6", 16.0),
    ("decompositions pr3 nohold 1e-8", 24.0),
    ("decompositions pr3 safe 1e-3", 10.0),
    ("decompositions pr3 safe 1e-4", 14.0),
    ("decompositions pr3 safe 1e-6", 16.0),
    ("decompositions pr3 safe 1e-8", 25.0),
    ("decompositions triple classic 1e-3", 12.0),
    ("decompositions triple classic 1e-4", 12.0),
    ("decompositions triple classic 1e-6", 14.0),
    ("decompositions triple classic 1e-8", 17.0),
    ("decompositions triple default 1e-3", 13.0),
    ("decompositions triple default 1e-4", 14.0),
    ("decompositions triple default 1e-6", 16.0),
    ("decompositions triple default 1e-8", 18.0),
    ("decompositions triple fac 1e-3", 22.0),
    ("decompositions triple fac 1e-4", 23.0),
    ("decompositions triple fac 1e-6", 27.0),
    ("decompositions triple fac 1e-8", 30.0),
    ("decompositions triple fdjac 1e-3", 13.0),
    ("decompositions triple fdjac 1e-4", 14.0),
    ("decompositions triple fdjac 1e-6", 16.0),
    ("decompositions triple fdjac 1e-8", 19.0),
    ("decompositions triple fnewt 1e-3", 10.0),
    ("decompositions triple fnewt 1e-4", 14.0),
    ("decompositions triple fnewt 1e-6", 16.0),
    ("decompositions triple fnewt 1e-8", 21.0),
    ("decompositions triple hold 1e-3", 10.0),
    ("decompositions triple hold 1e-4", 10.0),
    ("decompositions triple hold 1e-6", 12.0),
    ("decompositions triple hold 1e-8", 9.0),
    ("decompositions triple newt10 1e-3", 12.0),
    ("decompositions triple newt10 1e-4", 14.0),
    ("decompositions triple newt10 1e-6", 17.0),
    ("decompositions triple newt10 1e-8", 18.0),
    ("decompositions triple newt3 1e-3", 12.0),
    ("decompositions triple newt3 1e-4", 12.0),
    ("decompositions triple newt3 1e-6", 13.0),
    ("decompositions triple newt3 1e-8", 19.0),
    ("decompositions triple noext 1e-3", 12.0),
    ("decompositions triple noext 1e-4", 14.0),
    ("decompositions triple noext 1e-6", 16.0),
    ("decompositions triple noext 1e-8", 28.0),
    ("decompositions triple nohold 1e-3", 13.0),
    ("decompositions triple nohold 1e-4", 14.0),
    ("decompositions triple nohold 1e-6", 19.0),
    ("decompositions triple nohold 1e-8", 31.0),
    ("decompositions triple safe 1e-3", 12.0),
    ("decompositions triple safe 1e-4", 14.0),
    ("decompositions triple safe 1e-6", 16.0),
    ("decompositions triple safe 1e-8", 21.0),
    ("decompositions vdp classic 1e-3", 352.0),
    ("decompositions vdp classic 1e-4", 422.0),
    ("decompositions vdp classic 1e-6", 663.0),
    ("decompositions vdp classic 1e-8", 1415.0),
    ("decompositions vdp default 1e-3", 302.0),
    ("decompositions vdp default 1e-4", 392.0),
    ("decompositions vdp default 1e-6", 673.0),
    ("decompositions vdp default 1e-8", 1412.0),
    ("decompositions vdp fac 1e-3", 350.0),
    ("decompositions vdp fac 1e-4", 433.0),
    ("decompositions vdp fac 1e-6", 719.0),
    ("decompositions vdp fac 1e-8", 1455.0),
    ("decompositions vdp fdjac 1e-3", 302.0),
    ("decompositions vdp fdjac 1e-4", 391.0),
    ("decompositions vdp fdjac 1e-6", 674.0),
    ("decompositions vdp fdjac 1e-8", 1415.0),
    ("decompositions vdp fnewt 1e-3", 404.0),
    ("decompositions vdp fnewt 1e-4", 525.0),
    ("decompositions vdp fnewt 1e-6", 824.0),
    ("decompositions vdp fnewt 1e-8", 1385.0),
    ("decompositions vdp hold 1e-3", 261.0),
    ("decompositions vdp hold 1e-4", 307.0),
    ("decompositions vdp hold 1e-6", 476.0),
    ("decompositions vdp hold 1e-8", 723.0),
    ("decompositions vdp newt10 1e-3", 254.0),
    ("decompositions vdp newt10 1e-4", 341.0),
    ("decompositions vdp newt10 1e-6", 669.0),
    ("decompositions vdp newt10 1e-8", 1377.0),
    ("decompositions vdp newt3 1e-3", 428.0),
    ("decompositions vdp newt3 1e-4", 632.0),
    ("decompositions vdp newt3 1e-6", 1223.0),
    ("decompositions vdp newt3 1e-8", 2322.0),
    ("decompositions vdp noext 1e-3", 340.0),
    ("decompositions vdp noext 1e-4", 449.0),
    ("decompositions vdp noext 1e-6", 776.0),
    ("decompositions vdp noext 1e-8", 1515.0),
    ("decompositions vdp nohold 1e-3", 312.0),
    ("decompositions vdp nohold 1e-4", 392.0),
    ("decompositions vdp nohold 1e-6", 696.0),
    ("decompositions vdp nohold 1e-8", 1496.0),
    ("decompositions vdp safe 1e-3", 317.0),
    ("decompositions vdp safe 1e-4", 445.0),
    ("decompositions vdp safe 1e-6", 901.0),
    ("decompositions vdp safe 1e-8", 2337.0),
    ("error Dp5 const std 1e-10", 0.0000e+00),
    ("error Dp5 const std 1e-3", 0.0000e+00),
    ("error Dp5 const std 1e-4", 0.0000e+00),
    ("error Dp5 const std 1e-5", 0.0000e+00),
    ("error Dp5 const std 1e-6", 0.0000e+00),
    ("error Dp5 const std 1e-7", 0.0000e+00),
    ("error Dp5 const std 1e-8", 0.0000e+00),
    ("error Dp5 const std 1e-9", 0.0000e+00),
    ("error Dp5 const tuned 1e-10", 0.0000e+00),
    ("error Dp5 const tuned 1e-3", 0.0000e+00),
    ("error Dp5 const tuned 1e-4", 0.0000e+00),
    ("error Dp5 const tuned 1e-5", 0.0000e+00),
    ("error Dp5 const tuned 1e-6", 0.0000e+00),
    ("error Dp5 const tuned 1e-7", 0.0000e+00),
    ("error Dp5 const tuned 1e-8", 0.0000e+00),
    ("error Dp5 const tuned 1e-9", 0.0000e+00),
    ("error Dp5 ho0.5 std 1e-10", 1.8162e+00),
    ("error Dp5 ho0.5 std 1e-3", 5.8623e+00),
    ("error Dp5 ho0.5 std 1e-4", 4.1239e+00),
    ("error Dp5 ho0.5 std 1e-5", 3.4215e+00),
    ("error Dp5 ho0.5 std 1e-6", 2.8033e+00),
    ("error Dp5 ho0.5 std 1e-7", 2.2889e+00),
    ("error Dp5 ho0.5 std 1e-8", 2.0204e+00),
    ("error Dp5 ho0.5 std 1e-9", 1.8915e+00),
    ("error Dp5 ho0.5 tuned 1e-10", 1.3553e+00),
    ("error Dp5 ho0.5 tuned 1e-3", 3.9910e+00),
    ("error Dp5 ho0.5 tuned 1e-4", 2.7269e+00),
    ("error Dp5 ho0.5 tuned 1e-5", 2.3978e+00),
    ("error Dp5 ho0.5 tuned 1e-6", 1.9216e+00),
    ("error Dp5 ho0.5 tuned 1e-7", 1.6442e+00),
    ("error Dp5 ho0.5 tuned 1e-8", 1.4882e+00),
    ("error Dp5 ho0.5 tuned 1e-9", 1.4075e+00),
    ("error Dp5 ho1 std 1e-10", 1.1709e+00),
    ("error Dp5 ho1 std 1e-3", 1.8598e+00),
    ("error Dp5 ho1 std 1e-4", 1.7704e+00),
    ("error Dp5 ho1 std 1e-5", 1.4810e+00),
    ("error Dp5 ho1 std 1e-6", 1.3884e+00),
    ("error Dp5 ho1 std 1e-7", 1.2112e+00),
    ("error Dp5 ho1 std 1e-8", 1.1481e+00),
    ("error Dp5 ho1 std 1e-9", 1.1720e+00),
    ("error Dp5 ho1 tuned 1e-10", 8.8086e-01),
    ("error Dp5 ho1 tuned 1e-3", 1.2743e+00),
    ("error Dp5 ho1 tuned 1e-4", 1.1997e+00),
    ("error Dp5 ho1 tuned 1e-5", 1.0808e+00),
    ("error Dp5 ho1 tuned 1e-6", 9.6405e-01),
    ("error Dp5 ho1 tuned 1e-7", 8.9381e-01),
    ("error Dp5 ho1 tuned 1e-8", 8.5975e-01),
    ("error Dp5 ho1 tuned 1e-9", 8.7650e-01),
    ("error Dp5 ho5 std 1e-10", 3.9020e+00),
    ("error Dp5 ho5 std 1e-3", 1.2228e+01),
    ("error Dp5 ho5 std 1e-4", 6.6061e+00),
    ("error Dp5 ho5 std 1e-5", 4.9471e+00),
    ("error Dp5 ho5 std 1e-6", 4.6550e+00),
    ("error Dp5 ho5 std 1e-7", 4.4685e+00),
    ("error Dp5 ho5 std 1e-8", 4.2346e+00),
    ("error Dp5 ho5 std 1e-9", 4.0044e+00),
    ("error Dp5 ho5 tuned 1e-10", 2.9114e+00),
    ("error Dp5 ho5 tuned 1e-3", 8.4148e+00),
    ("error Dp5 ho5 tuned 1e-4", 4.5995e+00),
    ("error Dp5 ho5 tuned 1e-5", 3.4854e+00),
    ("error Dp5 ho5 tuned 1e-6", 3.4297e+00),
    ("error Dp5 ho5 tuned 1e-7", 3.2553e+00),
    ("error Dp5 ho5 tuned 1e-8", 3.1135e+00),
    ("error Dp5 ho5 tuned 1e-9", 3.0053e+00),
    ("error Dp5 lin-1 std 1e-10", 2.7597e-01),
    ("error Dp5 lin-1 std 1e-3", 1.1994e+00),
    ("error Dp5 lin-1 std 1e-4", 7.7281e-01),
    ("error Dp5 lin-1 std 1e-5", 6.7002e-01),
    ("error Dp5 lin-1 std 1e-6", 5.0691e-01),
    ("error Dp5 lin-1 std 1e-7", 4.6793e-01),
    ("error Dp5 lin-1 std 1e-8", 4.5600e-01),
    ("error Dp5 lin-1 std 1e-9", 4.1706e-01),
    ("error Dp5 lin-1 tuned 1e-10", 1.7191e-01),
    ("error Dp5 lin-1 tuned 1e-3", 5.1256e-01),
    ("error Dp5 lin-1 tuned 1e-4", 5.5870e-01),
    ("error Dp5 lin-1 tuned 1e-5", 4.4804e-01),
    ("error Dp5 lin-1 tuned 1e-6", 3.8924e-01),
    ("error Dp5 lin-1 tuned 1e-7", 3.4993e-01),
    ("error Dp5 lin-1 tuned 1e-8", 3.3453e-01),
    ("error Dp5 lin-1 tuned 1e-9", 3.1341e-01),
    ("error Dp5 lin-20 std 1e-10", 2.9371e-01),
    ("error Dp5 lin-20 std 1e-3", 2.5078e+00),
    ("error Dp5 lin-20 std 1e-4", 1.8488e+00),
    ("error Dp5 lin-20 std 1e-5", 1.5053e+00),
    ("error Dp5 lin-20 std 1e-6", 1.2472e+00),
    ("error Dp5 lin-20 std 1e-7", 1.1338e+00),
    ("error Dp5 lin-20 std 1e-8", 1.0114e+00),
    ("error Dp5 lin-20 std 1e-9", 7.5563e-01),
    ("error Dp5 lin-20 tuned 1e-10", 1.7425e-01),
    ("error Dp5 lin-20 tuned 1e-3", 1.6676e+00),
    ("error Dp5 lin-20 tuned 1e-4", 1.3620e+00),
    ("error Dp5 lin-20 tuned 1e-5", 1.0493e+00),
    ("error Dp5 lin-20 tuned 1e-6", 9.1839e-01),
    ("error Dp5 lin-20 tuned 1e-7", 8.3309e-01),
    ("error Dp5 lin-20 tuned 1e-8", 7.4769e-01),
    ("error Dp5 lin-20 tuned 1e-9", 5.3297e-01),
    ("error Dp5 lin1 std 1e-10", 4.8959e-01),
    ("error Dp5 lin1 std 1e-3", 7.2353e-01),
    ("error Dp5 lin1 std 1e-4", 2.4268e-01),
    ("error Dp5 lin1 std 1e-5", 4.1708e-01),
    ("error Dp5 lin1 std 1e-6", 5.0079e-01),
    ("error Dp5 lin1 std 1e-7", 5.1447e-01),
    ("error Dp5 lin1 std 1e-8", 5.2151e-01),
    ("error Dp5 lin1 std 1e-9", 5.0376e-01),
    ("error Dp5 lin1 tuned 1e-10", 3.6764e-01),
    ("error Dp5 lin1 tuned 1e-3", 6.7123e-01),
    ("error Dp5 lin1 tuned 1e-4", 1.9203e-01),
    ("error Dp5 lin1 tuned 1e-5", 3.0243e-01),
    ("error Dp5 lin1 tuned 1e-6", 3.6746e-01),
    ("error Dp5 lin1 tuned 1e-7", 3.6719e-01),
    ("error Dp5 lin1 tuned 1e-8", 3.6813e-01),
    ("error Dp5 lin1 tuned 1e-9", 3.8021e-01),
    ("error Dp5 logistic std 1e-10", 4.6405e-01),
    ("error Dp5 logistic std 1e-3", 2.6189e+00),
    ("error Dp5 logistic std 1e-4", 2.3764e+00),
    ("error Dp5 logistic std 1e-5", 1.5800e+00),
    ("error Dp5 logistic std 1e-6", 7.7141e-01),
    ("error Dp5 logistic std 1e-7", 6.2768e-01),
    ("error Dp5 logistic std 1e-8", 5.5549e-01),
    ("error Dp5 logistic std 1e-9", 5.0228e-01),
    ("error Dp5 logistic tuned 1e-10", 3.3871e-01),
    ("error Dp5 logistic tuned 1e-3", 2.6189e+00),
    ("error Dp5 logistic tuned 1e-4", 2.3376e+00),
    ("error Dp5 logistic tuned 1e-5", 8.7279e-01),
    ("error Dp5 logistic tuned 1e-6", 6.4912e-01),
    ("error Dp5 logistic tuned 1e-7", 4.3452e-01),
    ("error Dp5 logistic tuned 1e-8", 3.9656e-01),
    ("error Dp5 logistic tuned 1e-9", 3.7576e-01),
    ("error Dp5 poly3 std 1e-10", 0.0000e+00),
    ("error Dp5 poly3 std 1e-3", 0.0000e+00),
    ("error Dp5 poly3 std 1e-4", 0.0000e+00),
    ("error Dp5 poly3 std 1e-5", 0.0000e+00),
    ("error Dp5 poly3 std 1e-6", 0.0000e+00),
    ("error Dp5 poly3 std 1e-7", 0.0000e+00),
    ("error Dp5 poly3 std 1e-8", 0.0000e+00),
    ("error Dp5 poly3 std 1e-9", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-10", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-3", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-4", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-5", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-6", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-7", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-8", 0.0000e+00),
    ("error Dp5 poly3 tuned 1e-9", 0.0000e+00),
    ("error Dp5 poly4 std 1e-10", 0.0000e+00),
    ("error Dp5 poly4 std 1e-3", 0.0000e+00),
    ("error Dp5 poly4 std 1e-4", 0.0000e+00),
    ("error Dp5 poly4 std 1e-5", 0.0000e+00),
    ("error Dp5 poly4 std 1e-6", 0.0000e+00),
    ("error Dp5 poly4 std 1e-7", 0.0000e+00),
    ("error Dp5 poly4 std 1e-8", 0.0000e+00),
    ("error Dp5 poly4 std 1e-9", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-10", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-3", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-4", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-5", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-6", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-7", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-8", 0.0000e+00),
    ("error Dp5 poly4 tuned 1e-9", 0.0000e+00),
    ("error Dp5 poly6 std 1e-10", 2.1168e-01),
    ("error Dp5 poly6 std 1e-3", 2.7692e-01),
    ("error Dp5 poly6 std 1e-4", 3.0815e-01),
    ("error Dp5 poly6 std 1e-5", 2.9397e-01),
    ("error Dp5 poly6 std 1e-6", 2.8971e-01),
    ("error Dp5 poly6 std 1e-7", 3.8460e-01),
    ("error Dp5 poly6 std 1e-8", 4.9539e-01),
    ("error Dp5 poly6 std 1e-9", 3.5974e-01),
    ("error Dp5 poly6 tuned 1e-10", 2.6544e-01),
    ("error Dp5 poly6 tuned 1e-3", 2.0317e-01),
    ("error Dp5 poly6 tuned 1e-4", 2.4990e-01),
    ("error Dp5 poly6 tuned 1e-5", 2.4072e-01),
    ("error Dp5 poly6 tuned 1e-6", 2.4561e-01),
    ("error Dp5 poly6 tuned 1e-7", 3.1858e-01),
    ("error Dp5 poly6 tuned 1e-8", 4.4411e-01),
    ("error Dp5 poly6 tuned 1e-9", 2.8881e-01),
    ("error Dp5 pr2e2 std 1e-10", 2.7545e-01),
    ("error Dp5 pr2e2 std 1e-3", 1.1853e+00),
    ("error Dp5 pr2e2 std 1e-4", 1.1016e+00),
    ("error Dp5 pr2e2 std 1e-5", 9.1887e-01),
    ("error Dp5 pr2e2 std 1e-6", 5.8852e-01),
    ("error Dp5 pr2e2 std 1e-7", 5.3291e-01),
    ("error Dp5 pr2e2 std 1e-8", 3.6398e-01),
    ("error Dp5 pr2e2 std 1e-9", 3.1753e-01),
    ("error Dp5 pr2e2 tuned 1e-10", 2.0297e-01),
    ("error Dp5 pr2e2 tuned 1e-3", 1.1138e+00),
    ("error Dp5 pr2e2 tuned 1e-4", 9.6633e-01),
    ("error Dp5 pr2e2 tuned 1e-5", 9.2976e-01),
    ("error Dp5 pr2e2 tuned 1e-6", 6.4060e-01),
    ("error Dp5 pr2e2 tuned 1e-7", 4.6312e-01),
    ("error Dp5 pr2e2 tuned 1e-8", 3.6825e-01),
    ("error Dp5 pr2e2 tuned 1e-9", 2.3508e-01),
    ("error Dp5 pr3e0 std 1e-10", 2.9367e+01),
    ("error Dp5 pr3e0 std 1e-3", 1.6228e+01),
    ("error Dp5 pr3e0 std 1e-4", 2.1776e+01),
    ("error Dp5 pr3e0 std 1e-5", 2.8267e+01),
    ("error Dp5 pr3e0 std 1e-6", 3.0938e+01),
    ("error Dp5 pr3e0 std 1e-7", 3.4289e+01),
    ("error Dp5 pr3e0 std 1e-8", 1.7969e+01),
    ("error Dp5 pr3e0 std 1e-9", 1.9066e+01),
    ("error Dp5 pr3e0 tuned 1e-10", 2.6629e+01),
    ("error Dp5 pr3e0 tuned 1e-3", 1.6228e+01),
    ("error Dp5 pr3e0 tuned 1e-4", 6.9885e+01),
    ("error Dp5 pr3e0 tuned 1e-5", 1.1566e+01),
    ("error Dp5 pr3e0 tuned 1e-6", 1.4823e+01),
    ("error Dp5 pr3e0 tuned 1e-7", 4.9811e+00),
    ("error Dp5 pr3e0 tuned 1e-8", 1.3359e+01),
    ("error Dp5 pr3e0 tuned 1e-9", 7.6373e+00),
    ("error Dp5 tlin std 1e-10", 4.1935e-01),
    ("error Dp5 tlin std 1e-3", 1.6273e+00),
    ("error Dp5 tlin std 1e-4", 1.7637e+00),
    ("error Dp5 tlin std 1e-5", 1.5504e+00),
    ("error Dp5 tlin std 1e-6", 1.2385e+00),
    ("error Dp5 tlin std 1e-7", 1.1798e+00),
    ("error Dp5 tlin std 1e-8", 1.0398e+00),
    ("error Dp5 tlin std 1e-9", 9.5001e-01),
    ("error Dp5 tlin tuned 1e-10", 3.2339e-01),
    ("error Dp5 tlin tuned 1e-3", 1.9638e+00),
    ("error Dp5 tlin tuned 1e-4", 1.7082e+00),
    ("error Dp5 tlin tuned 1e-5", 1.5504e+00),
    ("error Dp5 tlin tuned 1e-6", 1.2664e+00),
    ("error Dp5 tlin tuned 1e-7", 1.1005e+00),
    ("error Dp5 tlin tuned 1e-8", 8.8408e-01),
    ("error Dp5 tlin tuned 1e-9", 7.8621e-01),
    ("error Dp5 zero std 1e-10", 0.0000e+00),
    ("error Dp5 zero std 1e-3", 0.0000e+00),
    ("error Dp5 zero std 1e-4", 0.0000e+00),
    ("error Dp5 zero std 1e-5", 0.0000e+00),
    ("error Dp5 zero std 1e-6", 0.0000e+00),
    ("error Dp5 zero std 1e-7", 0.0000e+00),
    ("error Dp5 zero std 1e-8", 0.0000e+00),
    ("error Dp5 zero std 1e-9", 0.0000e+00),
    ("error Dp5 zero tuned 1e-10", 0.0000e+00),
    ("error Dp5 zero tuned 1e-3", 0.0000e+00),
    ("error Dp5 zero tuned 1e-4", 0.0000e+00),
    ("error Dp5 zero tuned 1e-5", 0.0000e+00),
    ("error Dp5 zero tuned 1e-6", 0.0000e+00),
    ("error Dp5 zero tuned 1e-7", 0.0000e+00),
    ("error Dp5 zero tuned 1e-8", 0.0000e+00),
    ("error Dp5 zero tuned 1e-9", 0.0000e+00),
    ("error Radau const std 1e-10", 0.0000e+00),
    ("error Radau const std 1e-3", 0.0000e+00),
    ("error Radau const std 1e-4", 0.0000e+00),
    ("error Radau const std 1e-5", 0.0000e+00),
    ("error Radau const std 1e-6", 0.0000e+00),
    ("error Radau const std 1e-7", 0.0000e+00),
    ("error Radau const std 1e-8", 0.0000e+00),
    ("error Radau const std 1e-9", 0.0000e+00),
    ("error Radau const tuned 1e-10", 0.0000e+00),
    ("error Radau const tuned 1e-3", 0.0000e+00),
    ("error Radau const tuned 1e-4", 0.0000e+00),
    ("error Radau const tuned 1e-5", 0.0000e+00),
    ("error Radau const tuned 1e-6", 0.0000e+00),
    ("error Radau const tuned 1e-7", 0.0000e+00),
    ("error Radau const tuned 1e-8", 0.0000e+00),
    ("error Radau const tuned 1e-9", 0.0000e+00),
    ("error Radau ho0.5 std 1e-10", 2.3029e+00),
    ("error Radau ho0.5 std 1e-3", 1.4948e-01),
    ("error Radau ho0.5 std 1e-4", 2.1620e-01),
    ("error Radau ho0.5 std 1e-5", 3.3499e-01),
    ("error Radau ho0.5 std 1e-6", 5.5163e-01),
    ("error Radau ho0.5 std 1e-7", 7.4632e-01),
    ("error Radau ho0.5 std 1e-8", 1.1817e+00),
    ("error Radau ho0.5 std 1e-9", 1.7249e+00),
    ("error Radau ho0.5 tuned 1e-10", 1.6333e+00),
    ("error Radau ho0.5 tuned 1e-3", 1.3053e-01),
    ("error Radau ho0.5 tuned 1e-4", 1.7651e-01),
    ("error Radau ho0.5 tuned 1e-5", 2.4728e-01),
    ("error Radau ho0.5 tuned 1e-6", 3.5536e-01),
    ("error Radau ho0.5 tuned 1e-7", 5.1370e-01),
    ("error Radau ho0.5 tuned 1e-8", 7.5738e-01),
    ("error Radau ho0.5 tuned 1e-9", 1.1168e+00),
    ("error Radau ho1 std 1e-10", 1.9274e+00),
    ("error Radau ho1 std 1e-3", 9.7071e-02),
    ("error Radau ho1 std 1e-4", 1.4568e-01),
    ("error Radau ho1 std 1e-5", 2.7156e-01),
    ("error Radau ho1 std 1e-6", 4.0720e-01),
    ("error Radau ho1 std 1e-7", 5.9956e-01),
    ("error Radau ho1 std 1e-8", 8.9222e-01),
    ("error Radau ho1 std 1e-9", 1.3150e+00),
    ("error Radau ho1 tuned 1e-10", 1.1779e+00),
    ("error Radau ho1 tuned 1e-3", 7.7930e-02),
    ("error Radau ho1 tuned 1e-4", 1.2191e-01),
    ("error Radau ho1 tuned 1e-5", 1.9159e-01),
    ("error Radau ho1 tuned 1e-6", 2.6053e-01),
    ("error Radau ho1 tuned 1e-7", 3.8954e-01),
    ("error Radau ho1 tuned 1e-8", 5.5028e-01),
    ("error Radau ho1 tuned 1e-9", 8.0310e-01),
    ("error Radau ho5 std 1e-10", 4.4364e+00),
    ("error Radau ho5 std 1e-3", 2.3905e-01),
    ("error Radau ho5 std 1e-4", 3.4080e-01),
    ("error Radau ho5 std 1e-5", 5.4456e-01),
    ("error Radau ho5 std 1e-6", 8.9559e-01),
    ("error Radau ho5 std 1e-7", 1.3556e+00),
    ("error Radau ho5 std 1e-8", 2.0682e+00),
    ("error Radau ho5 std 1e-9", 3.0357e+00),
    ("error Radau ho5 tuned 1e-10", 3.3781e+00),
    ("error Radau ho5 tuned 1e-3", 2.4992e-01),
    ("error Radau ho5 tuned 1e-4", 3.2077e-01),
    ("error Radau ho5 tuned 1e-5", 4.5911e-01),
    ("error Radau ho5 tuned 1e-6", 7.0547e-01),
    ("error Radau ho5 tuned 1e-7", 1.0857e+00),
    ("error Radau ho5 tuned 1e-8", 1.5971e+00),
    ("error Radau ho5 tuned 1e-9", 2.2778e+00),
    ("error Radau lin-1 std 1e-10", 2.1989e-01),
    ("error Radau lin-1 std 1e-3", 3.5331e-02),
    ("error Radau lin-1 std 1e-4", 4.4768e-02),
    ("error Radau lin-1 std 1e-5", 6.0465e-02),
    ("error Radau lin-1 std 1e-6", 8.6132e-02),
    ("error Radau lin-1 std 1e-7", 1.1579e-01),
    ("error Radau lin-1 std 1e-8", 1.7116e-01),
    ("error Radau lin-1 std 1e-9", 2.3182e-01),
    ("error Radau lin-1 tuned 1e-10", 1.4942e-01),
    ("error Radau lin-1 tuned 1e-3", 3.4178e-02),
    ("error Radau lin-1 tuned 1e-4", 3.7474e-02),
    ("error Radau lin-1 tuned 1e-5", 5.2939e-02),
    ("error Radau lin-1 tuned 1e-6", 7.4617e-02),
    ("error Radau lin-1 tuned 1e-7", 9.5112e-02),
    ("error Radau lin-1 tuned 1e-8", 1.3615e-01),
    ("error Radau lin-1 tuned 1e-9", 1.7499e-01),
    ("error Radau lin-20 std 1e-10", 1.8866e+00),
    ("error Radau lin-20 std 1e-3", 9.3144e-02),
    ("error Radau lin-20 std 1e-4", 1.1521e-01),
    ("error Radau lin-20 std 1e-5", 1.5001e-01),
    ("error Radau lin-20 std 1e-6", 2.0455e-01),
    ("error Radau lin-20 std 1e-7", 3.1902e-01),
    ("error Radau lin-20 std 1e-8", 4.0822e-01),
    ("error Radau lin-20 std 1e-9", 8.8337e-01),
    ("error Radau lin-20 tuned 1e-10", 1.8748e+00),
    ("error Radau lin-20 tuned 1e-3", 5.6860e-02),
    ("error Radau lin-20 tuned 1e-4", 8.4105e-02),
    ("error Radau lin-20 tuned 1e-5", 1.1215e-01),
    ("error Radau lin-20 tuned 1e-6", 1.5592e-01),
    ("error Radau lin-20 tuned 1e-7", 2.1093e-01),
    ("error Radau lin-20 tuned 1e-8", 4.0704e-01),
    ("error Radau lin-20 tuned 1e-9", 8.7794e-01),
    ("error Radau lin1 std 1e-10", 4.6882e-01),
    ("error Radau lin1 std 1e-3", 2.6157e-02),
    ("error Radau lin1 std 1e-4", 4.1150e-02),
    ("error Radau lin1 std 1e-5", 6.5452e-02),
    ("error Radau lin1 std 1e-6", 1.0851e-01),
    ("error Radau lin1 std 1e-7", 1.4693e-01),
    ("error Radau lin1 std 1e-8", 2.1480e-01),
    ("error Radau lin1 std 1e-9", 3.2598e-01),
    ("error Radau lin1 tuned 1e-10", 3.5704e-01),
    ("error Radau lin1 tuned 1e-3", 2.4591e-02),
    ("error Radau lin1 tuned 1e-4", 3.8814e-02),
    ("error Radau lin1 tuned 1e-5", 5.8765e-02),
    ("error Radau lin1 tuned 1e-6", 8.1988e-02),
    ("error Radau lin1 tuned 1e-7", 1.2010e-01),
    ("error Radau lin1 tuned 1e-8", 1.7289e-01),
    ("error Radau lin1 tuned 1e-9", 2.5462e-01),
    ("error Radau logistic std 1e-10", 1.2498e+00),
    ("error Radau logistic std 1e-3", 3.8488e-01),
    ("error Radau logistic std 1e-4", 6.7480e-01),
    ("error Radau logistic std 1e-5", 9.8667e-01),
    ("error Radau logistic std 1e-6", 6.6920e-01),
    ("error Radau logistic std 1e-7", 8.6849e-01),
    ("error Radau logistic std 1e-8", 4.8388e-01),
    ("error Radau logistic std 1e-9", 6.6243e-01),
    ("error Radau logistic tuned 1e-10", 1.1649e+00),
    ("error Radau logistic tuned 1e-3", 9.1068e+00),
    ("error Radau logistic tuned 1e-4", 7.9033e-01),
    ("error Radau logistic tuned 1e-5", 1.5384e+00),
    ("error Radau logistic tuned 1e-6", 6.6923e-01),
    ("error Radau logistic tuned 1e-7", 8.3527e-01),
    ("error Radau logistic tuned 1e-8", 5.8369e-01),
    ("error Radau logistic tuned 1e-9", 6.6007e-01),
    ("error Radau poly3 std 1e-10", 0.0000e+00),
    ("error Radau poly3 std 1e-3", 0.0000e+00),
    ("error Radau poly3 std 1e-4", 0.0000e+00),
    ("error Radau poly3 std 1e-5", 0.0000e+00),
    ("error Radau poly3 std 1e-6", 0.0000e+00),
    ("error Radau poly3 std 1e-7", 0.0000e+00),
    ("error Radau poly3 std 1e-8", 0.0000e+00),
    ("error Radau poly3 std 1e-9", 0.0000e+00),
    ("error Radau poly3 tuned 1e-10", 0.0000e+00),
    ("error Radau poly3 tuned 1e-3", 0.0000e+00),
    ("error Radau poly3 tuned 1e-4", 0.0000e+00),
    ("error Radau poly3 tuned 1e-5", 0.0000e+00),
    ("error Radau poly3 tuned 1e-6", 0.0000e+00),
    ("error Radau poly3 tuned 1e-7", 0.0000e+00),
    ("error Radau poly3 tuned 1e-8", 0.0000e+00),
    ("error Radau poly3 tuned 1e-9", 0.0000e+00),
    ("error Radau poly4 std 1e-10", 0.0000e+00),
    ("error Radau poly4 std 1e-3", 0.0000e+00),
    ("error Radau poly4 std 1e-4", 0.0000e+00),
    ("error Radau poly4 std 1e-5", 0.0000e+00),
    ("error Radau poly4 std 1e-6", 0.0000e+00),
    ("error Radau poly4 std 1e-7", 0.0000e+00),
    ("error Radau poly4 std 1e-8", 0.0000e+00),
    ("error Radau poly4 std 1e-9", 0.0000e+00),
    ("error Radau poly4 tuned 1e-10", 0.0000e+00),
    ("error Radau poly4 tuned 1e-3", 0.0000e+00),
    ("error Radau poly4 tuned 1e-4", 0.0000e+00),
    ("error Radau poly4 tuned 1e-5", 0.0000e+00),
    ("error Radau poly4 tuned 1e-6", 0.0000e+00),
    ("error Radau poly4 tuned 1e-7", 0.0000e+00),
    ("error Radau poly4 tuned 1e-8", 0.0000e+00),
    ("error Radau poly4 tuned 1e-9", 0.0000e+00),
    ("error Radau poly6 std 1e-10", 2.3951e+00),
    ("error Radau poly6 std 1e-3", 2.0712e-02),
    ("error Radau poly6 std 1e-4", 5.5230e-02),
    ("error Radau poly6 std 1e-5", 4.1236e-02),
    ("error Radau poly6 std 1e-6", 3.2704e-01),
    ("error Radau poly6 std 1e-7", 3.1952e-01),
    ("error Radau poly6 std 1e-8", 8.0870e-01),
    ("error Radau poly6 std 1e-9", 3.3455e+00),
    ("error Radau poly6 tuned 1e-10", 2.3348e+00),
    ("error Radau poly6 tuned 1e-3", 2.0749e-02),
    ("error Radau poly6 tuned 1e-4", 5.4966e-02),
    ("error Radau poly6 tuned 1e-5", 3.9441e-02),
    ("error Radau poly6 tuned 1e-6", 3.2275e-01),
    ("error Radau poly6 tuned 1e-7", 3.0676e-01),
    ("error Radau poly6 tuned 1e-8", 7.8695e-01),
    ("error Radau poly6 tuned 1e-9", 3.2966e+00),
    ("error Radau pr3e0 std 1e-10", 8.0943e+01),
    ("error Radau pr3e0 std 1e-3", 3.4986e+00),
    ("error Radau pr3e0 std 1e-4", 2.5790e+00),
    ("error Radau pr3e0 std 1e-5", 3.2356e+00),
    ("error Radau pr3e0 std 1e-6", 4.1634e+00),
    ("error Radau pr3e0 std 1e-7", 1.6842e+01),
    ("error Radau pr3e0 std 1e-8", 1.4683e+01),
    ("error Radau pr3e0 std 1e-9", 3.8261e+01),
    ("error Radau pr3e0 tuned 1e-10", 4.1641e+01),
    ("error Radau pr3e0 tuned 1e-3", 1.6609e+00),
    ("error Radau pr3e0 tuned 1e-4", 2.5790e+00),
    ("error Radau pr3e0 tuned 1e-5", 4.0212e+00),
    ("error Radau pr3e0 tuned 1e-6", 5.4584e+00),
    ("error Radau pr3e0 tuned 1e-7", 1.3040e+01),
    ("error Radau pr3e0 tuned 1e-8", 1.4683e+01),
    ("error Radau pr3e0 tuned 1e-9", 6.1895e+01),
    ("error Radau tlin std 1e-10", 1.9515e+00),
    ("error Radau tlin std 1e-3", 1.2038e+00),
    ("error Radau tlin std 1e-4", 3.9262e-01),
    ("error Radau tlin std 1e-5", 6.8486e-01),
    ("error Radau tlin std 1e-6", 1.1703e+00),
    ("error Radau tlin std 1e-7", 5.6436e-01),
    ("error Radau tlin std 1e-8", 8.1611e-01),
    ("error Radau tlin std 1e-9", 9.5424e-01),
    ("error Radau tlin tuned 1e-10", 1.4637e+00),
    ("error Radau tlin tuned 1e-3", 1.0902e+00),
    ("error Radau tlin tuned 1e-4", 1.0941e+00),
    ("error Radau tlin tuned 1e-5", 1.5482e+00),
    ("error Radau tlin tuned 1e-6", 1.1703e+00),
    ("error Radau tlin tuned 1e-7", 4.9038e-01),
    ("error Radau tlin tuned 1e-8", 9.0812e-01),
    ("error Radau tlin tuned 1e-9", 1.0230e+00),
    ("error Radau zero std 1e-10", 0.0000e+00),
    ("error Radau zero std 1e-3", 0.0000e+00),
    ("error Radau zero std 1e-4", 0.0000e+00),
    ("error Radau zero std 1e-5", 0.0000e+00),
    ("error Radau zero std 1e-6", 0.0000e+00),
    ("error Radau zero std 1e-7", 0.0000e+00),
    ("error Radau zero std 1e-8", 0.0000e+00),
    ("error Radau zero std 1e-9", 0.0000e+00),
    ("error Radau zero tuned 1e-10", 0.0000e+00),
    ("error Radau zero tuned 1e-3", 0.0000e+00),
    ("error Radau zero tuned 1e-4", 0.0000e+00),
    ("error Radau zero tuned 1e-5", 0.0000e+00),
    ("error Radau zero tuned 1e-6", 0.0000e+00),
    ("error Radau zero tuned 1e-7", 0.0000e+00),
    ("error Radau zero tuned 1e-8", 0.0000e+00),
    ("error Radau zero tuned 1e-9", 0.0000e+00),
    ("error pair classic 1e-3", 2.3575e-02),
    ("error pair classic 1e-4", 3.1631e-02),
    ("error pair classic 1e-6", 6.7335e-02),
    ("error pair classic 1e-8", 1.2386e-01),
    ("error pair default 1e-3", 2.3575e-02),
    ("error pair default 1e-4", 3.1631e-02),
    ("error pair default 1e-6", 6.7335e-02),
    ("error pair default 1e-8", 1.2386e-01),
    ("error pair fac 1e-3", 1.5921e-02),
    ("error pair fac 1e-4", 2.9891e-02),
    ("error pair fac 1e-6", 6.1051e-02),
    ("error pair fac 1e-8", 1.1763e-01),
    ("error pair fdjac 1e-3", 2.3575e-02),
    ("error pair fdjac 1e-4", 3.1632e-02),
    ("error pair fdjac 1e-6", 6.7587e-02),
    ("error pair fdjac 1e-8", 1.2386e-01),
    ("error pair fnewt 1e-3", 2.2807e-02),
    ("error pair fnewt 1e-4", 3.1631e-02),
    ("error pair fnewt 1e-6", 6.3355e-02),
    ("error pair fnewt 1e-8", 1.2163e-01),
    ("error pair hold 1e-3", 1.8204e-02),
    ("error pair hold 1e-4", 2.5484e-02),
    ("error pair hold 1e-6", 7.1572e-02),
    ("error pair hold 1e-8", 1.8649e-02),
    ("error pair newt10 1e-3", 2.3575e-02),
    ("error pair newt10 1e-4", 3.0963e-02),
    ("error pair newt10 1e-6", 6.8426e-02),
    ("error pair newt10 1e-8", 1.3312e-01),
    ("error pair newt3 1e-3", 2.3575e-02),
    ("error pair newt3 1e-4", 2.5484e-02),
    ("error pair newt3 1e-6", 5.4091e-02),
    ("error pair newt3 1e-8", 9.2760e-02),
    ("error pair noext 1e-3", 2.3575e-02),
    ("error pair noext 1e-4", 3.1773e-02),
    ("error pair noext 1e-6", 6.4314e-02),
    ("error pair noext 1e-8", 1.2110e-01),
    ("error pair nohold 1e-3", 2.7790e-02),
    ("error pair nohold 1e-4", 4.2958e-02),
    ("error pair nohold 1e-6", 7.7913e-02),
    ("error pair nohold 1e-8", 1.5839e-01),
    ("error pair safe 1e-3", 1.1270e-03),
    ("error pair safe 1e-4", 1.7822e-03),
    ("error pair safe 1e-6", 3.2696e-03),
    ("error pair safe 1e-8", 5.2042e-03),
    ("error pr classic 1e-3", 2.6892e+01),
    ("error pr classic 1e-4", 1.1155e+02),
    ("error pr classic 1e-6", 3.1502e+02),
    ("error pr classic 1e-8", 9.1004e+02),
    ("error pr default 1e-3", 2.6892e+01),
    ("error pr default 1e-4", 1.1155e+02),
    ("error pr default 1e-6", 3.1502e+02),
    ("error pr default 1e-8", 9.1004e+02),
    ("error pr fac 1e-3", 6.7499e+00),
    ("error pr fac 1e-4", 1.0492e+02),
    ("error pr fac 1e-6", 2.6058e+02),
    ("error pr fac 1e-8", 8.6583e+02),
    ("error pr fdjac 1e-3", 2.6892e+01),
    ("error pr fdjac 1e-4", 1.1155e+02),
    ("error pr fdjac 1e-6", 3.1502e+02),
    ("error pr fdjac 1e-8", 9.1004e+02),
    ("error pr fnewt 1e-3", 3.5094e+01),
    ("error pr fnewt 1e-4", 4.9307e+01),
    ("error pr fnewt 1e-6", 1.7080e+02),
    ("error pr fnewt 1e-8", 9.1004e+02),
    ("error pr hold 1e-3", 6.6058e+00),
    ("error pr hold 1e-4", 1.1155e+02),
    ("error pr hold 1e-6", 1.0178e+02),
    ("error pr hold 1e-8", 3.7686e+02),
    ("error pr newt10 1e-3", 1.1088e+02),
    ("error pr newt10 1e-4", 4.4572e+01),
    ("error pr newt10 1e-6", 3.1502e+02),
    ("error pr newt10 1e-8", 7.3144e+02),
    ("error pr newt3 1e-3", 1.2328e+01),
    ("error pr newt3 1e-4", 1.3318e+02),
    ("error pr newt3 1e-6", 3.1502e+02),
    ("error pr newt3 1e-8", 5.7741e+02),
    ("error pr noext 1e-3", 3.5094e+01),
    ("error pr noext 1e-4", 8.6759e+01),
    ("error pr noext 1e-6", 1.6633e+02),
    ("error pr noext 1e-8", 7.3649e+02),
    ("error pr nohold 1e-3", 2.6892e+01),
    ("error pr nohold 1e-4", 1.1155e+02),
    ("error pr nohold 1e-6", 3.1502e+02),
    ("error pr nohold 1e-8", 9.1004e+02),
    ("error pr safe 1e-3", 1.1606e+01),
    ("error pr safe 1e-4", 1.7341e+01),
    ("error pr safe 1e-6", 1.4986e+01),
    ("error pr safe 1e-8", 9.3698e+01),
    ("error pr3 classic 1e-3", 1.3063e-01),
    ("error pr3 classic 1e-4", 4.1286e-01),
    ("error pr3 classic 1e-6", 4.8981e+00),
    ("error pr3 classic 1e-8", 3.4580e+01),
    ("error pr3 default 1e-3", 1.3063e-01),
    ("error pr3 default 1e-4", 4.1286e-01),
    ("error pr3 default 1e-6", 4.8981e+00),
    ("error pr3 default 1e-8", 3.4580e+01),
    ("error pr3 fac 1e-3", 1.7473e-01),
    ("error pr3 fac 1e-4", 2.2959e-01),
    ("error pr3 fac 1e-6", 3.1393e+00),
    ("error pr3 fac 1e-8", 2.5861e+01),
    ("error pr3 fdjac 1e-3", 1.3063e-01),
    ("error pr3 fdjac 1e-4", 4.1286e-01),
    ("error pr3 fdjac 1e-6", 4.8981e+00),
    ("error pr3 fdjac 1e-8", 3.4580e+01),
    ("error pr3 fnewt 1e-3", 1.7909e-02),
    ("error pr3 fnewt 1e-4", 1.4923e-01),
    ("error pr3 fnewt 1e-6", 2.1195e+00),
    ("error pr3 fnewt 1e-8", 2.3517e+01),
    ("error pr3 hold 1e-3", 1.3063e-01),
    ("error pr3 hold 1e-4", 4.1286e-01),
    ("error pr3 hold 1e-6", 4.8981e+00),
    ("error pr3 hold 1e-8", 5.9341e+01),
    ("error pr3 newt10 1e-3", 2.1311e-01),
    ("error pr3 newt10 1e-4", 8.8085e-01),
    ("error pr3 newt10 1e-6", 9.0263e+00),
    ("error pr3 newt10 1e-8", 4.7194e+01),
    ("error pr3 newt3 1e-3", 1.7226e-01),
    ("error pr3 newt3 1e-4", 1.3850e-01),
    ("error pr3 newt3 1e-6", 6.1870e-01),
    ("error pr3 newt3 1e-8", 9.1939e+00),
    ("error pr3 noext 1e-3", 3.7798e+00),
    ("error pr3 noext 1e-4", 3.1986e+01),
    ("error pr3 noext 1e-6", 2.8035e+00),
    ("error pr3 noext 1e-8", 1.8648e+01),
    ("error pr3 nohold 1e-3", 1.3063e-01),
    ("error pr3 nohold 1e-4", 4.1286e-01),
    ("error pr3 nohold 1e-6", 4.8981e+00),
    ("error pr3 nohold 1e-8", 3.4580e+01),
    ("error pr3 safe 1e-3", 1.2216e-01),
    ("error pr3 safe 1e-4", 1.4926e-01),
    ("error pr3 safe 1e-6", 9.2196e-01),
    ("error pr3 safe 1e-8", 1.9043e+01),
    ("error triple classic 1e-3", 3.9614e-02),
    ("error triple classic 1e-4", 1.1582e-01),
    ("error triple classic 1e-6", 5.0453e-01),
    ("error triple classic 1e-8", 2.1858e+00),
    ("error triple default 1e-3", 3.9614e-02),
    ("error triple default 1e-4", 1.1582e-01),
    ("error triple default 1e-6", 5.0453e-01),
    ("error triple default 1e-8", 2.1858e+00),
    ("error triple fac 1e-3", 5.0910e-02),
    ("error triple fac 1e-4", 1.1596e-01),
    ("error triple fac 1e-6", 5.5493e-01),
    ("error triple fac 1e-8", 2.1203e+00),
    ("error triple fdjac 1e-3", 3.9613e-02),
    ("error triple fdjac 1e-4", 1.1582e-01),
    ("error triple fdjac 1e-6", 4.7083e-01),
    ("error triple fdjac 1e-8", 2.0879e+00),
    ("error triple fnewt 1e-3", 5.4006e-02),
    ("error triple fnewt 1e-4", 1.1190e-01),
    ("error triple fnewt 1e-6", 4.6774e-01),
    ("error triple fnewt 1e-8", 2.0790e+00),
    ("error triple hold 1e-3", 4.4010e-02),
    ("error triple hold 1e-4", 6.1451e-02),
    ("error triple hold 1e-6", 5.1654e-01),
    ("error triple hold 1e-8", 6.5483e-01),
    ("error triple newt10 1e-3", 3.9614e-02),
    ("error triple newt10 1e-4", 1.1582e-01),
    ("error triple newt10 1e-6", 5.0453e-01),
    ("error triple newt10 1e-8", 2.3514e+00),
    ("error triple newt3 1e-3", 3.9614e-02),
    ("error triple newt3 1e-4", 1.1582e-01),
    ("error triple newt3 1e-6", 5.0453e-01),
    ("error triple newt3 1e-8", 1.5841e+00),
    ("error triple noext 1e-3", 5.4006e-02),
    ("error triple noext 1e-4", 8.8465e-02),
    ("error triple noext 1e-6", 4.5757e-01),
    ("error triple noext 1e-8", 2.0490e+00),
    ("error triple nohold 1e-3", 5.4567e-02),
    ("error triple nohold 1e-4", 1.2146e-01),
    ("error triple nohold 1e-6", 5.6103e-01),
    ("error triple nohold 1e-8", 2.5039e+00),
    ("error triple safe 1e-3", 5.3138e-03),
    ("error triple safe 1e-4", 1.1296e-02),
    ("error triple safe 1e-6", 4.8185e-02),
    ("error triple safe 1e-8", 1.9663e-01),
    ("fevals cycle classic 1e-3", 110.0),
    ("fevals cycle classic 1e-4", 125.0),
    ("fevals cycle classic 1e-6", 213.0),
    ("fevals cycle classic 1e-8", 360.0),
    ("fevals cycle default 1e-3", 110.0),
    ("fevals cycle default 1e-4", 125.0),
    ("fevals cycle default 1e-6", 213.0),
    ("fevals cycle default 1e-8", 360.0),
    ("fevals cycle fac 1e-3", 178.0),
    ("fevals cycle fac 1e-4", 197.0),
    ("fevals cycle fac 1e-6", 285.0),
    ("fevals cycle fac 1e-8", 432.0),
    ("fevals cycle fdjac 1e-3", 129.0),
    ("fevals cycle fdjac 1e-4", 151.0),
    ("fevals cycle fdjac 1e-6", 247.0),
    ("fevals cycle fdjac 1e-8", 403.0),
    ("fevals cycle fnewt 1e-3", 119.0),
    ("fevals cycle fnewt 1e-4", 134.0),
    ("fevals cycle fnewt 1e-6", 227.0),
    ("fevals cycle fnewt 1e-8", 387.0),
    ("fevals cycle hold 1e-3", 137.0),
    ("fevals cycle hold 1e-4", 180.0),
    ("fevals cycle hold 1e-6", 330.0),
    ("fevals cycle hold 1e-8", 630.0),
    ("fevals cycle newt10 1e-3", 110.0),
    ("fevals cycle newt10 1e-4", 125.0),
    ("fevals cycle newt10 1e-6", 209.0),
    ("fevals cycle newt10 1e-8", 360.0),
    ("fevals cycle newt3 1e-3", 110.0),
    ("fevals cycle newt3 1e-4", 125.0),
    ("fevals cycle newt3 1e-6", 209.0),
    ("fevals cycle newt3 1e-8", 360.0),
    ("fevals cycle noext 1e-3", 106.0),
    ("fevals cycle noext 1e-4", 125.0),
    ("fevals cycle noext 1e-6", 212.0),
    ("fevals cycle noext 1e-8", 372.0),
    ("fevals cycle nohold 1e-3", 106.0),
    ("fevals cycle nohold 1e-4", 125.0),
    ("fevals cycle nohold 1e-6", 205.0),
    ("fevals cycle nohold 1e-8", 344.0),
    ("fevals cycle safe 1e-3", 134.0),
    ("fevals cycle safe 1e-4", 168.0),
    ("fevals cycle safe 1e-6", 303.0),
    ("fevals cycle safe 1e-8", 558.0),
    ("fevals decay classic 1e-3", 149.0),
    ("fevals decay classic 1e-4", 187.0),
    ("fevals decay classic 1e-6", 287.0),
    ("fevals decay classic 1e-8", 543.0),
    ("fevals decay default 1e-3", 149.0),
    ("fevals decay default 1e-4", 187.0),
    ("fevals decay default 1e-6", 287.0),
    ("fevals decay default 1e-8", 543.0),
    ("fevals decay fac 1e-3", 217.0),
    ("fevals decay fac 1e-4", 259.0),
    ("fevals decay fac 1e-6", 355.0),
    ("fevals decay fac 1e-8", 614.0),
    ("fevals decay fdjac 1e-3", 152.0),
    ("fevals decay fdjac 1e-4", 196.0),
    ("fevals decay fdjac 1e-6", 308.0),
    ("fevals decay fdjac 1e-8", 564.0),
    ("fevals decay fnewt 1e-3", 158.0),
    ("fevals decay fnewt 1e-4", 203.0),
    ("fevals decay fnewt 1e-6", 305.0),
    ("fevals decay fnewt 1e-8", 573.0),
    ("fevals decay hold 1e-3", 256.0),
    ("fevals decay hold 1e-4", 362.0),
    ("fevals decay hold 1e-6", 566.0),
    ("fevals decay hold 1e-8", 1157.0),
    ("fevals decay newt10 1e-3", 149.0),
    ("fevals decay newt10 1e-4", 187.0),
    ("fevals decay newt10 1e-6", 283.0),
    ("fevals decay newt10 1e-8", 539.0),
    ("fevals decay newt3 1e-3", 149.0),
    ("fevals decay newt3 1e-4", 191.0),
    ("fevals decay newt3 1e-6", 291.0),
    ("fevals decay newt3 1e-8", 553.0),
    ("fevals decay noext 1e-3", 152.0),
    ("fevals decay noext 1e-4", 194.0),
    ("fevals decay noext 1e-6", 296.0),
    ("fevals decay noext 1e-8", 579.0),
    ("fevals decay nohold 1e-3", 145.0),
    ("fevals decay nohold 1e-4", 183.0),
    ("fevals decay nohold 1e-6", 275.0),
    ("fevals decay nohold 1e-8", 511.0),
    ("fevals decay safe 1e-3", 208.0),
    ("fevals decay safe 1e-4", 278.0),
    ("fevals decay safe 1e-6", 444.0),
    ("fevals decay safe 1e-8", 901.0),
    ("fevals pair classic 1e-3", 43.0),
    ("fevals pair classic 1e-4", 47.0),
    ("fevals pair classic 1e-6", 77.0),
    ("fevals pair classic 1e-8", 137.0),
    ("fevals pair default 1e-3", 43.0),
    ("fevals pair default 1e-4", 47.0),
    ("fevals pair default 1e-6", 77.0),
    ("fevals pair default 1e-8", 137.0),
    ("fevals pair fac 1e-3", 91.0),
    ("fevals pair fac 1e-4", 95.0),
    ("fevals pair fac 1e-6", 117.0),
    ("fevals pair fac 1e-8", 177.0),
    ("fevals pair fdjac 1e-3", 43.0),
    ("fevals pair fdjac 1e-4", 47.0),
    ("fevals pair fdjac 1e-6", 80.0),
    ("fevals pair fdjac 1e-8", 137.0),
    ("fevals pair fnewt 1e-3", 46.0),
    ("fevals pair fnewt 1e-4", 57.0),
    ("fevals pair fnewt 1e-6", 83.0),
    ("fevals pair fnewt 1e-8", 146.0),
    ("fevals pair hold 1e-3", 51.0),
    ("fevals pair hold 1e-4", 55.0),
    ("fevals pair hold 1e-6", 171.0),
    ("fevals pair hold 1e-8", 289.0),
    ("fevals pair newt10 1e-3", 43.0),
    ("fevals pair newt10 1e-4", 47.0),
    ("fevals pair newt10 1e-6", 77.0),
    ("fevals pair newt10 1e-8", 134.0),
    ("fevals pair newt3 1e-3", 43.0),
    ("fevals pair newt3 1e-4", 51.0),
    ("fevals pair newt3 1e-6", 77.0),
    ("fevals pair newt3 1e-8", 145.0),
    ("fevals pair noext 1e-3", 46.0),
    ("fevals pair noext 1e-4", 50.0),
    ("fevals pair noext 1e-6", 83.0),
    ("fevals pair noext 1e-8", 146.0),
    ("fevals pair nohold 1e-3", 43.0),
    ("fevals pair nohold 1e-4", 47.0),
    ("fevals pair nohold 1e-6", 73.0),
    ("fevals pair nohold 1e-8", 133.0),
    ("fevals pair safe 1e-3", 51.0),
    ("fevals pair safe 1e-4", 63.0),
    ("fevals pair safe 1e-6", 112.0),
    ("fevals pair safe 1e-8", 222.0),
    ("fevals pr classic 1e-3", 58.0),
    ("fevals pr classic 1e-4", 101.0),
    ("fevals pr classic 1e-6", 81.0),
    ("fevals pr classic 1e-8", 141.0),
    ("fevals pr default 1e-3", 62.0),
    ("fevals pr default 1e-4", 101.0),
    ("fevals pr default 1e-6", 81.0),
    ("fevals pr default 1e-8", 141.0),
    ("fevals pr fac 1e-3", 91.0),
    ("fevals pr fac 1e-4", 98.0),
    ("fevals pr fac 1e-6", 124.0),
    ("fevals pr fac 1e-8", 181.0),
    ("fevals pr fdjac 1e-3", 62.0),
    ("fevals pr fdjac 1e-4", 104.0),
    ("fevals pr fdjac 1e-6", 81.0),
    ("fevals pr fdjac 1e-8", 141.0),
    ("fevals pr fnewt 1e-3", 65.0),
    ("fevals pr fnewt 1e-4", 122.0),
    ("fevals pr fnewt 1e-6", 83.0),
    ("fevals pr fnewt 1e-8", 150.0),
    ("fevals pr hold 1e-3", 51.0),
    ("fevals pr hold 1e-4", 101.0),
    ("fevals pr hold 1e-6", 155.0),
    ("fevals pr hold 1e-8", 286.0),
    ("fevals pr newt10 1e-3", 82.0),
    ("fevals pr newt10 1e-4", 89.0),
    ("fevals pr newt10 1e-6", 135.0),
    ("fevals pr newt10 1e-8", 141.0),
    ("fevals pr newt3 1e-3", 55.0),
    ("fevals pr newt3 1e-4", 70.0),
    ("fevals pr newt3 1e-6", 81.0),
    ("fevals pr newt3 1e-8", 145.0),
    ("fevals pr noext 1e-3", 65.0),
    ("fevals pr noext 1e-4", 119.0),
    ("fevals pr noext 1e-6", 90.0),
    ("fevals pr noext 1e-8", 153.0),
    ("fevals pr nohold 1e-3", 62.0),
    ("fevals pr nohold 1e-4", 101.0),
    ("fevals pr nohold 1e-6", 77.0),
    ("fevals pr nohold 1e-8", 134.0),
    ("fevals pr safe 1e-3", 55.0),
    ("fevals pr safe 1e-4", 70.0),
    ("fevals pr safe 1e-6", 116.0),
    ("fevals pr safe 1e-8", 215.0),
    ("fevals pr3 classic 1e-3", 72.0),
    ("fevals pr3 classic 1e-4", 100.0),
    ("fevals pr3 classic 1e-6", 148.0),
    ("fevals pr3 classic 1e-8", 249.0),
    ("fevals pr3 default 1e-3", 72.0),
    ("fevals pr3 default 1e-4", 100.0),
    ("fevals pr3 default 1e-6", 151.0),
    ("fevals pr3 default 1e-8", 249.0),
    ("fevals pr3 fac 1e-3", 111.0),
    ("fevals pr3 fac 1e-4", 126.0),
    ("fevals pr3 fac 1e-6", 188.0),
    ("fevals pr3 fac 1e-8", 281.0),
    ("fevals pr3 fdjac 1e-3", 72.0),
    ("fevals pr3 fdjac 1e-4", 100.0),
    ("fevals pr3 fdjac 1e-6", 151.0),
    ("fevals pr3 fdjac 1e-8", 249.0),
    ("fevals pr3 fnewt 1e-3", 162.0),
    ("fevals pr3 fnewt 1e-4", 193.0),
    ("fevals pr3 fnewt 1e-6", 261.0),
    ("fevals pr3 fnewt 1e-8", 398.0),
    ("fevals pr3 hold 1e-3", 72.0),
    ("fevals pr3 hold 1e-4", 100.0),
    ("fevals pr3 hold 1e-6", 151.0),
    ("fevals pr3 hold 1e-8", 252.0),
    ("fevals pr3 newt10 1e-3", 72.0),
    ("fevals pr3 newt10 1e-4", 90.0),
    ("fevals pr3 newt10 1e-6", 152.0),
    ("fevals pr3 newt10 1e-8", 216.0),
    ("fevals pr3 newt3 1e-3", 71.0),
    ("fevals pr3 newt3 1e-4", 97.0),
    ("fevals pr3 newt3 1e-6", 204.0),
    ("fevals pr3 newt3 1e-8", 460.0),
    ("fevals pr3 noext 1e-3", 152.0),
    ("fevals pr3 noext 1e-4", 205.0),
    ("fevals pr3 noext 1e-6", 390.0),
    ("fevals pr3 noext 1e-8", 789.0),
    ("fevals pr3 nohold 1e-3", 72.0),
    ("fevals pr3 nohold 1e-4", 100.0),
    ("fevals pr3 nohold 1e-6", 151.0),
    ("fevals pr3 nohold 1e-8", 249.0),
    ("fevals pr3 safe 1e-3", 72.0),
    ("fevals pr3 safe 1e-4", 101.0),
    ("fevals pr3 safe 1e-6", 150.0),
    ("fevals pr3 safe 1e-8", 252.0),
    ("fevals triple classic 1e-3", 58.0),
    ("fevals triple classic 1e-4", 62.0),
    ("fevals triple classic 1e-6", 87.0),
    ("fevals triple classic 1e-8", 151.0),
    ("fevals triple default 1e-3", 58.0),
    ("fevals triple default 1e-4", 64.0),
    ("fevals triple default 1e-6", 87.0),
    ("fevals triple default 1e-8", 151.0),
    ("fevals triple fac 1e-3", 94.0),
    ("fevals triple fac 1e-4", 98.0),
    ("fevals triple fac 1e-6", 127.0),
    ("fevals triple fac 1e-8", 197.0),
    ("fevals triple fdjac 1e-3", 58.0),
    ("fevals triple fdjac 1e-4", 64.0),
    ("fevals triple fdjac 1e-6", 87.0),
    ("fevals triple fdjac 1e-8", 154.0),
    ("fevals triple fnewt 1e-3", 52.0),
    ("fevals triple fnewt 1e-4", 70.0),
    ("fevals triple fnewt 1e-6", 96.0),
    ("fevals triple fnewt 1e-8", 176.0),
    ("fevals triple hold 1e-3", 61.0),
    ("fevals triple hold 1e-4", 65.0),
    ("fevals triple hold 1e-6", 178.0),
    ("fevals triple hold 1e-8", 293.0),
    ("fevals triple newt10 1e-3", 58.0),
    ("fevals triple newt10 1e-4", 65.0),
    ("fevals triple newt10 1e-6", 87.0),
    ("fevals triple newt10 1e-8", 148.0),
    ("fevals triple newt3 1e-3", 58.0),
    ("fevals triple newt3 1e-4", 61.0),
    ("fevals triple newt3 1e-6", 84.0),
    ("fevals triple newt3 1e-8", 159.0),
    ("fevals triple noext 1e-3", 63.0),
    ("fevals triple noext 1e-4", 73.0),
    ("fevals triple noext 1e-6", 108.0),
    ("fevals triple noext 1e-8", 224.0),
    ("fevals triple nohold 1e-3", 57.0),
    ("fevals triple nohold 1e-4", 64.0),
    ("fevals triple nohold 1e-6", 87.0),
    ("fevals triple nohold 1e-8", 144.0),
    ("fevals triple safe 1e-3", 65.0),
    ("fevals triple safe 1e-4", 77.0),
    ("fevals triple safe 1e-6", 116.0),
    ("fevals triple safe 1e-8", 234.0),
    ("fevals vdp classic 1e-3", 2747.0),
    ("fevals vdp classic 1e-4", 3453.0),
    ("fevals vdp classic 1e-6", 5653.0),
    ("fevals vdp classic 1e-8", 11811.0),
    ("fevals vdp default 1e-3", 2360.0),
    ("fevals vdp default 1e-4", 3278.0),
    ("fevals vdp default 1e-6", 5731.0),
    ("fevals vdp default 1e-8", 11838.0),
    ("fevals vdp fac 1e-3", 2540.0),
    ("fevals vdp fac 1e-4", 3419.0),
    ("fevals vdp fac 1e-6", 5877.0),
    ("fevals vdp fac 1e-8", 12021.0),
    ("fevals vdp fdjac 1e-3", 2371.0),
    ("fevals vdp fdjac 1e-4", 3278.0),
    ("fevals vdp fdjac 1e-6", 5731.0),
    ("fevals vdp fdjac 1e-8", 11931.0),
    ("fevals vdp fnewt 1e-3", 4812.0),
    ("fevals vdp fnewt 1e-4", 5718.0),
    ("fevals vdp fnewt 1e-6", 8886.0),
    ("fevals vdp fnewt 1e-8", 13908.0),
    ("fevals vdp hold 1e-3", 2425.0),
    ("fevals vdp hold 1e-4", 3327.0),
    ("fevals vdp hold 1e-6", 5826.0),
    ("fevals vdp hold 1e-8", 12006.0),
    ("fevals vdp newt10 1e-3", 2294.0),
    ("fevals vdp newt10 1e-4", 2962.0),
    ("fevals vdp newt10 1e-6", 5695.0),
    ("fevals vdp newt10 1e-8", 11702.0),
    ("fevals vdp newt3 1e-3", 2736.0),
    ("fevals vdp newt3 1e-4", 4151.0),
    ("fevals vdp newt3 1e-6", 8280.0),
    ("fevals vdp newt3 1e-8", 16196.0),
    ("fevals vdp noext 1e-3", 3477.0),
    ("fevals vdp noext 1e-4", 4933.0),
    ("fevals vdp noext 1e-6", 9303.0),
    ("fevals vdp noext 1e-8", 18530.0),
    ("fevals vdp nohold 1e-3", 2364.0),
    ("fevals vdp nohold 1e-4", 3262.0),
    ("fevals vdp nohold 1e-6", 5756.0),
    ("fevals vdp nohold 1e-8", 11848.0),
    ("fevals vdp safe 1e-3", 2527.0),
    ("fevals vdp safe 1e-4", 3637.0),
    ("fevals vdp safe 1e-6", 7871.0),
    ("fevals vdp safe 1e-8", 19258.0),
    ("jacobians cycle classic 1e-3", 5.0),
    ("jacobians cycle classic 1e-4", 6.0),
    ("jacobians cycle classic 1e-6", 8.0),
    ("jacobians cycle classic 1e-8", 8.0),
    ("jacobians cycle default 1e-3", 5.0),
    ("jacobians cycle default 1e-4", 6.0),
    ("jacobians cycle default 1e-6", 8.0),
    ("jacobians cycle default 1e-8", 8.0),
    ("jacobians cycle fac 1e-3", 5.0),
    ("jacobians cycle fac 1e-4", 6.0),
    ("jacobians cycle fac 1e-6", 8.0),
    ("jacobians cycle fac 1e-8", 8.0),
    ("jacobians cycle fdjac 1e-3", 6.0),
    ("jacobians cycle fdjac 1e-4", 6.0),
    ("jacobians cycle fdjac 1e-6", 9.0),
    ("jacobians cycle fdjac 1e-8", 9.0),
    ("jacobians cycle fnewt 1e-3", 5.0),
    ("jacobians cycle fnewt 1e-4", 6.0),
    ("jacobians cycle fnewt 1e-6", 8.0),
    ("jacobians cycle fnewt 1e-8", 8.0),
    ("jacobians cycle hold 1e-3", 5.0),
    ("jacobians cycle hold 1e-4", 6.0),
    ("jacobians cycle hold 1e-6", 8.0),
    ("jacobians cycle hold 1e-8", 8.0),
    ("jacobians cycle newt10 1e-3", 5.0),
    ("jacobians cycle newt10 1e-4", 6.0),
    ("jacobians cycle newt10 1e-6", 8.0),
    ("jacobians cycle newt10 1e-8", 8.0),
    ("jacobians cycle newt3 1e-3", 5.0),
    ("jacobians cycle newt3 1e-4", 6.0),
    ("jacobians cycle newt3 1e-6", 8.0),
    ("jacobians cycle newt3 1e-8", 8.0),
    ("jacobians cycle noext 1e-3", 5.0),
    ("jacobians cycle noext 1e-4", 6.0),
    ("jacobians cycle noext 1e-6", 8.0),
    ("jacobians cycle noext 1e-8", 8.0),
    ("jacobians cycle nohold 1e-3", 5.0),
    ("jacobians cycle nohold 1e-4", 6.0),
    ("jacobians cycle nohold 1e-6", 8.0),
    ("jacobians cycle nohold 1e-8", 8.0),
    ("jacobians cycle safe 1e-3", 5.0),
    ("jacobians cycle safe 1e-4", 6.0),
    ("jacobians cycle safe 1e-6", 8.0),
    ("jacobians cycle safe 1e-8", 8.0),
    ("jacobians decay classic 1e-3", 16.0),
    ("jacobians decay classic 1e-4", 6.0),
    ("jacobians decay classic 1e-6", 7.0),
    ("jacobians decay classic 1e-8", 7.0),
    ("jacobians decay default 1e-3", 16.0),
    ("jacobians decay default 1e-4", 6.0),
    ("jacobians decay default 1e-6", 7.0),
    ("jacobians decay default 1e-8", 7.0),
    ("jacobians decay fac 1e-3", 5.0),
    ("jacobians decay fac 1e-4", 6.0),
    ("jacobians decay fac 1e-6", 7.0),
    ("jacobians decay fac 1e-8", 7.0),
    ("jacobians decay fdjac 1e-3", 15.0),
    ("jacobians decay fdjac 1e-4", 6.0),
    ("jacobians decay fdjac 1e-6", 7.0),
    ("jacobians decay fdjac 1e-8", 7.0),
    ("jacobians decay fnewt 1e-3", 15.0),
    ("jacobians decay fnewt 1e-4", 6.0),
    ("jacobians decay fnewt 1e-6", 7.0),
    ("jacobians decay fnewt 1e-8", 7.0),
    ("jacobians decay hold 1e-3", 16.0),
    ("jacobians decay hold 1e-4", 6.0),
    ("jacobians decay hold 1e-6", 7.0),
    ("jacobians decay hold 1e-8", 7.0),
    ("jacobians decay newt10 1e-3", 16.0),
    ("jacobians decay newt10 1e-4", 6.0),
    ("jacobians decay newt10 1e-6", 7.0),
    ("jacobians decay newt10 1e-8", 7.0),
    ("jacobians decay newt3 1e-3", 15.0),
    ("jacobians decay newt3 1e-4", 6.0),
    ("jacobians decay newt3 1e-6", 7.0),
    ("jacobians decay newt3 1e-8", 7.0),
    ("jacobians decay noext 1e-3", 16.0),
    ("jacobians decay noext 1e-4", 6.0),
    ("jacobians decay noext 1e-6", 7.0),
    ("jacobians decay noext 1e-8", 7.0),
    ("jacobians decay nohold 1e-3", 16.0),
    ("jacobians decay nohold 1e-4", 6.0),
    ("jacobians decay nohold 1e-6", 7.0),
    ("jacobians decay nohold 1e-8", 7.0),
    ("jacobians decay safe 1e-3", 8.0),
    ("jacobians decay safe 1e-4", 9.0),
    ("jacobians decay safe 1e-6", 7.0),
    ("jacobians decay safe 1e-8", 7.0),
    ("jacobians pair classic 1e-3", 1.0000e+00),
    ("jacobians pair classic 1e-4", 1.0000e+00),
    ("jacobians pair classic 1e-6", 1.0000e+00),
    ("jacobians pair classic 1e-8", 1.0000e+00),
    ("jacobians pair default 1e-3", 1.0000e+00),
    ("jacobians pair default 1e-4", 1.0000e+00),
    ("jacobians pair default 1e-6", 1.0000e+00),
    ("jacobians pair default 1e-8", 1.0000e+00),
    ("jacobians pair fac 1e-3", 1.0000e+00),
    ("jacobians pair fac 1e-4", 1.0000e+00),
    ("jacobians pair fac 1e-6", 1.0000e+00),
    ("jacobians pair fac 1e-8", 1.0000e+00),
    ("jacobians pair fdjac 1e-3", 1.0000e+00),
    ("jacobians pair fdjac 1e-4", 1.0000e+00),
    ("jacobians pair fdjac 1e-6", 1.0000e+00),
    ("jacobians pair fdjac 1e-8", 1.0000e+00),
    ("jacobians pair fnewt 1e-3", 1.0000e+00),
    ("jacobians pair fnewt 1e-4", 1.0000e+00),
    ("jacobians pair fnewt 1e-6", 1.0000e+00),
    ("jacobians pair fnewt 1e-8", 1.0000e+00),
    ("jacobians pair hold 1e-3", 1.0000e+00),
    ("jacobians pair hold 1e-4", 1.0000e+00),
    ("jacobians pair hold 1e-6", 1.0000e+00),
    ("jacobians pair hold 1e-8", 1.0000e+00),
    ("jacobians pair newt10 1e-3", 1.0000e+00),
    ("jacobians pair newt10 1e-4", 1.0000e+00),
    ("jacobians pair newt10 1e-6", 1.0000e+00),
    ("jacobians pair newt10 1e-8", 1.0000e+00),
    ("jacobians pair newt3 1e-3", 1.0000e+00),
    ("jacobians pair newt3 1e-4", 1.0000e+00),
    ("jacobians pair newt3 1e-6", 1.0000e+00),
    ("jacobians pair newt3 1e-8", 1.0000e+00),
    ("jacobians pair noext 1e-3", 1.0000e+00),
    ("jacobians pair noext 1e-4", 1.0000e+00),
    ("jacobians pair noext 1e-6", 1.0000e+00),
    ("jacobians pair noext 1e-8", 1.0000e+00),
    ("jacobians pair nohold 1e-3", 1.0000e+00),
    ("jacobians pair nohold 1e-4", 1.0000e+00),
    ("jacobians pair nohold 1e-6", 1.0000e+00),
    ("jacobians pair nohold 1e-8", 1.0000e+00),
    ("jacobians pair safe 1e-3", 1.0000e+00),
    ("jacobians pair safe 1e-4", 1.0000e+00),
    ("jacobians pair safe 1e-6", 1.0000e+00),
    ("jacobians pair safe 1e-8", 1.0000e+00),
    ("jacobians pr classic 1e-3", 5.0),
    ("jacobians pr classic 1e-4", 10.0),
    ("jacobians pr classic 1e-6", 3.0),
    ("jacobians pr classic 1e-8", 3.0),
    ("jacobians pr default 1e-3", 5.0),
    ("jacobians pr default 1e-4", 10.0),
    ("jacobians pr default 1e-6", 3.0),
    ("jacobians pr default 1e-8", 4.0),
    ("jacobians pr fac 1e-3", 2.0),
    ("jacobians pr fac 1e-4", 5.0),
    ("jacobians pr fac 1e-6", 3.0),
    ("jacobians pr fac 1e-8", 3.0),
    ("jacobians pr fdjac 1e-3", 5.0),
    ("jacobians pr fdjac 1e-4", 10.0),
    ("jacobians pr fdjac 1e-6", 3.0),
    ("jacobians pr fdjac 1e-8", 3.0),
    ("jacobians pr fnewt 1e-3", 5.0),
    ("jacobians pr fnewt 1e-4", 13.0),
    ("jacobians pr fnewt 1e-6", 3.0),
    ("jacobians pr fnewt 1e-8", 3.0),
    ("jacobians pr hold 1e-3", 2.0),
    ("jacobians pr hold 1e-4", 10.0),
    ("jacobians pr hold 1e-6", 2.0),
    ("jacobians pr hold 1e-8", 2.0),
    ("jacobians pr newt10 1e-3", 6.0),
    ("jacobians pr newt10 1e-4", 10.0),
    ("jacobians pr newt10 1e-6", 16.0),
    ("jacobians pr newt10 1e-8", 4.0),
    ("jacobians pr newt3 1e-3", 4.0),
    ("jacobians pr newt3 1e-4", 4.0),
    ("jacobians pr newt3 1e-6", 3.0),
    ("jacobians pr newt3 1e-8", 4.0),
    ("jacobians pr noext 1e-3", 5.0),
    ("jacobians pr noext 1e-4", 13.0),
    ("jacobians pr noext 1e-6", 3.0),
    ("jacobians pr noext 1e-8", 4.0),
    ("jacobians pr nohold 1e-3", 5.0),
    ("jacobians pr nohold 1e-4", 10.0),
    ("jacobians pr nohold 1e-6", 4.0),
    ("jacobians pr nohold 1e-8", 4.0),
    ("jacobians pr safe 1e-3", 2.0),
    ("jacobians pr safe 1e-4", 2.0),
    ("jacobians pr safe 1e-6", 2.0),
    ("jacobians pr safe 1e-8", 2.0),
    ("jacobians pr3 classic 1e-3", 5.0),
    ("jacobians pr3 classic 1e-4", 7.0),
    ("jacobians pr3 classic 1e-6", 11.0),
    ("jacobians pr3 classic 1e-8", 19.0),
    ("jacobians pr3 default 1e-3", 5.0),
    ("jacobians pr3 default 1e-4", 7.0),
    ("jacobians pr3 default 1e-6", 11.0),
    ("jacobians pr3 default 1e-8", 19.0),
    ("jacobians pr3 fac 1e-3", 4.0),
    ("jacobians pr3 fac 1e-4", 7.0),
    ("jacobians pr3 fac 1e-6", 10.0),
    ("jacobians pr3 fac 1e-8", 17.0),
    ("jacobians pr3 fdjac 1e-3", 5.0),
    ("jacobians pr3 fdjac 1e-4", 7.0),
    ("jacobians pr3 fdjac 1e-6", 11.0),
    ("jacobians pr3 fdjac 1e-8", 19.0),
    ("jacobians pr3 fnewt 1e-3", 11.0),
    ("jacobians pr3 fnewt 1e-4", 14.0),
    ("jacobians pr3 fnewt 1e-6", 19.0),
    ("jacobians pr3 fnewt 1e-8", 31.0),
    ("jacobians pr3 hold 1e-3", 5.0),
    ("jacobians pr3 hold 1e-4", 7.0),
    ("jacobians pr3 hold 1e-6", 11.0),
    ("jacobians pr3 hold 1e-8", 19.0),
    ("jacobians pr3 newt10 1e-3", 4.0),
    ("jacobians pr3 newt10 1e-4", 5.0),
    ("jacobians pr3 newt10 1e-6", 9.0),
    ("jacobians pr3 newt10 1e-8", 12.0),
    ("jacobians pr3 newt3 1e-3", 7.0),
    ("jacobians pr3 newt3 1e-4", 11.0),
    ("jacobians pr3 newt3 1e-6", 28.0),
    ("jacobians pr3 newt3 1e-8", 68.0),
    ("jacobians pr3 noext 1e-3", 10.0),
    ("jacobians pr3 noext 1e-4", 12.0),
    ("jacobians pr3 noext 1e-6", 27.0),
    ("jacobians pr3 noext 1e-8", 59.0),
    ("jacobians pr3 nohold 1e-3", 5.0),
    ("jacobians pr3 nohold 1e-4", 7.0),
    ("jacobians pr3 nohold 1e-6", 11.0),
    ("jacobians pr3 nohold 1e-8", 19.0),
    ("jacobians pr3 safe 1e-3", 6.0),
    ("jacobians pr3 safe 1e-4", 8.0),
    ("jacobians pr3 safe 1e-6", 11.0),
    ("jacobians pr3 safe 1e-8", 19.0),
    ("jacobians triple classic 1e-3", 2.0),
    ("jacobians triple classic 1e-4", 2.0),
    ("jacobians triple classic 1e-6", 2.0),
    ("jacobians triple classic 1e-8", 3.0),
    ("jacobians triple default 1e-3", 2.0),
    ("jacobians triple default 1e-4", 2.0),
    ("jacobians triple default 1e-6", 2.0),
    ("jacobians triple default 1e-8", 3.0),
    ("jacobians triple fac 1e-3", 1.0000e+00),
    ("jacobians triple fac 1e-4", 2.0),
    ("jacobians triple fac 1e-6", 2.0),
    ("jacobians triple fac 1e-8", 3.0),
    ("jacobians triple fdjac 1e-3", 2.0),
    ("jacobians triple fdjac 1e-4", 2.0),
    ("jacobians triple fdjac 1e-6", 2.0),
    ("jacobians triple fdjac 1e-8", 3.0),
    ("jacobians triple fnewt 1e-3", 2.0),
    ("jacobians triple fnewt 1e-4", 2.0),
    ("jacobians triple fnewt 1e-6", 2.0),
    ("jacobians triple fnewt 1e-8", 2.0),
    ("jacobians triple hold 1e-3", 2.0),
    ("jacobians triple hold 1e-4", 2.0),
    ("jacobians triple hold 1e-6", 3.0),
    ("jacobians triple hold 1e-8", 2.0),
    ("jacobians triple newt10 1e-3", 2.0),
    ("jacobians triple newt10 1e-4", 2.0),
    ("jacobians triple newt10 1e-6", 2.0),
    ("jacobians triple newt10 1e-8", 2.0),
    ("jacobians triple newt3 1e-3", 2.0),
    ("jacobians triple newt3 1e-4", 2.0),
    ("jacobians triple newt3 1e-6", 2.0),
    ("jacobians triple newt3 1e-8", 2.0),
    ("jacobians triple noext 1e-3", 2.0),
    ("jacobians triple noext 1e-4", 2.0),
    ("jacobians triple noext 1e-6", 2.0),
    ("jacobians triple noext 1e-8", 3.0),
    ("jacobians triple nohold 1e-3", 2.0),
    ("jacobians triple nohold 1e-4", 2.0),
    ("jacobians triple nohold 1e-6", 2.0),
    ("jacobians triple nohold 1e-8", 2.0),
    ("jacobians triple safe 1e-3", 2.0),
    ("jacobians triple safe 1e-4", 2.0),
    ("jacobians triple safe 1e-6", 1.0000e+00),
    ("jacobians triple safe 1e-8", 1.0000e+00),
    ("jacobians vdp classic 1e-3", 288.0),
    ("jacobians vdp classic 1e-4", 304.0),
    ("jacobians vdp classic 1e-6", 428.0),
    ("jacobians vdp classic 1e-8", 672.0),
    ("jacobians vdp default 1e-3", 226.0),
    ("jacobians vdp default 1e-4", 271.0),
    ("jacobians vdp default 1e-6", 430.0),
    ("jacobians vdp default 1e-8", 674.0),
    ("jacobians vdp fac 1e-3", 222.0),
    ("jacobians vdp fac 1e-4", 268.0),
    ("jacobians vdp fac 1e-6", 433.0),
    ("jacobians vdp fac 1e-8", 679.0),
    ("jacobians vdp fdjac 1e-3", 227.0),
    ("jacobians vdp fdjac 1e-4", 271.0),
    ("jacobians vdp fdjac 1e-6", 432.0),
    ("jacobians vdp fdjac 1e-8", 672.0),
    ("jacobians vdp fnewt 1e-3", 353.0),
    ("jacobians vdp fnewt 1e-4", 421.0),
    ("jacobians vdp fnewt 1e-6", 592.0),
    ("jacobians vdp fnewt 1e-8", 691.0),
    ("jacobians vdp hold 1e-3", 230.0),
    ("jacobians vdp hold 1e-4", 274.0),
    ("jacobians vdp hold 1e-6", 434.0),
    ("jacobians vdp hold 1e-8", 673.0),
    ("jacobians vdp newt10 1e-3", 171.0),
    ("jacobians vdp newt10 1e-4", 224.0),
    ("jacobians vdp newt10 1e-6", 429.0),
    ("jacobians vdp newt10 1e-8", 656.0),
    ("jacobians vdp newt3 1e-3", 335.0),
    ("jacobians vdp newt3 1e-4", 510.0),
    ("jacobians vdp newt3 1e-6", 973.0),
    ("jacobians vdp newt3 1e-8", 1506.0),
    ("jacobians vdp noext 1e-3", 252.0),
    ("jacobians vdp noext 1e-4", 331.0),
    ("jacobians vdp noext 1e-6", 530.0),
    ("jacobians vdp noext 1e-8", 637.0),
    ("jacobians vdp nohold 1e-3", 226.0),
    ("jacobians vdp nohold 1e-4", 269.0),
    ("jacobians vdp nohold 1e-6", 430.0),
    ("jacobians vdp nohold 1e-8", 674.0),
    ("jacobians vdp safe 1e-3", 168.0),
    ("jacobians vdp safe 1e-4", 248.0),
    ("jacobians vdp safe 1e-6", 496.0),
    ("jacobians vdp safe 1e-8", 795.0),
    ("robertson decompositions classic 0", 17.0),
    ("robertson decompositions classic 1", 23.0),
    ("robertson decompositions classic 10", 107.0),
    ("robertson decompositions classic 11", 113.0),
    ("robertson decompositions classic 2", 31.0),
    ("robertson decompositions classic 3", 39.0),
    ("robertson decompositions classic 4", 48.0),
    ("robertson decompositions classic 5", 59.0),
    ("robertson decompositions classic 6", 71.0),
    ("robertson decompositions classic 7", 83.0),
    ("robertson decompositions classic 8", 94.0),
    ("robertson decompositions classic 9", 102.0),
    ("robertson decompositions default 0", 17.0),
    ("robertson decompositions default 1", 23.0),
    ("robertson decompositions default 10", 107.0),
    ("robertson decompositions default 11", 113.0),
    ("robertson decompositions default 2", 31.0),
    ("robertson decompositions default 3", 39.0),
    ("robertson decompositions default 4", 48.0),
    ("robertson decompositions default 5", 59.0),
    ("robertson decompositions default 6", 71.0),
    ("robertson decompositions default 7", 83.0),
    ("robertson decompositions default 8", 94.0),
    ("robertson decompositions default 9", 102.0),
    ("robertson decompositions fac 0", 18.0),
    ("robertson decompositions fac 1", 24.0),
    ("robertson decompositions fac 10", 108.0),
    ("robertson decompositions fac 11", 113.0),
    ("robertson decompositions fac 2", 32.0),
    ("robertson decompositions fac 3", 40.0),
    ("robertson decompositions fac 4", 48.0),
    ("robertson decompositions fac 5", 59.0),
    ("robertson decompositions fac 6", 72.0),
    ("robertson decompositions fac 7", 84.0),
    ("robertson decompositions fac 8", 95.0),
    ("robertson decompositions fac 9", 102.0),
    ("robertson decompositions fdjac 0", 17.0),
    ("robertson decompositions fdjac 1", 23.0),
    ("robertson decompositions fdjac 10", 125.0),
    ("robertson decompositions fdjac 11", 366.0),
    ("robertson decompositions fdjac 2", 31.0),
    ("robertson decompositions fdjac 3", 39.0),
    ("robertson decompositions fdjac 4", 48.0),
    ("robertson decompositions fdjac 5", 59.0),
    ("robertson decompositions fdjac 6", 71.0),
    ("robertson decompositions fdjac 7", 83.0),
    ("robertson decompositions fdjac 8", 94.0),
    ("robertson decompositions fdjac 9", 102.0),
    ("robertson decompositions fnewt 0", 16.0),
    ("robertson decompositions fnewt 1", 23.0),
    ("robertson decompositions fnewt 10", 114.0),
    ("robertson decompositions fnewt 11", 124.0),
    ("robertson decompositions fnewt 2", 32.0),
    ("robertson decompositions fnewt 3", 40.0),
    ("robertson decompositions fnewt 4", 50.0),
    ("robertson decompositions fnewt 5", 62.0),
    ("robertson decompositions fnewt 6", 75.0),
    ("robertson decompositions fnewt 7", 88.0),
    ("robertson decompositions fnewt 8", 100.0),
    ("robertson decompositions fnewt 9", 108.0),
    ("robertson decompositions hold 0", 17.0),
    ("robertson decompositions hold 1", 23.0),
    ("robertson decompositions hold 10", 107.0),
    ("robertson decompositions hold 11", 112.0),
    ("robertson decompositions hold 2", 31.0),
    ("robertson decompositions hold 3", 38.0),
    ("robertson decompositions hold 4", 47.0),
    ("robertson decompositions hold 5", 58.0),
    ("robertson decompositions hold 6", 70.0),
    ("robertson decompositions hold 7", 83.0),
    ("robertson decompositions hold 8", 94.0),
    ("robertson decompositions hold 9", 101.0),
    ("robertson decompositions newt10 0", 16.0),
    ("robertson decompositions newt10 1", 22.0),
    ("robertson decompositions newt10 10", 105.0),
    ("robertson decompositions newt10 11", 108.0),
    ("robertson decompositions newt10 2", 30.0),
    ("robertson decompositions newt10 3", 37.0),
    ("robertson decompositions newt10 4", 46.0),
    ("robertson decompositions newt10 5", 57.0),
    ("robertson decompositions newt10 6", 69.0),
    ("robertson decompositions newt10 7", 81.0),
    ("robertson decompositions newt10 8", 92.0),
    ("robertson decompositions newt10 9", 99.0),
    ("robertson decompositions newt3 0", 17.0),
    ("robertson decompositions newt3 1", 23.0),
    ("robertson decompositions newt3 10", 117.0),
    ("robertson decompositions newt3 11", 127.0),
    ("robertson decompositions newt3 2", 31.0),
    ("robertson decompositions newt3 3", 40.0),
    ("robertson decompositions newt3 4", 49.0),
    ("robertson decompositions newt3 5", 61.0),
    ("robertson decompositions newt3 6", 74.0),
    ("robertson decompositions newt3 7", 87.0),
    ("robertson decompositions newt3 8", 98.0),
    ("robertson decompositions newt3 9", 106.0),
    ("robertson decompositions noext 0", 16.0),
    ("robertson decompositions noext 1", 22.0),
    ("robertson decompositions noext 10", 107.0),
    ("robertson decompositions noext 11", 110.0),
    ("robertson decompositions noext 2", 30.0),
    ("robertson decompositions noext 3", 38.0),
    ("robertson decompositions noext 4", 47.0),
    ("robertson decompositions noext 5", 58.0),
    ("robertson decompositions noext 6", 70.0),
    ("robertson decompositions noext 7", 83.0),
    ("robertson decompositions noext 8", 94.0),
    ("robertson decompositions noext 9", 102.0),
    ("robertson decompositions nohold 0", 17.0),
    ("robertson decompositions nohold 1", 23.0),
    ("robertson decompositions nohold 10", 107.0),
    ("robertson decompositions nohold 11", 113.0),
    ("robertson decompositions nohold 2", 31.0),
    ("robertson decompositions nohold 3", 39.0),
    ("robertson decompositions nohold 4", 48.0),
    ("robertson decompositions nohold 5", 59.0),
    ("robertson decompositions nohold 6", 71.0),
    ("robertson decompositions nohold 7", 83.0),
    ("robertson decompositions nohold 8", 94.0),
    ("robertson decompositions nohold 9", 102.0),
    ("robertson decompositions safe 0", 24.0),
    ("robertson decompositions safe 1", 33.0),
    ("robertson decompositions safe 10", 156.0),
    ("robertson decompositions safe 11", 161.0),
    ("robertson decompositions safe 2", 46.0),
    ("robertson decompositions safe 3", 59.0),
    ("robertson decompositions safe 4", 73.0),
    ("robertson decompositions safe 5", 91.0),
    ("robertson decompositions safe 6", 104.0),
    ("robertson decompositions safe 7", 118.0),
    ("robertson decompositions safe 8", 136.0),
    ("robertson decompositions safe 9", 148.0),
    ("robertson fevals classic 0", 118.0),
    ("robertson fevals classic 1", 163.0),
    ("robertson fevals classic 10", 763.0),
    ("robertson fevals classic 11", 819.0),
    ("robertson fevals classic 2", 219.0),
    ("robertson fevals classic 3", 272.0),
    ("robertson fevals classic 4", 335.0),
    ("robertson fevals classic 5", 412.0),
    ("robertson fevals classic 6", 496.0),
    ("robertson fevals classic 7", 583.0),
    ("robertson fevals classic 8", 660.0),
    ("robertson fevals classic 9", 713.0),
    ("robertson fevals default 0", 118.0),
    ("robertson fevals default 1", 163.0),
    ("robertson fevals default 10", 763.0),
    ("robertson fevals default 11", 819.0),
    ("robertson fevals default 2", 219.0),
    ("robertson fevals default 3", 272.0),
    ("robertson fevals default 4", 335.0),
    ("robertson fevals default 5", 412.0),
    ("robertson fevals default 6", 496.0),
    ("robertson fevals default 7", 583.0),
    ("robertson fevals default 8", 660.0),
    ("robertson fevals default 9", 713.0),
    ("robertson fevals fac 0", 105.0),
    ("robertson fevals fac 1", 150.0),
    ("robertson fevals fac 10", 750.0),
    ("robertson fevals fac 11", 802.0),
    ("robertson fevals fac 2", 203.0),
    ("robertson fevals fac 3", 259.0),
    ("robertson fevals fac 4", 318.0),
    ("robertson fevals fac 5", 395.0),
    ("robertson fevals fac 6", 483.0),
    ("robertson fevals fac 7", 570.0),
    ("robertson fevals fac 8", 644.0),
    ("robertson fevals fac 9", 696.0),
    ("robertson fevals fdjac 0", 118.0),
    ("robertson fevals fdjac 1", 163.0),
    ("robertson fevals fdjac 10", 1019.0),
    ("robertson fevals fdjac 11", 3591.0),
    ("robertson fevals fdjac 2", 219.0),
    ("robertson fevals fdjac 3", 272.0),
    ("robertson fevals fdjac 4", 335.0),
    ("robertson fevals fdjac 5", 412.0),
    ("robertson fevals fdjac 6", 496.0),
    ("robertson fevals fdjac 7", 583.0),
    ("robertson fevals fdjac 8", 660.0),
    ("robertson fevals fdjac 9", 752.0),
    ("robertson fevals fnewt 0", 165.0),
    ("robertson fevals fnewt 1", 250.0),
    ("robertson fevals fnewt 10", 1385.0),
    ("robertson fevals fnewt 11", 1485.0),
    ("robertson fevals fnewt 2", 379.0),
    ("robertson fevals fnewt 3", 501.0),
    ("robertson fevals fnewt 4", 628.0),
    ("robertson fevals fnewt 5", 751.0),
    ("robertson fevals fnewt 6", 881.0),
    ("robertson fevals fnewt 7", 1035.0),
    ("robertson fevals fnewt 8", 1185.0),
    ("robertson fevals fnewt 9", 1292.0),
    ("robertson fevals hold 0", 122.0),
    ("robertson fevals hold 1", 167.0),
    ("robertson fevals hold 10", 767.0),
    ("robertson fevals hold 11", 819.0),
    ("robertson fevals hold 2", 220.0),
    ("robertson fevals hold 3", 272.0),
    ("robertson fevals hold 4", 335.0),
    ("robertson fevals hold 5", 412.0),
    ("robertson fevals hold 6", 496.0),
    ("robertson fevals hold 7", 587.0),
    ("robertson fevals hold 8", 661.0),
    ("robertson fevals hold 9", 713.0),
    ("robertson fevals newt10 0", 117.0),
    ("robertson fevals newt10 1", 162.0),
    ("robertson fevals newt10 10", 755.0),
    ("robertson fevals newt10 11", 800.0),
    ("robertson fevals newt10 2", 215.0),
    ("robertson fevals newt10 3", 267.0),
    ("robertson fevals newt10 4", 330.0),
    ("robertson fevals newt10 5", 407.0),
    ("robertson fevals newt10 6", 491.0),
    ("robertson fevals newt10 7", 575.0),
    ("robertson fevals newt10 8", 649.0),
    ("robertson fevals newt10 9", 701.0),
    ("robertson fevals newt3 0", 109.0),
    ("robertson fevals newt3 1", 154.0),
    ("robertson fevals newt3 10", 806.0),
    ("robertson fevals newt3 11", 866.0),
    ("robertson fevals newt3 2", 210.0),
    ("robertson fevals newt3 3", 270.0),
    ("robertson fevals newt3 4", 336.0),
    ("robertson fevals newt3 5", 417.0),
    ("robertson fevals newt3 6", 508.0),
    ("robertson fevals newt3 7", 599.0),
    ("robertson fevals newt3 8", 679.0),
    ("robertson fevals newt3 9", 735.0),
    ("robertson fevals noext 0", 142.0),
    ("robertson fevals noext 1", 187.0),
    ("robertson fevals noext 10", 794.0),
    ("robertson fevals noext 11", 815.0),
    ("robertson fevals noext 2", 255.0),
    ("robertson fevals noext 3", 311.0),
    ("robertson fevals noext 4", 374.0),
    ("robertson fevals noext 5", 451.0),
    ("robertson fevals noext 6", 535.0),
    ("robertson fevals noext 7", 626.0),
    ("robertson fevals noext 8", 703.0),
    ("robertson fevals noext 9", 759.0),
    ("robertson fevals nohold 0", 118.0),
    ("robertson fevals nohold 1", 163.0),
    ("robertson fevals nohold 10", 763.0),
    ("robertson fevals nohold 11", 819.0),
    ("robertson fevals nohold 2", 219.0),
    ("robertson fevals nohold 3", 272.0),
    ("robertson fevals nohold 4", 335.0),
    ("robertson fevals nohold 5", 412.0),
    ("robertson fevals nohold 6", 496.0),
    ("robertson fevals nohold 7", 583.0),
    ("robertson fevals nohold 8", 660.0),
    ("robertson fevals nohold 9", 713.0),
    ("robertson fevals safe 0", 140.0),
    ("robertson fevals safe 1", 197.0),
    ("robertson fevals safe 10", 1062.0),
    ("robertson fevals safe 11", 1103.0),
    ("robertson fevals safe 2", 285.0),
    ("robertson fevals safe 3", 376.0),
    ("robertson fevals safe 4", 471.0),
    ("robertson fevals safe 5", 579.0),
    ("robertson fevals safe 6", 703.0),
    ("robertson fevals safe 7", 820.0),
    ("robertson fevals safe 8", 928.0),
    ("robertson fevals safe 9", 1006.0),
    ("robertson steps classic 0", 17.0),
    ("robertson steps classic 1", 23.0),
    ("robertson steps classic 10", 107.0),
    ("robertson steps classic 11", 113.0),
    ("robertson steps classic 2", 31.0),
    ("robertson steps classic 3", 39.0),
    ("robertson steps classic 4", 48.0),
    ("robertson steps classic 5", 59.0),
    ("robertson steps classic 6", 71.0),
    ("robertson steps classic 7", 83.0),
    ("robertson steps classic 8", 94.0),
    ("robertson steps classic 9", 102.0),
    ("robertson steps default 0", 17.0),
    ("robertson steps default 1", 23.0),
    ("robertson steps default 10", 107.0),
    ("robertson steps default 11", 113.0),
    ("robertson steps default 2", 31.0),
    ("robertson steps default 3", 39.0),
    ("robertson steps default 4", 48.0),
    ("robertson steps default 5", 59.0),
    ("robertson steps default 6", 71.0),
    ("robertson steps default 7", 83.0),
    ("robertson steps default 8", 94.0),
    ("robertson steps default 9", 102.0),
    ("robertson steps fac 0", 18.0),
    ("robertson steps fac 1", 24.0),
    ("robertson steps fac 10", 108.0),
    ("robertson steps fac 11", 113.0),
    ("robertson steps fac 2", 32.0),
    ("robertson steps fac 3", 40.0),
    ("robertson steps fac 4", 48.0),
    ("robertson steps fac 5", 59.0),
    ("robertson steps fac 6", 72.0),
    ("robertson steps fac 7", 84.0),
    ("robertson steps fac 8", 95.0),
    ("robertson steps fac 9", 102.0),
    ("robertson steps fdjac 0", 17.0),
    ("robertson steps fdjac 1", 23.0),
    ("robertson steps fdjac 10", 125.0),
    ("robertson steps fdjac 11", 366.0),
    ("robertson steps fdjac 2", 31.0),
    ("robertson steps fdjac 3", 39.0),
    ("robertson steps fdjac 4", 48.0),
    ("robertson steps fdjac 5", 59.0),
    ("robertson steps fdjac 6", 71.0),
    ("robertson steps fdjac 7", 83.0),
    ("robertson steps fdjac 8", 94.0),
    ("robertson steps fdjac 9", 102.0),
    ("robertson steps fnewt 0", 16.0),
    ("robertson steps fnewt 1", 23.0),
    ("robertson steps fnewt 10", 114.0),
    ("robertson steps fnewt 11", 124.0),
    ("robertson steps fnewt 2", 32.0),
    ("robertson steps fnewt 3", 40.0),
    ("robertson steps fnewt 4", 50.0),
    ("robertson steps fnewt 5", 62.0),
    ("robertson steps fnewt 6", 75.0),
    ("robertson steps fnewt 7", 88.0),
    ("robertson steps fnewt 8", 100.0),
    ("robertson steps fnewt 9", 108.0),
    ("robertson steps hold 0", 18.0),
    ("robertson steps hold 1", 24.0),
    ("robertson steps hold 10", 108.0),
    ("robertson steps hold 11", 113.0),
    ("robertson steps hold 2", 32.0),
    ("robertson steps hold 3", 39.0),
    ("robertson steps hold 4", 48.0),
    ("robertson steps hold 5", 59.0),
    ("robertson steps hold 6", 71.0),
    ("robertson steps hold 7", 84.0),
    ("robertson steps hold 8", 95.0),
    ("robertson steps hold 9", 102.0),
    ("robertson steps newt10 0", 16.0),
    ("robertson steps newt10 1", 22.0),
    ("robertson steps newt10 10", 105.0),
    ("robertson steps newt10 11", 108.0),
    ("robertson steps newt10 2", 30.0),
    ("robertson steps newt10 3", 37.0),
    ("robertson steps newt10 4", 46.0),
    ("robertson steps newt10 5", 57.0),
    ("robertson steps newt10 6", 69.0),
    ("robertson steps newt10 7", 81.0),
    ("robertson steps newt10 8", 92.0),
    ("robertson steps newt10 9", 99.0),
    ("robertson steps newt3 0", 17.0),
    ("robertson steps newt3 1", 23.0),
    ("robertson steps newt3 10", 117.0),
    ("robertson steps newt3 11", 127.0),
    ("robertson steps newt3 2", 31.0),
    ("robertson steps newt3 3", 40.0),
    ("robertson steps newt3 4", 49.0),
    ("robertson steps newt3 5", 61.0),
    ("robertson steps newt3 6", 74.0),
    ("robertson steps newt3 7", 87.0),
    ("robertson steps newt3 8", 98.0),
    ("robertson steps newt3 9", 106.0),
    ("robertson steps noext 0", 17.0),
    ("robertson steps noext 1", 23.0),
    ("robertson steps noext 10", 108.0),
    ("robertson steps noext 11", 111.0),
    ("robertson steps noext 2", 31.0),
    ("robertson steps noext 3", 39.0),
    ("robertson steps noext 4", 48.0),
    ("robertson steps noext 5", 59.0),
    ("robertson steps noext 6", 71.0),
    ("robertson steps noext 7", 84.0),
    ("robertson steps noext 8", 95.0),
    ("robertson steps noext 9", 103.0),
    ("robertson steps nohold 0", 17.0),
    ("robertson steps nohold 1", 23.0),
    ("robertson steps nohold 10", 107.0),
    ("robertson steps nohold 11", 113.0),
    ("robertson steps nohold 2", 31.0),
    ("robertson steps nohold 3", 39.0),
    ("robertson steps nohold 4", 48.0),
    ("robertson steps nohold 5", 59.0),
    ("robertson steps nohold 6", 71.0),
    ("robertson steps nohold 7", 83.0),
    ("robertson steps nohold 8", 94.0),
    ("robertson steps nohold 9", 102.0),
    ("robertson steps safe 0", 24.0),
    ("robertson steps safe 1", 33.0),
    ("robertson steps safe 10", 172.0),
    ("robertson steps safe 11", 177.0),
    ("robertson steps safe 2", 46.0),
    ("robertson steps safe 3", 59.0),
    ("robertson steps safe 4", 73.0),
    ("robertson steps safe 5", 91.0),
    ("robertson steps safe 6", 113.0),
    ("robertson steps safe 7", 134.0),
    ("robertson steps safe 8", 152.0),
    ("robertson steps safe 9", 164.0),
    ("steps cycle classic 1e-3", 26.0),
    ("steps cycle classic 1e-4", 29.0),
    ("steps cycle classic 1e-6", 48.0),
    ("steps cycle classic 1e-8", 78.0),
    ("steps cycle default 1e-3", 26.0),
    ("steps cycle default 1e-4", 29.0),
    ("steps cycle default 1e-6", 48.0),
    ("steps cycle default 1e-8", 78.0),
    ("steps cycle fac 1e-3", 43.0),
    ("steps cycle fac 1e-4", 47.0),
    ("steps cycle fac 1e-6", 66.0),
    ("steps cycle fac 1e-8", 96.0),
    ("steps cycle fdjac 1e-3", 28.0),
    ("steps cycle fdjac 1e-4", 32.0),
    ("steps cycle fdjac 1e-6", 50.0),
    ("steps cycle fdjac 1e-8", 80.0),
    ("steps cycle fnewt 1e-3", 26.0),
    ("steps cycle fnewt 1e-4", 29.0),
    ("steps cycle fnewt 1e-6", 47.0),
    ("steps cycle fnewt 1e-8", 78.0),
    ("steps cycle hold 1e-3", 32.0),
    ("steps cycle hold 1e-4", 42.0),
    ("steps cycle hold 1e-6", 75.0),
    ("steps cycle hold 1e-8", 141.0),
    ("steps cycle newt10 1e-3", 26.0),
    ("steps cycle newt10 1e-4", 29.0),
    ("steps cycle newt10 1e-6", 47.0),
    ("steps cycle newt10 1e-8", 78.0),
    ("steps cycle newt3 1e-3", 26.0),
    ("steps cycle newt3 1e-4", 29.0),
    ("steps cycle newt3 1e-6", 47.0),
    ("steps cycle newt3 1e-8", 78.0),
    ("steps cycle noext 1e-3", 25.0),
    ("steps cycle noext 1e-4", 29.0),
    ("steps cycle noext 1e-6", 47.0),
    ("steps cycle noext 1e-8", 78.0),
    ("steps cycle nohold 1e-3", 25.0),
    ("steps cycle nohold 1e-4", 29.0),
    ("steps cycle nohold 1e-6", 46.0),
    ("steps cycle nohold 1e-8", 74.0),
    ("steps cycle safe 1e-3", 32.0),
    ("steps cycle safe 1e-4", 39.0),
    ("steps cycle safe 1e-6", 69.0),
    ("steps cycle safe 1e-8", 123.0),
    ("steps decay classic 1e-3", 35.0),
    ("steps decay classic 1e-4", 43.0),
    ("steps decay classic 1e-6", 65.0),
    ("steps decay classic 1e-8", 120.0),
    ("steps decay default 1e-3", 35.0),
    ("steps decay default 1e-4", 43.0),
    ("steps decay default 1e-6", 65.0),
    ("steps decay default 1e-8", 120.0),
    ("steps decay fac 1e-3", 52.0),
    ("steps decay fac 1e-4", 61.0),
    ("steps decay fac 1e-6", 82.0),
    ("steps decay fac 1e-8", 137.0),
    ("steps decay fdjac 1e-3", 35.0),
    ("steps decay fdjac 1e-4", 43.0),
    ("steps decay fdjac 1e-6", 65.0),
    ("steps decay fdjac 1e-8", 120.0),
    ("steps decay fnewt 1e-3", 35.0),
    ("steps decay fnewt 1e-4", 44.0),
    ("steps decay fnewt 1e-6", 65.0),
    ("steps decay fnewt 1e-8", 120.0),
    ("steps decay hold 1e-3", 61.0),
    ("steps decay hold 1e-4", 86.0),
    ("steps decay hold 1e-6", 131.0),
    ("steps decay hold 1e-8", 263.0),
    ("steps decay newt10 1e-3", 35.0),
    ("steps decay newt10 1e-4", 43.0),
    ("steps decay newt10 1e-6", 64.0),
    ("steps decay newt10 1e-8", 119.0),
    ("steps decay newt3 1e-3", 35.0),
    ("steps decay newt3 1e-4", 44.0),
    ("steps decay newt3 1e-6", 66.0),
    ("steps decay newt3 1e-8", 121.0),
    ("steps decay noext 1e-3", 35.0),
    ("steps decay noext 1e-4", 44.0),
    ("steps decay noext 1e-6", 65.0),
    ("steps decay noext 1e-8", 120.0),
    ("steps decay nohold 1e-3", 34.0),
    ("steps decay nohold 1e-4", 42.0),
    ("steps decay nohold 1e-6", 62.0),
    ("steps decay nohold 1e-8", 112.0),
    ("steps decay safe 1e-3", 49.0),
    ("steps decay safe 1e-4", 65.0),
    ("steps decay safe 1e-6", 102.0),
    ("steps decay safe 1e-8", 202.0),
    ("steps pair classic 1e-3", 10.0),
    ("steps pair classic 1e-4", 11.0),
    ("steps pair classic 1e-6", 17.0),
    ("steps pair classic 1e-8", 29.0),
    ("steps pair default 1e-3", 10.0),
    ("steps pair default 1e-4", 11.0),
    ("steps pair default 1e-6", 17.0),
    ("steps pair default 1e-8", 29.0),
    ("steps pair fac 1e-3", 22.0),
    ("steps pair fac 1e-4", 23.0),
    ("steps pair fac 1e-6", 27.0),
    ("steps pair fac 1e-8", 39.0),
    ("steps pair fdjac 1e-3", 10.0),
    ("steps pair fdjac 1e-4", 11.0),
    ("steps pair fdjac 1e-6", 17.0),
    ("steps pair fdjac 1e-8", 29.0),
    ("steps pair fnewt 1e-3", 10.0),
    ("steps pair fnewt 1e-4", 12.0),
    ("steps pair fnewt 1e-6", 17.0),
    ("steps pair fnewt 1e-8", 29.0),
    ("steps pair hold 1e-3", 12.0),
    ("steps pair hold 1e-4", 13.0),
    ("steps pair hold 1e-6", 39.0),
    ("steps pair hold 1e-8", 64.0),
    ("steps pair newt10 1e-3", 10.0),
    ("steps pair newt10 1e-4", 11.0),
    ("steps pair newt10 1e-6", 17.0),
    ("steps pair newt10 1e-8", 29.0),
    ("steps pair newt3 1e-3", 10.0),
    ("steps pair newt3 1e-4", 12.0),
    ("steps pair newt3 1e-6", 17.0),
    ("steps pair newt3 1e-8", 31.0),
    ("steps pair noext 1e-3", 10.0),
    ("steps pair noext 1e-4", 11.0),
    ("steps pair noext 1e-6", 17.0),
    ("steps pair noext 1e-8", 29.0),
    ("steps pair nohold 1e-3", 10.0),
    ("steps pair nohold 1e-4", 11.0),
    ("steps pair nohold 1e-6", 16.0),
    ("steps pair nohold 1e-8", 28.0),
    ("steps pair safe 1e-3", 12.0),
    ("steps pair safe 1e-4", 15.0),
    ("steps pair safe 1e-6", 25.0),
    ("steps pair safe 1e-8", 48.0),
    ("steps pr classic 1e-3", 13.0),
    ("steps pr classic 1e-4", 23.0),
    ("steps pr classic 1e-6", 19.0),
    ("steps pr classic 1e-8", 31.0),
    ("steps pr default 1e-3", 14.0),
    ("steps pr default 1e-4", 23.0),
    ("steps pr default 1e-6", 19.0),
    ("steps pr default 1e-8", 31.0),
    ("steps pr fac 1e-3", 22.0),
    ("steps pr fac 1e-4", 24.0),
    ("steps pr fac 1e-6", 29.0),
    ("steps pr fac 1e-8", 41.0),
    ("steps pr fdjac 1e-3", 14.0),
    ("steps pr fdjac 1e-4", 23.0),
    ("steps pr fdjac 1e-6", 19.0),
    ("steps pr fdjac 1e-8", 31.0),
    ("steps pr fnewt 1e-3", 14.0),
    ("steps pr fnewt 1e-4", 26.0),
    ("steps pr fnewt 1e-6", 18.0),
    ("steps pr fnewt 1e-8", 31.0),
    ("steps pr hold 1e-3", 12.0),
    ("steps pr hold 1e-4", 23.0),
    ("steps pr hold 1e-6", 36.0),
    ("steps pr hold 1e-8", 64.0),
    ("steps pr newt10 1e-3", 19.0),
    ("steps pr newt10 1e-4", 20.0),
    ("steps pr newt10 1e-6", 30.0),
    ("steps pr newt10 1e-8", 31.0),
    ("steps pr newt3 1e-3", 13.0),
    ("steps pr newt3 1e-4", 16.0),
    ("steps pr newt3 1e-6", 19.0),
    ("steps pr newt3 1e-8", 32.0),
    ("steps pr noext 1e-3", 14.0),
    ("steps pr noext 1e-4", 26.0),
    ("steps pr noext 1e-6", 19.0),
    ("steps pr noext 1e-8", 31.0),
    ("steps pr nohold 1e-3", 14.0),
    ("steps pr nohold 1e-4", 23.0),
    ("steps pr nohold 1e-6", 18.0),
    ("steps pr nohold 1e-8", 30.0),
    ("steps pr safe 1e-3", 13.0),
    ("steps pr safe 1e-4", 17.0),
    ("steps pr safe 1e-6", 27.0),
    ("steps pr safe 1e-8", 48.0),
    ("steps pr3 classic 1e-3", 10.0),
    ("steps pr3 classic 1e-4", 13.0),
    ("steps pr3 classic 1e-6", 16.0),
    ("steps pr3 classic 1e-8", 24.0),
    ("steps pr3 default 1e-3", 10.0),
    ("steps pr3 default 1e-4", 13.0),
    ("steps pr3 default 1e-6", 16.0),
    ("steps pr3 default 1e-8", 24.0),
    ("steps pr3 fac 1e-3", 22.0),
    ("steps pr3 fac 1e-4", 22.0),
    ("steps pr3 fac 1e-6", 26.0),
    ("steps pr3 fac 1e-8", 32.0),
    ("steps pr3 fdjac 1e-3", 10.0),
    ("steps pr3 fdjac 1e-4", 13.0),
    ("steps pr3 fdjac 1e-6", 16.0),
    ("steps pr3 fdjac 1e-8", 24.0),
    ("steps pr3 fnewt 1e-3", 16.0),
    ("steps pr3 fnewt 1e-4", 19.0),
    ("steps pr3 fnewt 1e-6", 24.0),
    ("steps pr3 fnewt 1e-8", 36.0),
    ("steps pr3 hold 1e-3", 10.0),
    ("steps pr3 hold 1e-4", 13.0),
    ("steps pr3 hold 1e-6", 16.0),
    ("steps pr3 hold 1e-8", 24.0),
    ("steps pr3 newt10 1e-3", 10.0),
    ("steps pr3 newt10 1e-4", 10.0),
    ("steps pr3 newt10 1e-6", 15.0),
    ("steps pr3 newt10 1e-8", 17.0),
    ("steps pr3 newt3 1e-3", 13.0),
    ("steps pr3 newt3 1e-4", 17.0),
    ("steps pr3 newt3 1e-6", 34.0),
    ("steps pr3 newt3 1e-8", 73.0),
    ("steps pr3 noext 1e-3", 15.0),
    ("steps pr3 noext 1e-4", 18.0),
    ("steps pr3 noext 1e-6", 32.0),
    ("steps pr3 noext 1e-8", 64.0),
    ("steps pr3 nohold 1e-3", 10.0),
    ("steps pr3 nohold 1e-4", 13.0),
    ("steps pr3 nohold 1e-6", 16.0),
    ("steps pr3 nohold 1e-8", 24.0),
    ("steps pr3 safe 1e-3", 10.0),
    ("steps pr3 safe 1e-4", 14.0),
    ("steps pr3 safe 1e-6", 16.0),
    ("steps pr3 safe 1e-8", 27.0),
    ("steps triple classic 1e-3", 13.0),
    ("steps triple classic 1e-4", 14.0),
    ("steps triple classic 1e-6", 19.0),
    ("steps triple classic 1e-8", 33.0),
    ("steps triple default 1e-3", 13.0),
    ("steps triple default 1e-4", 14.0),
    ("steps triple default 1e-6", 19.0),
    ("steps triple default 1e-8", 33.0),
    ("steps triple fac 1e-3", 22.0),
    ("steps triple fac 1e-4", 23.0),
    ("steps triple fac 1e-6", 29.0),
    ("steps triple fac 1e-8", 43.0),
    ("steps triple fdjac 1e-3", 13.0),
    ("steps triple fdjac 1e-4", 14.0),
    ("steps triple fdjac 1e-6", 19.0),
    ("steps triple fdjac 1e-8", 33.0),
    ("steps triple fnewt 1e-3", 11.0),
    ("steps triple fnewt 1e-4", 14.0),
    ("steps triple fnewt 1e-6", 20.0),
    ("steps triple fnewt 1e-8", 33.0),
    ("steps triple hold 1e-3", 14.0),
    ("steps triple hold 1e-4", 15.0),
    ("steps triple hold 1e-6", 41.0),
    ("steps triple hold 1e-8", 66.0),
    ("steps triple newt10 1e-3", 13.0),
    ("steps triple newt10 1e-4", 15.0),
    ("steps triple newt10 1e-6", 19.0),
    ("steps triple newt10 1e-8", 32.0),
    ("steps triple newt3 1e-3", 13.0),
    ("steps triple newt3 1e-4", 14.0),
    ("steps triple newt3 1e-6", 19.0),
    ("steps triple newt3 1e-8", 34.0),
    ("steps triple noext 1e-3", 13.0),
    ("steps triple noext 1e-4", 14.0),
    ("steps triple noext 1e-6", 19.0),
    ("steps triple noext 1e-8", 33.0),
    ("steps triple nohold 1e-3", 13.0),
    ("steps triple nohold 1e-4", 14.0),
    ("steps triple nohold 1e-6", 19.0),
    ("steps triple nohold 1e-8", 31.0),
    ("steps triple safe 1e-3", 15.0),
    ("steps triple safe 1e-4", 18.0),
    ("steps triple safe 1e-6", 26.0),
    ("steps triple safe 1e-8", 51.0),
    ("steps vdp classic 1e-3", 375.0),
    ("steps vdp classic 1e-4", 427.0),
    ("steps vdp classic 1e-6", 696.0),
    ("steps vdp classic 1e-8", 1500.0),
    ("steps vdp default 1e-3", 312.0),
    ("steps vdp default 1e-4", 394.0),
    ("steps vdp default 1e-6", 697.0),
    ("steps vdp default 1e-8", 1505.0),
    ("steps vdp fac 1e-3", 354.0),
    ("steps vdp fac 1e-4", 435.0),
    ("steps vdp fac 1e-6", 743.0),
    ("steps vdp fac 1e-8", 1550.0),
    ("steps vdp fdjac 1e-3", 313.0),
    ("steps vdp fdjac 1e-4", 394.0),
    ("steps vdp fdjac 1e-6", 699.0),
    ("steps vdp fdjac 1e-8", 1502.0),
    ("steps vdp fnewt 1e-3", 440.0),
    ("steps vdp fnewt 1e-4", 541.0),
    ("steps vdp fnewt 1e-6", 856.0),
    ("steps vdp fnewt 1e-8", 1534.0),
    ("steps vdp hold 1e-3", 329.0),
    ("steps vdp hold 1e-4", 411.0),
    ("steps vdp hold 1e-6", 742.0),
    ("steps vdp hold 1e-8", 1570.0),
    ("steps vdp newt10 1e-3", 256.0),
    ("steps vdp newt10 1e-4", 346.0),
    ("steps vdp newt10 1e-6", 694.0),
    ("steps vdp newt10 1e-8", 1472.0),
    ("steps vdp newt3 1e-3", 432.0),
    ("steps vdp newt3 1e-4", 638.0),
    ("steps vdp newt3 1e-6", 1250.0),
    ("steps vdp newt3 1e-8", 2422.0),
    ("steps vdp noext 1e-3", 344.0),
    ("steps vdp noext 1e-4", 458.0),
    ("steps vdp noext 1e-6", 815.0),
    ("steps vdp noext 1e-8", 1629.0),
    ("steps vdp nohold 1e-3", 312.0),
    ("steps vdp nohold 1e-4", 392.0),
    ("steps vdp nohold 1e-6", 697.0),
    ("steps vdp nohold 1e-8", 1497.0),
    ("steps vdp safe 1e-3", 401.0),
    ("steps vdp safe 1e-4", 565.0),
    ("steps vdp safe 1e-6", 1211.0),
    ("steps vdp safe 1e-8", 2677.0),
];
