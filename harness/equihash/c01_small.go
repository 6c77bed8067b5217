package equihash

// Verif_C01_k3 n=32, k=3: every 8-index solution, 140-byte header, hash an arbitrary function.
func Verif_C01_k3() { checkVerify(32, 3, "ZcashPoW", false, 140) }

// Verif_C01_k3b n=96, k=3: 24-bit segments, 5 indices per hash.
func Verif_C01_k3b() { checkVerify(96, 3, "ZcashPoW", false, 140) }

// Verif_C01_k3c n=60, k=3: 15-bit segments in a leaf hash that is not a whole number of bytes.
func Verif_C01_k3c() { checkVerify(60, 3, "ZcashPoW", false, 140) }

// Verif_C01_k4 n=125, k=4 without the twist (25-bit segments).
func Verif_C01_k4() { checkVerify(125, 4, "ZelProof", false, 140) }

// Verif_C01_k5 n=144, k=5.
//
//verif:thorough
func Verif_C01_k5() { checkVerify(144, 5, "BgoldPoW", false, 140) }

// Verif_C01_k7 n=192, k=7.
//
//verif:thorough
func Verif_C01_k7() { checkVerify(192, 7, "BgoldPoW", false, 140) }
