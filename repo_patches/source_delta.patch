From 150f706a557e0e7b2711b6fe2de243cf27d1d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 1/9] fix: cuckoo: enforce strictly ascending edges in cuckoo
 and cuckaroo proofs

---
 cuckoo/cuckaroo.go | 2 +-
 cuckoo/cuckoo.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From 918f0b2cbaa6c35888bf43a14a5f5c80056c6ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 2/9] fix: gen-lookup: emit the last partial row so size tables
 cover every epoch

---
 cmd/gen-lookup/main.go    | 4 ++--
 ethash/ethash_lookup.go   | 2 ++
 firopow/firopow_lookup.go | 2 ++
 kawpow/kawpow_lookup.go   | 2 ++
 octopus/octopus_lookup.go | 2 ++
 5 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/gen-lookup/main.go b/cmd/gen-lookup/main.go
index 39035a5..b7f873e 100644
--- a/cmd/gen-lookup/main.go
+++ b/cmd/gen-lookup/main.go
@@ -47,7 +47,7 @@ func genDatasetLookupTable(mixBytes, initBytes, growthBytes uint64, epochs int)
 }
 
 func formatLookupTable(lookupTable []uint64, rowSize int) string {
-	rows := len(lookupTable) / rowSize
+	rows := (len(lookupTable) + rowSize - 1) / rowSize
 
 	var formatted string
 	for i := 0; i < rows; i++ {
@@ -59,7 +59,7 @@ func formatLookupTable(lookupTable []uint64, rowSize int) string {
 			}
 
 			row += fmt.Sprintf("%d,", lookupTable[index])
-			if j < rowSize-1 {
+			if j < rowSize-1 && index < len(lookupTable)-1 {
 				row += " "
 			}
 		}
diff --git a/ethash/ethash_lookup.go b/ethash/ethash_lookup.go
index 30722e3..5adcf20 100644
--- a/ethash/ethash_lookup.go
+++ b/ethash/ethash_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/firopow/firopow_lookup.go b/firopow/firopow_lookup.go
index 90af954..bcad4f7 100644
--- a/firopow/firopow_lookup.go
+++ b/firopow/firopow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18639486848, 18647874688, 18656262784, 18664651648, 18673037696,
 	18681429376, 18689814656, 18698201728, 18706594688, 18714980224,
 	18723370112, 18731761024, 18740150144, 18748538752, 18756927104,
+	18765314944, 18773701504, 18782091392,
 }
diff --git a/kawpow/kawpow_lookup.go b/kawpow/kawpow_lookup.go
index 00e4e58..ec90e03 100644
--- a/kawpow/kawpow_lookup.go
+++ b/kawpow/kawpow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/octopus/octopus_lookup.go b/octopus/octopus_lookup.go
index ea6d295..38f6bfa 100644
--- a/octopus/octopus_lookup.go
+++ b/octopus/octopus_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	149814976, 149880128, 149943616, 150010688, 150076352,
 	150142144, 150208064, 150272704, 150338624, 150404416,
 	150470464, 150535232, 150600256, 150666688, 150732224,
+	150798016, 150862784, 150927808,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	38352710912, 38369479424, 38386267904, 38403044096, 38419820288,
 	38436601088, 38453377792, 38470155008, 38486933248, 38503693568,
 	38520487168, 38537264384, 38554037504, 38570818304, 38587595008,
+	38604372736, 38621145344, 38637924608,
 }
-- 
2.43.0


From a7f08a29b848e62a47f75f5d597db5f462812acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 3/9] fix: ethash: set MixBytes for Ethereum Classic

---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From 865b0d8db0be1d4c0b3ad83b23e30539b81390a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 4/9] fix: autolykos2: hash the sum as a fixed 32-byte integer

---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 89d284e..8c0e8d4 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -84,7 +84,7 @@ func compute(k, nBase uint32, msg []byte, nonce, height uint64) []byte {
 		f2.Add(f2, new(big.Int).SetBytes(elemHash))
 	}
 
-	ha := crypto.Blake2b256(f2.Bytes())
+	ha := crypto.Blake2b256(f2.FillBytes(make([]byte, 32)))
 
 	return ha
 }
-- 
2.43.0


From 32865ef770953acd59f0d470a8482273576ff2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 5/9] fix: autolykos2: cap the height, not the table size, past
 the last increase

---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 8c0e8d4..dbd30c3 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -33,7 +33,7 @@ func generateM(size uint64) []byte {
 
 func calcN(nBase uint32, height uint64) uint32 {
 	if height > nIncreasementHeightMax {
-		return 2143944600
+		height = nIncreasementHeightMax
 	}
 
 	var n uint32 = nBase
-- 
2.43.0


From 572df4d1de914b8f2ba3aa1d2c273cbfb35178c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 6/9] fix: equihash: keep all pending bits when expanding 27 to
 31 bit elements

---
 equihash/equihash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 656a1db..507f5c7 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -54,9 +54,10 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 	output := make([]byte, outputLen)
 	var bitLenMask uint32 = (1 << bitLen) - 1
 
-	var accBits, accValue, j uint32
+	var accBits, j uint32
+	var accValue uint64 // a pending value of up to 31 bits plus a full byte
 	for i := range input {
-		accValue = (accValue << 8) | uint32(input[i])
+		accValue = (accValue << 8) | uint64(input[i])
 		accBits += 8
 
 		if accBits >= bitLen {
@@ -64,7 +65,7 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 			for x := bytePad; x < outputWidth; x++ {
 				p1 := accValue >> (accBits + (8 * (outputWidth - x - 1)))
 				p2 := (bitLenMask >> (8 * (outputWidth - x - 1))) & 0xFF
-				output[j+x] = uint8(p1 & p2)
+				output[j+x] = uint8(uint32(p1) & p2)
 			}
 
 			j += outputWidth
-- 
2.43.0


From 336f67a58af8dc15613ebec089efa729d3278ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 7/9] fix: dag: reject cache files whose length does not match
 the epoch

---
 internal/dag/cache.go |  4 ++--
 internal/dag/mmap.go  | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..0d785c0 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -67,12 +67,12 @@ func (c *cache) generate(cfg *DAG) {
 
 		// Try to load the file from disk and memory map it
 		var err error
-		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		c.cache, err = memoryMap(cachePath, size, cfg.CachesLockMmap)
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
-			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			c.l1, err = memoryMap(l1Path, cfg.L1CacheSize, cfg.CachesLockMmap)
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..20f2637 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,8 +38,9 @@ type dataFile struct {
 	data []uint32
 }
 
-// memoryMap tries to memory map a file of uint32s for read only access.
-func memoryMap(path string, lock bool) (dataFile, error) {
+// memoryMap tries to memory map a file of uint32s for read only access. The file
+// must hold the dump magic followed by exactly size bytes of data.
+func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
@@ -53,6 +54,12 @@ func memoryMap(path string, lock bool) (dataFile, error) {
 		return df, err
 	}
 
+	if uint64(len(mem)) != uint64(len(dumpMagic))*4+size {
+		mem.Unmap()
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	for i, magic := range dumpMagic {
 		if buffer[i] != magic {
 			mem.Unmap()
@@ -160,5 +167,5 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	return memoryMap(path, lock)
+	return memoryMap(path, size, lock)
 }
-- 
2.43.0


From 3394e5a2fb160b60ae2f70b441e730052a226a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 8/9] fix: equihash: expand elements whose padded length
 happens to equal the input's

---
 equihash/equihash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 507f5c7..ebca1da 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -47,7 +47,8 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 	outputWidth := (bitLen+7)/8 + bytePad
 	outputLen := 8 * outputWidth * inputLen / bitLen
 
-	if outputLen == inputLen {
+	// whole, unpadded bytes expand to themselves
+	if bytePad == 0 && bitLen%8 == 0 {
 		return input, nil
 	}
 
-- 
2.43.0


From 4a2d81d882d3e264b2bb911e5916753f183b2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 9/9] fix: heavyhash: refuse the all-zero hash instead of
 looping forever

---
 heavyhash/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heavyhash/client.go b/heavyhash/client.go
index d9643b9..c913545 100644
--- a/heavyhash/client.go
+++ b/heavyhash/client.go
@@ -1,6 +1,7 @@
 package heavyhash
 
 import (
+	"bytes"
 	"fmt"
 )
 
@@ -19,6 +20,9 @@ func NewKaspa() *Client {
 func (c *Client) Compute(hash []byte, timestamp int64, nonce uint64) ([]byte, error) {
 	if len(hash) != 32 {
 		return nil, fmt.Errorf("hash must be 32 bytes")
+	} else if bytes.Equal(hash, make([]byte, 32)) {
+		// the matrix generator never leaves the all-zero state
+		return nil, fmt.Errorf("hash must not be zero")
 	}
 
 	digest := heavyHash(hash, timestamp, nonce)
-- 
2.43.0

