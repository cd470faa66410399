From 54b1ed59acfc6f9e15b829d5f8dbb413b3bfc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 01/31] fix: do not shift out the WOTS+ checksum when its
 digits fill whole bytes

For w=256 (any n) and for w=4, n=16 the digits of the checksum take a multiple
of eight bits and the checksum was shifted by eight bits too many, which lost
its most significant byte (for w=4, n=16: all of it).  One-time signatures could
be extended to other digests.
---
 wots.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..c386a1c 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,9 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	// Align the checksum to the left of its bytes.  Nothing is to be shifted
+	// if the digits of the checksum already fill up whole bytes.
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From 6be9f1f603cf16b0335c5f88125c818c27060b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 02/31] fix: use the fourway hashes for the RFC's PRFs only

The fourway SHAKE code has the n-byte domain separator of RFC 8391 built in, but
was also used for SHAKE instances with n=16,32 and the NIST construction (4-byte
separator).  Their keys and signatures differed between machines with and
without AVX2, and were not what the instance prescribes.
---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..ce158e5 100644
--- a/api.go
+++ b/api.go
@@ -692,7 +692,9 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway hashes are only implemented for the prefixes of the RFC.
+	if ctx.p.Func == SHAKE && ctx.p.Prf == RFC &&
+		(ctx.p.N == 32 || ctx.p.N == 16) {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From dd8af40880e6802e38315aa59975405b1047a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 03/31] fix: refuse to verify a signature of another instance

VerifyFrom() used the parameters of the public key only.  A signature of
another instance made it crash (different sizes), or was accepted in spite of
an altered parameter prefix (same sizes).
---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index ce158e5..5c5b633 100644
--- a/api.go
+++ b/api.go
@@ -197,6 +197,12 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf(
+			"Signature (%s) and public key (%s) are of different instances",
+			sig.ctx.p, pk.ctx.p)
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
-- 
2.43.0


From 9386eaf2465a4de8da326f6af09f135ae4cb4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 04/31] fix: refuse truncated signatures and public keys

UnmarshalBinary() of Signature and PublicKey (and hence Verify() and
UnmarshalText()) crashed on an input that is too short.
---
 api.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/api.go b/api.go
index 5c5b633..c09ddfd 100644
--- a/api.go
+++ b/api.go
@@ -279,6 +279,9 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short: %d bytes", len(buf))
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
@@ -287,6 +290,10 @@ func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) < int(4+sig.ctx.sigBytes) {
+		return errorf("Signature is too short: %d bytes instead of %d",
+			len(buf), 4+sig.ctx.sigBytes)
+	}
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -376,6 +383,9 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short: %d bytes", len(buf))
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
@@ -384,6 +394,10 @@ func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) < int(4+pk.ctx.pkBytes) {
+		return errorf("Public key is too short: %d bytes instead of %d",
+			len(buf), 4+pk.ctx.pkBytes)
+	}
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
-- 
2.43.0


From 44afd81ed013431dfbc0bd41954afad25aedb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 05/31] fix: refuse unknown hash functions and PRFs, and N=0

Compressed parameters with the unassigned hash function 3 were decoded, though
they can't be encoded again; an instance of them crashed on first use.  N=0 was
encoded into garbage.
---
 api.go    | 10 ++++++++++
 params.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/api.go b/api.go
index c09ddfd..5b6b940 100644
--- a/api.go
+++ b/api.go
@@ -677,6 +677,16 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("Only N=16,24,32,64 are supported")
 	}
 
+	switch params.Func {
+	case SHA2, SHAKE, SHAKE256:
+	default:
+		return nil, errorf("Unknown hash function: %d", uint8(params.Func))
+	}
+
+	if params.Prf != RFC && params.Prf != NIST {
+		return nil, errorf("Unknown PRF construction: %d", uint8(params.Prf))
+	}
+
 	if params.D == 0 {
 		return nil, errorf("D can't be zero")
 	}
diff --git a/params.go b/params.go
index f3e9ea5..2702fdb 100644
--- a/params.go
+++ b/params.go
@@ -196,6 +196,9 @@ func (params *Params) WriteInto(buf []byte) error {
 	if params.N%8 != 0 {
 		return errorf("N is not divisable by 8")
 	}
+	if params.N == 0 {
+		return errorf("N can't be zero")
+	}
 	if params.N > 128 {
 		return errorf("N is too large")
 	}
@@ -271,6 +274,9 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	}
 	params.N = (comprN + 1) * 8
 	params.Func = HashFunc((val >> 14) & ((1 << 2) - 1))
+	if params.Func > SHAKE256 {
+		return errorf("Unsupported hash function in compressed parameters")
+	}
 	params.FullHeight = (val >> 6) & ((1 << 6) - 1)
 	params.D = val & ((1 << 6) - 1)
 	return nil
-- 
2.43.0


From 364e2262b21b2dae7bc35b1f90d982bd8474789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 06/31] fix: looking up the name of an instance is not a data
 race any more

Name(), Oid(), FromRFC() and FromNIST() stored what they found in the Context,
which is shared between goroutines that sign and verify.
---
 params.go | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/params.go b/params.go
index 2702fdb..976ba72 100644
--- a/params.go
+++ b/params.go
@@ -550,57 +550,50 @@ func (params *Params) LookupNameAndOid() (string, uint32) {
 	return "", 0
 }
 
-// Looks up the name and oid of this set of parameters and returns whether
-// any were found.
-func (ctx *Context) ensureNameAndOidAreSet() bool {
+// Returns the name and oid of this set of parameters, if it has them.
+//
+// NOTE A Context may be used concurrently, so we can't cache the result in it.
+func (ctx *Context) nameAndOid() (string, uint32) {
 	if ctx.name != nil {
-		return true
-	}
-	var name2 string
-	name2, ctx.oid = ctx.p.LookupNameAndOid()
-	if name2 != "" {
-		ctx.name = &name2
-		return true
+		return *ctx.name, ctx.oid
 	}
-	return false
+	return ctx.p.LookupNameAndOid()
 }
 
 // Returns the name of the XMSSMT instance and an empty string if it has
 // no name.
 func (ctx *Context) Name() string {
-	if ctx.ensureNameAndOidAreSet() {
-		return *ctx.name
-	}
-	return ""
+	name, _ := ctx.nameAndOid()
+	return name
 }
 
 // Returns the Oid of the XMSSMT instance and 0 if it has no Oid.
 func (ctx *Context) Oid() uint32 {
-	ctx.ensureNameAndOidAreSet()
-	return ctx.oid
+	_, oid := ctx.nameAndOid()
+	return oid
 }
 
 // Returns whether this XMSS[MT] instance is listed in the NIST Special
 // Publication.
 func (ctx *Context) FromNIST() bool {
-	ctx.ensureNameAndOidAreSet()
+	oid := ctx.Oid()
 	if ctx.mt {
-		return ctx.oid >= 0x21 && ctx.oid <= 0x38
+		return oid >= 0x21 && oid <= 0x38
 	}
-	return ctx.oid >= 0xd && ctx.oid <= 0x15
+	return oid >= 0xd && oid <= 0x15
 }
 
 // Returns whether this XMSS[MT] instance is listed in the RFC (and thus should
 // also be supported by other implementations).
 func (ctx *Context) FromRFC() bool {
-	ctx.ensureNameAndOidAreSet()
-	if ctx.oid == 0 {
+	oid := ctx.Oid()
+	if oid == 0 {
 		return false
 	}
 	if ctx.mt {
-		return ctx.oid <= 0x20
+		return oid <= 0x20
 	}
-	return ctx.oid <= 0xc
+	return oid <= 0xc
 }
 
 // Returns whether this is an XMSSMT instance (as opposed to XMSS)
-- 
2.43.0


From 31e2c599ccfe89ffc89c7d939599e488aa6191ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 07/31] fix: do not sign beyond the last signature

getSeqNo() compared for equality only: with an index set beyond the maximum
(DangerousSetSeqNo) signatures with a non-existing index were created.
---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index bd607cf..d41971f 100644
--- a/core.go
+++ b/core.go
@@ -416,7 +416,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From 27a4259fa6a43428b4924c9fd9db520e4be81d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 08/31] fix: retire signature sequence numbers beyond 2^32 as
 well

The queue of retired sequence numbers kept their lower 32 bits and was ordered
by these.  If signatures around a multiple of 2^32 finished out of order,
the queue got stuck and no subtree was dropped from the cache any more.
---
 api.go  | 11 ++++-------
 core.go | 15 +++++++--------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/api.go b/api.go
index 5b6b940..2893ff7 100644
--- a/api.go
+++ b/api.go
@@ -6,7 +6,6 @@ package xmssmt
 
 import (
 	"bytes"
-	"container/heap"
 	"crypto/rand"
 	"crypto/subtle"
 	"encoding/base64"
@@ -70,9 +69,9 @@ type PrivateKey struct {
 	// by a Sign() operation.
 	leastSeqNoInUse SignatureSeqNo
 
-	// Heap of retired seqNo's larger than lesatSeqNoInUse.
+	// Set of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos map[SignatureSeqNo]struct{}
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -832,7 +831,7 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	return uint32(sk.seqNo) - uint32(sk.leastSeqNoInUse) -
-		uint32(sk.retiredSeqNos.Len())
+		uint32(len(sk.retiredSeqNos))
 }
 
 // Returns the number of subtrees that are cached
@@ -851,9 +850,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
-	sk.retiredSeqNos = &emptyHeap
-	heap.Init(sk.retiredSeqNos)
+	sk.retiredSeqNos = make(map[SignatureSeqNo]struct{})
 	sk.leastSeqNoInUse = seqNo
 }
 
diff --git a/core.go b/core.go
index d41971f..c7512f2 100644
--- a/core.go
+++ b/core.go
@@ -5,7 +5,6 @@ package xmssmt
 import (
 	"github.com/cespare/xxhash"
 
-	"container/heap"
 	"encoding/binary"
 	"runtime"
 	"sync"
@@ -519,9 +518,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
-	ret.retiredSeqNos = &emptyHeap
-	heap.Init(ret.retiredSeqNos)
+	ret.retiredSeqNos = make(map[SignatureSeqNo]struct{})
 	ret.leastSeqNoInUse = seqNo
 
 	// Register the cached subtrees
@@ -552,16 +549,18 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		sk.retiredSeqNos[seqNo] = struct{}{}
 		return
 	}
 
 	// We have sk.leastSeqNoInUse == seqNo.  Check if we can increment
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
-	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
-		heap.Pop(sk.retiredSeqNos)
+	for {
+		if _, ok := sk.retiredSeqNos[sk.leastSeqNoInUse]; !ok {
+			break
+		}
+		delete(sk.retiredSeqNos, sk.leastSeqNoInUse)
 		sk.incLeastSeqNoInUse()
 	}
 }
-- 
2.43.0


From dfd43bc192f550e3a0d8fc81a18dee6383a79d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 09/31] fix: SeqNo(), BorrowedSeqNos() and CachedSubTrees()
 take the lock

They read fields which concurrent Sign()s change: a data race, and for the map
behind CachedSubTrees() possibly a crash.
---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index 2893ff7..44d08d6 100644
--- a/api.go
+++ b/api.go
@@ -525,6 +525,8 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -836,6 +838,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -856,6 +860,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From bbfd1bc80b2f40351ba145f3ef9c3a40821582bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 10/31] fix: keep copies of the caller's seeds

The private key and the filesystem container kept using the slices passed in by
the caller and handed out their own.  Wiping or reusing such a buffer silently
changed the key: its signatures didn't verify any more.
---
 container.go | 7 ++++---
 core.go      | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/container.go b/container.go
index a878742..af613f7 100644
--- a/container.go
+++ b/container.go
@@ -308,7 +308,8 @@ func (ctr *fsContainer) Initialized() *Params {
 	if !ctr.initialized {
 		return nil
 	}
-	return &ctr.params
+	params := ctr.params
+	return &params
 }
 
 func (ctr *fsContainer) ResetCache() Error {
@@ -545,7 +546,7 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	closeCacheErr := ctr.closeCache()
 
 	ctr.params = params
-	ctr.privateKey = privateKey
+	ctr.privateKey = append([]byte(nil), privateKey...)
 	ctr.seqNo = 0
 	ctr.borrowed = 0
 	ctr.cacheInitialized = false
@@ -689,7 +690,7 @@ func (ctr *fsContainer) GetPrivateKey() ([]byte, Error) {
 	if !ctr.initialized {
 		return nil, errorf("Container is not initialized")
 	}
-	return ctr.privateKey, nil
+	return append([]byte(nil), ctr.privateKey...), nil
 }
 
 func (ctr *fsContainer) closeCache() (err error) {
diff --git a/core.go b/core.go
index c7512f2..d72ec15 100644
--- a/core.go
+++ b/core.go
@@ -504,6 +504,11 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 			"Signature sequence number is too large: %d > %d",
 			seqNo, ctx.p.MaxSignatureSeqNo())
 	}
+	// The caller (or container) might reuse its buffers.
+	pubSeed = append([]byte(nil), pubSeed...)
+	skSeed = append([]byte(nil), skSeed...)
+	skPrf = append([]byte(nil), skPrf...)
+
 	ret := PrivateKey{
 		ctx:     ctx,
 		skSeed:  skSeed,
-- 
2.43.0


From 6509de64867dd2e18f2baeaf005ac7114dda1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 11/31] fix: do not precompute subtrees beyond the last
 signature

They would be stored in the cache, and never be dropped.
---
 api.go  | 16 ++--------------
 core.go | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/api.go b/api.go
index 44d08d6..85efdc4 100644
--- a/api.go
+++ b/api.go
@@ -877,21 +877,9 @@ func (sk *PrivateKey) SeqNo() SignatureSeqNo {
 // of the Sign() function.
 func (sk *PrivateKey) EnableSubTreePrecomputation() {
 	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	sk.precomputeNextSubTree = true
 
 	// ensure the next subtree is computed
-	nextSta := SubTreeAddress{
-		Layer: 0,
-		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-	}
-	_, nextTreeExists := sk.subTreeReady[nextSta]
-	sk.mux.Unlock()
-
-	if !nextTreeExists {
-		sk.wg.Add(1)
-		go func() {
-			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
-			sk.wg.Done()
-		}()
-	}
+	sk.startPrecomputingNextSubTree()
 }
diff --git a/core.go b/core.go
index d72ec15..2e453c2 100644
--- a/core.go
+++ b/core.go
@@ -437,21 +437,40 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	// Check if we need to precompute a subtree
 	if sk.precomputeNextSubTree &&
 		(uint64(sk.seqNo)&((1<<sk.ctx.treeHeight)-1) == 0) {
-		sk.wg.Add(1)
-		go func(sta SubTreeAddress) {
-			log.Logf("Precomputing subtree %v", sta)
-			sk.getSubTree(sk.ctx.newScratchPad(), sta)
-			log.Logf("Finished precomputing subtree %v", sta)
-			sk.wg.Done()
-		}(SubTreeAddress{
-			Layer: 0,
-			Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-		})
+		sk.startPrecomputingNextSubTree()
 	}
 
 	return sk.seqNo - 1, nil
 }
 
+// Starts computing the bottom subtree after the current one in the background
+// --- if there is such a subtree.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) startPrecomputingNextSubTree() {
+	sta := SubTreeAddress{
+		Layer: 0,
+		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
+	}
+
+	// There are no subtrees beyond that of the last signature.
+	if sta.Tree > sk.ctx.p.MaxSignatureSeqNo()>>sk.ctx.treeHeight {
+		return
+	}
+
+	if _, exists := sk.subTreeReady[sta]; exists {
+		return
+	}
+
+	sk.wg.Add(1)
+	go func() {
+		defer sk.wg.Done()
+		log.Logf("Precomputing subtree %v", sta)
+		sk.getSubTree(sk.ctx.newScratchPad(), sta)
+		log.Logf("Finished precomputing subtree %v", sta)
+	}()
+}
+
 func (pad scratchPad) fBuf() []byte {
 	return pad.buf[:3*pad.n]
 }
-- 
2.43.0


From ee5efed9bcbe6021102f31345fcb76b21ae4b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 12/31] fix: drop precomputed subtrees which were used up
 before they were finished

The goroutine that precomputes a subtree might be scheduled after all
signatures of that subtree have been used: then the subtree was generated
again, and never dropped.  Conversely the subtree could be dropped (and its
memory unmapped) while it was still being filled.
---
 core.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/core.go b/core.go
index 2e453c2..366e314 100644
--- a/core.go
+++ b/core.go
@@ -468,6 +468,18 @@ func (sk *PrivateKey) startPrecomputingNextSubTree() {
 		log.Logf("Precomputing subtree %v", sta)
 		sk.getSubTree(sk.ctx.newScratchPad(), sta)
 		log.Logf("Finished precomputing subtree %v", sta)
+
+		// In the meantime the signatures of the subtree might have been
+		// used up, so that nobody will drop it (or its ancestors) anymore.
+		sk.mux.Lock()
+		defer sk.mux.Unlock()
+		for ; sta.Layer < sk.ctx.p.D; sta.Layer++ {
+			least := uint64(sk.leastSeqNoInUse) >> (sk.ctx.treeHeight * (sta.Layer + 1))
+			if sta.Tree < least {
+				sk.dropSubTree(sta)
+			}
+			sta.Tree >>= sk.ctx.treeHeight
+		}
 	}()
 }
 
@@ -603,16 +615,28 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 			break
 		}
 
-		staToDrop := SubTreeAddress{
+		sk.dropSubTree(SubTreeAddress{
 			Layer: sta.Layer,
 			Tree:  sta.Tree - 1,
-		}
-		log.Logf("Dropping cached subtree %v ...", staToDrop)
-		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
-			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-		} else {
-			delete(sk.subTreeReady, staToDrop)
-			delete(sk.subTreeChecked, staToDrop)
-		}
+		})
+	}
+}
+
+// Drops the given subtree from the cache.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
+	if ready, exists := sk.subTreeReady[sta]; exists && !ready {
+		// The subtree is being filled in the background.  It will be dropped
+		// when that's done, see startPrecomputingNextSubTree().
+		return
+	}
+
+	log.Logf("Dropping cached subtree %v ...", sta)
+	if err := sk.ctr.DropSubTree(sta); err != nil {
+		log.Logf("  failed to drop subtree %v: %v", sta, err)
+	} else {
+		delete(sk.subTreeReady, sta)
+		delete(sk.subTreeChecked, sta)
 	}
 }
-- 
2.43.0


From 409df55e785a89f155ef347a864d2f5b334f7a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 13/31] fix: Close() waits for the background workers before
 closing the container

It waited for them while holding the lock they need, and after unmapping
the buffers they write to.  Also refuse to use a closed private key.
---
 api.go  | 32 +++++++++++++++++++++++---------
 core.go |  8 ++++++++
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/api.go b/api.go
index 85efdc4..89cd7e8 100644
--- a/api.go
+++ b/api.go
@@ -86,6 +86,9 @@ type PrivateKey struct {
 
 	// If true, will precompute a subtree in advance
 	precomputeNextSubTree bool
+
+	// Set by Close()
+	closed bool
 }
 
 // XMSS[MT] public key
@@ -500,6 +503,10 @@ func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 
 // Implementation of BorrowExactly.  Requires sk.mux lock.
 func (sk *PrivateKey) borrowExactly(amount uint32) Error {
+	if sk.closed {
+		return errorf("Private key is closed")
+	}
+
 	if sk.borrowed == amount {
 		return nil
 	}
@@ -601,23 +608,30 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	sk.mux.Lock()
+	if sk.closed {
+		sk.mux.Unlock()
+		return errorf("Private key is already closed")
+	}
+	sk.closed = true
+	sk.mux.Unlock()
+
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  It uses the container
+	// (and the lock), so wait for it first.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
-		sk.borrowed = 0
 		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
+			sk.closed = false // so that it can be tried again
 			return err
 		}
+		sk.borrowed = 0
 	}
-	err := sk.ctr.Close()
-	sk.cond.Broadcast()
-
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
-	return err
+	return sk.ctr.Close()
 }
 
 // Return new context for the given XMSS[MT] oid (and nil if it's unknown).
diff --git a/core.go b/core.go
index 366e314..3231e44 100644
--- a/core.go
+++ b/core.go
@@ -415,6 +415,10 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
+	if sk.closed {
+		return 0, errorf("Private key is closed")
+	}
+
 	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
@@ -453,6 +457,10 @@ func (sk *PrivateKey) startPrecomputingNextSubTree() {
 		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 	}
 
+	if sk.closed {
+		return
+	}
+
 	// There are no subtrees beyond that of the last signature.
 	if sta.Tree > sk.ctx.p.MaxSignatureSeqNo()>>sk.ctx.treeHeight {
 		return
-- 
2.43.0


From f0a59ce2dc72187f990176b732ecbaedf44da374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 14/31] fix: keep the record of borrowed signatures truthful

Returning a part of the borrowed signatures cleared the record of the
signatures that are still borrowed; if returning them failed, they could be
used although they had been returned on disk; and loading and closing a key
did not clear the record of lost signatures.
---
 api.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/api.go b/api.go
index 89cd7e8..da3c747 100644
--- a/api.go
+++ b/api.go
@@ -511,17 +511,29 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 		return nil
 	}
 
-	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
+	seqNo, _, err := sk.ctr.GetSeqNo()
+	if err != nil {
+		return err
+	}
+
+	// Return what we borrowed, if it is too much, or if the container has
+	// a different idea about what we borrowed (eg. because returning them
+	// failed previously).
+	if sk.borrowed > amount || seqNo != sk.seqNo+SignatureSeqNo(sk.borrowed) {
+		// If this fails, the signatures might be returned or not.
+		sk.borrowed = 0
+		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			return err
 		}
-		sk.borrowed = amount
+	}
+
+	if sk.borrowed == amount {
 		return nil
 	}
 
 	// sk.borrowed < amount
-	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
+	_, err = sk.ctr.BorrowSeqNos(amount - sk.borrowed)
 	if err != nil {
 		return err
 	}
@@ -623,13 +635,17 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 {
-		err := sk.ctr.SetSeqNo(sk.seqNo)
+
+	// Return the borrowed signatures and clear the record of those that
+	// were possibly lost earlier.
+	_, lost, err := sk.ctr.GetSeqNo()
+	if sk.borrowed > 0 || lost > 0 || err != nil {
+		sk.borrowed = 0
+		err = sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			sk.closed = false // so that it can be tried again
 			return err
 		}
-		sk.borrowed = 0
 	}
 	return sk.ctr.Close()
 }
-- 
2.43.0


From 5a7b67adb40845b31b07f100c7e2a27dbf548cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 15/31] fix: refuse to borrow more signatures than there are
 left

If the key was not closed properly afterwards, the sequence number in the
container was larger than the maximum and the key could not be loaded.
---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index da3c747..f90d293 100644
--- a/api.go
+++ b/api.go
@@ -511,6 +511,12 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 		return nil
 	}
 
+	// The container would be left with an invalid sequence number otherwise.
+	max := SignatureSeqNo(sk.ctx.p.MaxSignatureSeqNo())
+	if amount > 0 && (sk.seqNo > max || SignatureSeqNo(amount) > max-sk.seqNo) {
+		return errorf("There are not %d unused signatures left", amount)
+	}
+
 	seqNo, _, err := sk.ctr.GetSeqNo()
 	if err != nil {
 		return err
-- 
2.43.0


From f3663af9e1abd4cef159de404e8c244ee684bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 16/31] fix: DangerousSetSeqNo() drops the borrowed signatures

Otherwise the signatures following the new sequence number were used without
recording that in the container.
---
 api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api.go b/api.go
index f90d293..369881d 100644
--- a/api.go
+++ b/api.go
@@ -888,6 +888,9 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	defer sk.mux.Unlock()
 	sk.seqNo = seqNo
 
+	// The signatures we borrowed are those following the old sequence number.
+	sk.borrowed = 0
+
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
 	sk.retiredSeqNos = make(map[SignatureSeqNo]struct{})
-- 
2.43.0


From d5dabfb61bd6efc0871e77f9c15ddd0af5faf59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 17/31] fix: recover when generating a subtree failed

After the container failed once, the next attempt to generate the same subtree
panicked, and threads waiting for a corrupted subtree to be corrected could
wait forever (or use a subtree of which the correction had failed.)
---
 core.go | 63 ++++++++++++++++++++-------------------------------------
 1 file changed, 22 insertions(+), 41 deletions(-)

diff --git a/core.go b/core.go
index 3231e44..a6db90b 100644
--- a/core.go
+++ b/core.go
@@ -245,34 +245,28 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 	sk.mux.Lock()
 	for {
-		buf, exists, err = sk.ctr.GetSubTree(sta)
 		subTreeReady, exists2 := sk.subTreeReady[sta]
-		if err != nil {
-			sk.mux.Unlock()
-			return
-		}
-
-		if exists2 {
-			if !exists {
-				panic("This should not be possible")
-			}
-			if subTreeReady {
-				alreadyDone = true
-				justCheckTheChecksum = !sk.subTreeChecked[sta]
-				break
-			}
-
+		if exists2 && !subTreeReady {
 			// The sub tree exists, but is being filled by another thread.
 			log.Logf("Subtree %v seems to be generated by another thread.  Waiting ...", sta)
 			sk.cond.Wait()
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
+		buf, exists, err = sk.ctr.GetSubTree(sta)
+		if err != nil {
+			sk.mux.Unlock()
+			return
+		}
+
+		if exists && exists2 {
+			alreadyDone = true
+			justCheckTheChecksum = !sk.subTreeChecked[sta]
+			break
 		}
 
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist (or it does, but filling it failed
+		// before.)  We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
@@ -298,9 +292,16 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 		// The tree seems ready, but we just need to check whether it
 		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
 		sk.mux.Lock()
+
+		// Another thread might have checked the tree in the meantime, or
+		// might be correcting it.
+		if !sk.subTreeReady[sta] || sk.subTreeChecked[sta] {
+			sk.mux.Unlock()
+			return sk.getSubTree(pad, sta)
+		}
+
+		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
 		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
 		if intact {
 			sk.subTreeChecked[sta] = true
@@ -308,26 +309,6 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			return
 		}
 
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
-		}
-
 		// Mark the subtree not-ready
 		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
 		sk.subTreeReady[sta] = false
-- 
2.43.0


From c5c700b729777d6b6bb48381cb74c79d35231093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 18/31] fix: tie the checksums of cached subtrees to the
 private key and address

A subtree of another private key (for instance the one that was overwritten,
if the process got killed inbetween), or an old subtree in a slot that was
reused for another one, was considered intact.
---
 api.go  |  4 ++++
 core.go | 36 ++++++++++++++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 369881d..7bf7ff2 100644
--- a/api.go
+++ b/api.go
@@ -84,6 +84,10 @@ type PrivateKey struct {
 	// from the private key container.
 	subTreeChecked map[SubTreeAddress]bool
 
+	// Ties the checksums of the cached subtrees to this private key.
+	// See PrivateKey.subTreeCheckSum().
+	cacheId []byte
+
 	// If true, will precompute a subtree in advance
 	precomputeNextSubTree bool
 
diff --git a/core.go b/core.go
index a6db90b..51afde8 100644
--- a/core.go
+++ b/core.go
@@ -302,7 +302,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		}
 
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
+		intact := storedCheckSum == sk.subTreeCheckSum(sta, buf)
 		if intact {
 			sk.subTreeChecked[sta] = true
 			sk.mux.Unlock()
@@ -332,7 +332,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	// Called when we were sucessful in the end.
 	succeed := func() {
 		binary.BigEndian.PutUint64(buf[len(buf)-8:],
-			xxhash.Sum64(buf[:len(buf)-8]))
+			sk.subTreeCheckSum(sta, buf))
 
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
@@ -391,6 +391,37 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	return
 }
 
+// Computes the checksum of the given cached subtree.
+//
+// It does not only depend on the contents, but also on the private key and the
+// address of the subtree, as otherwise we would accept a subtree of another
+// private key, or one of which the space in the cache has been reused.
+func (sk *PrivateKey) subTreeCheckSum(sta SubTreeAddress, buf []byte) uint64 {
+	var prefix [12]byte
+	binary.BigEndian.PutUint32(prefix[:], sta.Layer)
+	binary.BigEndian.PutUint64(prefix[4:], sta.Tree)
+	h := xxhash.New()
+	h.Write(sk.cacheId)
+	h.Write(prefix[:])
+	h.Write(buf[:len(buf)-8])
+	return h.Sum64()
+}
+
+// Computes the string that ties the checksums in the cache to a private key.
+//
+// NOTE As the cache should not contain anything derived from skSeed with
+// something weaker than the PRF, we do not use skSeed directly.
+func (ctx *Context) cacheId(pad scratchPad, pubSeed, skSeed []byte) []byte {
+	// This address is not used for anything else: there is no such type.
+	var addr address
+	for i := range addr {
+		addr[i] = 0xffffffff
+	}
+	ret := ctx.prfAddr(pad, addr, skSeed)
+	ret = append(ret, pubSeed...)
+	return append(ret, ctx.p.String()...)
+}
+
 // Gets the next free sequence number
 func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
@@ -531,6 +562,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 
 	ret := PrivateKey{
 		ctx:     ctx,
+		cacheId: ctx.cacheId(pad, pubSeed, skSeed),
 		skSeed:  skSeed,
 		pubSeed: pubSeed,
 		skPrf:   skPrf,
-- 
2.43.0


From 48c0eb395093a178c2648a719c5550a79171ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 19/31] fix: allow only one holder of a private key, and always
 release its lock

The lock did not protect against opening the key twice in the same process,
other errors than that the key is locked were ignored, and the lock was not
released when opening, creating or loading the key failed.  Closing a container
twice released the lock of the next holder.
---
 api.go       | 35 +++++++++++++++++----
 container.go | 89 ++++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 102 insertions(+), 22 deletions(-)

diff --git a/api.go b/api.go
index 7bf7ff2..f9da4c3 100644
--- a/api.go
+++ b/api.go
@@ -441,11 +441,20 @@ func (ctx *Context) GenerateKeyPair(path string) (
 // NOTE Do not forget to Close() the returned PrivateKey
 func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	*PrivateKey, *PublicKey, Error) {
+	err := ctx.checkSeeds(pubSeed, skSeed, skPrf)
+	if err != nil {
+		return nil, nil, err
+	}
 	ctr, err := OpenFSPrivateKeyContainer(path)
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close() // nobody else will
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -453,16 +462,16 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 // secret random ctx.p.N length byte slices.
 func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 	pubSeed, skSeed, skPrf []byte) (*PrivateKey, *PublicKey, Error) {
-	if len(pubSeed) != int(ctx.p.N) || len(skSeed) != int(ctx.p.N) || len(skPrf) != int(ctx.p.N) {
-		return nil, nil, errorf(
-			"skPrf, skSeed and pubSeed should have length %d", ctx.p.N)
+	err := ctx.checkSeeds(pubSeed, skSeed, skPrf)
+	if err != nil {
+		return nil, nil, err
 	}
 
 	concatSk := make([]byte, 3*ctx.p.N)
 	copy(concatSk, skSeed)
 	copy(concatSk[ctx.p.N:], skPrf)
 	copy(concatSk[ctx.p.N*2:], pubSeed)
-	err := ctr.Reset(concatSk, ctx.p)
+	err = ctr.Reset(concatSk, ctx.p)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -479,6 +488,15 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 	return sk, sk.PublicKey(), nil
 }
 
+// Checks whether the seeds are of the right size.
+func (ctx *Context) checkSeeds(pubSeed, skSeed, skPrf []byte) Error {
+	if len(pubSeed) != int(ctx.p.N) || len(skSeed) != int(ctx.p.N) || len(skPrf) != int(ctx.p.N) {
+		return errorf(
+			"skPrf, skSeed and pubSeed should have length %d", ctx.p.N)
+	}
+	return nil
+}
+
 // Atomically runs BorrowExactly(amount) if BorrowedSeqNos()  <= treshHold.
 func (sk *PrivateKey) BorrowExactlyIfBelow(amount, treshHold uint32) Error {
 	sk.mux.Lock()
@@ -796,7 +814,12 @@ func LoadPrivateKey(path string) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
-	return LoadPrivateKeyFrom(ctr)
+	sk, pk, lostSigs, err = LoadPrivateKeyFrom(ctr)
+	if err != nil {
+		ctr.Close() // nobody else will
+		return nil, nil, 0, err
+	}
+	return
 }
 
 // Loads the private key from the given private key container.
diff --git a/container.go b/container.go
index af613f7..7777714 100644
--- a/container.go
+++ b/container.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/bwesterb/byteswriter"
 	"github.com/edsrzf/mmap-go"
@@ -139,43 +140,96 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Could not turn %s into an absolute path", path)
 	}
 
-	// Acquire lock
+	// The same container might be reached by several paths.
+	if realPath, err := filepath.EvalSymlinks(ctr.path); err == nil {
+		ctr.path = realPath
+	} else if dir, err := filepath.EvalSymlinks(
+		filepath.Dir(ctr.path)); err == nil {
+		ctr.path = filepath.Join(dir, filepath.Base(ctr.path))
+	}
+
+	if err := ctr.lock(); err != nil {
+		return nil, err
+	}
+
+	if err := ctr.open(); err != nil {
+		if err2 := ctr.unlock(); err2 != nil {
+			log.Logf("Failed to release lock on %s: %v", path, err2)
+		}
+		return nil, err
+	}
+
+	return &ctr, nil
+}
+
+// The paths of the containers which are opened by this process.  The lockfile
+// does not protect against opening a container twice in the same process.
+var fsContainersOpened = make(map[string]struct{})
+var fsContainersOpenedMux sync.Mutex
+
+// Acquires the lock
+func (ctr *fsContainer) lock() Error {
+	var err error
+
+	fsContainersOpenedMux.Lock()
+	defer fsContainersOpenedMux.Unlock()
+
+	if _, opened := fsContainersOpened[ctr.path]; opened {
+		err := errorf("%s is locked", ctr.path)
+		err.locked = true
+		return err
+	}
+
 	lockFilePath := ctr.path + ".lock"
 	ctr.flock, err = lockfile.New(lockFilePath)
 	if err != nil {
-		return nil, wrapErrorf(err,
-			"Failed to create lockfile %s", lockFilePath)
+		return wrapErrorf(err, "Failed to create lockfile %s", lockFilePath)
 	}
 
 	err = ctr.flock.TryLock()
-	if _, ok := err.(interface {
-		Temporary() bool
-	}); ok {
-		err2 := errorf("%s is locked", path)
+	if err == lockfile.ErrBusy || err == lockfile.ErrNotExist {
+		err2 := errorf("%s is locked", ctr.path)
 		err2.locked = true
-		return nil, err2
+		return err2
+	}
+	if err != nil {
+		return wrapErrorf(err, "Failed to acquire lockfile %s", lockFilePath)
 	}
 
+	fsContainersOpened[ctr.path] = struct{}{}
+	return nil
+}
+
+// Releases the lock
+func (ctr *fsContainer) unlock() error {
+	fsContainersOpenedMux.Lock()
+	defer fsContainersOpenedMux.Unlock()
+	delete(fsContainersOpened, ctr.path)
+	return ctr.flock.Unlock()
+}
+
+// Opens the container, if it exists.
+func (ctr *fsContainer) open() Error {
 	// Check if the container exists
-	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-		return &ctr, nil
+	if _, err := os.Stat(ctr.path); os.IsNotExist(err) {
+		return nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return wrapErrorf(err, "Failed to open keyfile %s", ctr.path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -184,12 +238,12 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	return ctr.openCache()
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -716,11 +770,14 @@ func (ctr *fsContainer) closeCache() (err error) {
 
 func (ctr *fsContainer) Close() Error {
 	var err error
+	if ctr.closed {
+		return errorf("Container is already closed")
+	}
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not close cache"))
 	}
-	if err2 := ctr.flock.Unlock(); err2 != nil {
+	if err2 := ctr.unlock(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
-- 
2.43.0


From b2882a69b3ed50746fec8576e49fde161482a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 20/31] fix: a missing or damaged cache file does not prevent
 opening the key

Also do not crash when the cache file has been truncated.
---
 container.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 7777714..586a772 100644
--- a/container.go
+++ b/container.go
@@ -243,7 +243,13 @@ func (ctr *fsContainer) open() Error {
 
 	ctr.initialized = true
 
-	return ctr.openCache()
+	// We can do without the cache: it will be initialized again.
+	if err := ctr.openCache(); err != nil {
+		log.Logf("Failed to open the cache of %s: %v", ctr.path, err)
+		ctr.closeCache()
+	}
+
+	return nil
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -286,12 +292,37 @@ func (ctr *fsContainer) openCache() Error {
 				header.Version)
 		}
 
+		if header.SubTreeAlignment > 1<<30 {
+			return errorf("Unsupported subtree alignment: %d",
+				header.SubTreeAlignment)
+		}
+
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// Check whether the subtrees are actually there.  Otherwise we would crash
+	// on accessing the mmaped buffers.
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	var present int64
+	stride := int64(ctr.subTreeOffset(1) - ctr.subTreeOffset(0))
+	left := info.Size() - int64(ctr.subTreeOffset(0)) -
+		int64(ctr.params.CachedSubTreeSize()+13)
+	if left >= 0 {
+		present = left/stride + 1
+	}
+	if int64(ctr.allocatedSubTrees) > present {
+		return errorf("Cache file is too short")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
-- 
2.43.0


From c31eab4f360d8b81e744e531aebe2dcee38c2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 21/31] fix: refuse key files with unsupported parameters or
 sequence number

They crashed the process.
---
 container.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/container.go b/container.go
index 586a772..a5930b9 100644
--- a/container.go
+++ b/container.go
@@ -232,6 +232,15 @@ func (ctr *fsContainer) open() Error {
 		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return wrapErrorf(err, "Keyfile has unsupported parameters")
+	}
+
+	if uint64(keyHeader.SeqNo) > keyHeader.Params.MaxSignatureSeqNo() {
+		return errorf("Keyfile has invalid signature sequence number: %d > %d",
+			keyHeader.SeqNo, keyHeader.Params.MaxSignatureSeqNo())
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0


From b60549a821a84e8493aca9190da9bb52e300e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 22/31] fix: drop used up subtrees left in the cache when
 loading a private key

---
 core.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core.go b/core.go
index 51afde8..b14c52f 100644
--- a/core.go
+++ b/core.go
@@ -584,6 +584,15 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 		return nil, err
 	}
 	for _, sta := range stas {
+		// Drop subtrees of which all signatures were used (or lost), which
+		// might still be there if the container wasn't properly closed.
+		if sta.Layer >= ctx.p.D ||
+			sta.Tree < uint64(seqNo)>>(ctx.treeHeight*(sta.Layer+1)) {
+			if err = ctr.DropSubTree(sta); err != nil {
+				return nil, err
+			}
+			continue
+		}
 		ret.subTreeReady[sta] = true
 		ret.subTreeChecked[sta] = false
 	}
-- 
2.43.0


From 22de54746c1dbc654ffc5c5f29045f929487acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 23/31] fix: encode an integer into zero bytes without
 panicking

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index dd4988c..37995a7 100644
--- a/misc.go
+++ b/misc.go
@@ -8,7 +8,7 @@ import (
 
 // Encodes the given uint64 into the buffer out in Big Endian
 func encodeUint64Into(x uint64, out []byte) {
-	if len(out)%8 == 0 {
+	if len(out)%8 == 0 && len(out) > 0 {
 		binary.BigEndian.PutUint64(out[len(out)-8:], x)
 		for i := 0; i < len(out)-8; i += 8 {
 			binary.BigEndian.PutUint64(out[i:i+8], 0)
-- 
2.43.0


From 4baf483686a5336f3c04c508862910fa4ea874f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 24/31] fix: refuse heights and layers which can not be encoded

---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index f9da4c3..226447c 100644
--- a/api.go
+++ b/api.go
@@ -750,6 +750,11 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("D can't be zero")
 	}
 
+	// Larger values do not fit in the compressed parameters.
+	if params.FullHeight > 63 || params.D > 63 {
+		return nil, errorf("FullHeight and D can't be larger than 63")
+	}
+
 	if params.FullHeight%params.D != 0 {
 		return nil, errorf("D does not divide FullHeight")
 	}
-- 
2.43.0


From 8ec227938eff348f8889f6b124a3a61be0fcfd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:28 +0000
Subject: [PATCH 25/31] fix: refuse cache files of which the first subtree
 overlaps the header

---
 container.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/container.go b/container.go
index a5930b9..6f9b627 100644
--- a/container.go
+++ b/container.go
@@ -310,6 +310,12 @@ func (ctr *fsContainer) openCache() Error {
 		if ctr.subTreeAlignment == 0 {
 			ctr.subTreeAlignment = 4096
 		}
+
+		if ctr.subTreeAlignment < binary.Size(header) {
+			// The first subtree would overlap with the header.
+			return errorf("Unsupported subtree alignment: %d",
+				header.SubTreeAlignment)
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
-- 
2.43.0


From cedf4cd609fb5a2f0e43439b918dc38ef0608510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 26/31] fix: do not let the record of borrowed signatures
 overflow

Borrowing 2^32-1 signatures after a few borrowed ones had been used made the
32-bit count of possibly lost signatures wrap around.
---
 container.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/container.go b/container.go
index 6f9b627..b26aa48 100644
--- a/container.go
+++ b/container.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sync"
@@ -673,17 +674,22 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 		return 0, errorf("Container is not initialized")
 	}
 
+	oldBorrowed := ctr.borrowed
+	oldSeqNo := ctr.seqNo
 	ctr.borrowed += amount
+	if ctr.borrowed < oldBorrowed { // overflow
+		ctr.borrowed = math.MaxUint32
+	}
 	ctr.seqNo += SignatureSeqNo(amount)
 
 	if err := ctr.writeKeyFile(); err != nil {
 		// rollback
-		ctr.borrowed -= amount
-		ctr.seqNo -= SignatureSeqNo(amount)
+		ctr.borrowed = oldBorrowed
+		ctr.seqNo = oldSeqNo
 		return 0, err
 	}
 
-	return ctr.seqNo - SignatureSeqNo(amount), nil
+	return oldSeqNo, nil
 }
 
 // Write key file to disk
-- 
2.43.0


From ca50b13120a631eb362cb681a2f9f1492fe57a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 27/31] fix: report why the cache file could not be created

---
 container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container.go b/container.go
index b26aa48..8b0ea56 100644
--- a/container.go
+++ b/container.go
@@ -445,7 +445,7 @@ func (ctr *fsContainer) ResetCache() Error {
 		os.O_RDWR|os.O_CREATE|os.O_TRUNC,
 		0600)
 	if err2 != nil {
-		return wrapErrorf(err, "failed to create cache file")
+		return wrapErrorf(err2, "failed to create cache file")
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
-- 
2.43.0


From 6e7020bb1dc9fc27749d460fd3fe41affbc0e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 28/31] fix: an error is Locked() if the error it wraps is

---
 misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 37995a7..8471a9d 100644
--- a/misc.go
+++ b/misc.go
@@ -60,7 +60,11 @@ func errorf(format string, a ...interface{}) *errorImpl {
 
 // Formats a new Error that wraps another
 func wrapErrorf(err error, format string, a ...interface{}) *errorImpl {
-	return &errorImpl{msg: fmt.Sprintf(format, a...), inner: err}
+	ret := &errorImpl{msg: fmt.Sprintf(format, a...), inner: err}
+	if inner, ok := err.(Error); ok {
+		ret.locked = inner.Locked()
+	}
+	return ret
 }
 
 type dummyLogger struct{}
-- 
2.43.0


From 8facaeb363e631b92848010e3f9964e2d221bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 29/31] fix: release the lock also if the lockfile can not be
 read

---
 container.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 8b0ea56..4cf91b6 100644
--- a/container.go
+++ b/container.go
@@ -206,7 +206,13 @@ func (ctr *fsContainer) unlock() error {
 	fsContainersOpenedMux.Lock()
 	defer fsContainersOpenedMux.Unlock()
 	delete(fsContainersOpened, ctr.path)
-	return ctr.flock.Unlock()
+	err := ctr.flock.Unlock()
+	if err != nil && err != lockfile.ErrRogueDeletion {
+		// The owner of the lockfile could not be read (because there are
+		// too many open files, for instance), but it is us.
+		err = os.Remove(string(ctr.flock))
+	}
+	return err
 }
 
 // Opens the container, if it exists.
-- 
2.43.0


From 2fda2b55acdea5d74e25018c9cde806a5965b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 30/31] fix: do not close the cache file twice if its header
 can not be written

---
 container.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/container.go b/container.go
index 4cf91b6..0f39f0c 100644
--- a/container.go
+++ b/container.go
@@ -429,9 +429,7 @@ func (ctr *fsContainer) ResetCache() Error {
 	}
 
 	// Close old cache
-	if ctr.cacheInitialized {
-		ctr.closeCache() // we ignore munmap failures
-	}
+	ctr.closeCache() // we ignore munmap failures
 	ctr.cacheBufLut = make(map[SubTreeAddress]mmapedSubTree)
 	ctr.cacheIdxLut = make(map[SubTreeAddress]uint32)
 	ctr.pageSize = os.Getpagesize()
@@ -477,7 +475,6 @@ func (ctr *fsContainer) writeCacheHeader() Error {
 	copy(cacheHeader.Magic[:], magic)
 	err = binary.Write(ctr.cacheFile, binary.BigEndian, &cacheHeader)
 	if err != nil {
-		ctr.cacheFile.Close()
 		return wrapErrorf(err, "failed to write to cache file")
 	}
 	return nil
-- 
2.43.0


From ee9cb204ec598af053974255142bce40f52619f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 31/31] fix: do not lose space in the cache if a subtree can
 not be added

---
 container.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/container.go b/container.go
index 0f39f0c..1f64772 100644
--- a/container.go
+++ b/container.go
@@ -541,21 +541,22 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		idx = heap.Pop(ctr.cacheFreeIdx).(uint32)
 	} else {
 		idx = ctr.allocatedSubTrees
-		ctr.allocatedSubTrees += 1
-		err2 = ctr.cacheFile.Truncate(int64(
-			ctr.subTreeOffset(ctr.allocatedSubTrees)))
+		err2 = ctr.cacheFile.Truncate(int64(ctr.subTreeOffset(idx + 1)))
 		if err2 != nil {
 			return nil, false, wrapErrorf(err2,
 				"Failed to allocate space for subtree")
 		}
+		ctr.allocatedSubTrees += 1
 		err = ctr.writeCacheHeader()
 		if err != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, err
 		}
 	}
 
 	buf, err2 := ctr.mmapSubTree(idx)
 	if err2 != nil {
+		heap.Push(ctr.cacheFreeIdx, idx)
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
-- 
2.43.0

