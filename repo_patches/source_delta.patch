From 5d17414ec3f4cd84c3715294fd0a8a7677189472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 01/55] fix: match the aggregation's lengths and data by
 sender, not by arrival order

---
 protocols/collective_aggregation_protocol.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..470337b 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -215,14 +215,20 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 		for _, v := range <-p.LengthNodeChannel {
 			length = append(length, v)
 		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
+		// the lengths and the data are collected in the order of arrival: match them by sender
+		datas := make(map[onet.TreeNodeID]childAggregatedDataBytesStruct)
 		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+			datas[v.TreeNode.ID] = v
 		}
 
-		for i, v := range length {
+		for _, v := range length {
+			data, ok := datas[v.TreeNode.ID]
+			if !ok {
+				return nil, fmt.Errorf("no aggregated data from child %v", v.TreeNode.Name())
+			}
+
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(data.Data, v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 9d4de99cfbe88b31b420bf372b5b552d638a9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 02/55] fix: aggregation proofs of groups with a different
 number of attributes

---
 lib/structs.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..3c4442b 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -132,21 +132,15 @@ func AddInMap(s map[GroupingKey]FilteredResponse, key GroupingKey, added Filtere
 //			Data = [[4], [7]]
 //			]
 func (crd *FilteredResponseDet) FormatAggregationProofs(res map[GroupingKey][]CipherVector) {
-	if _, ok := res[crd.DetTagGroupBy]; ok {
-		for i, ct := range crd.Fr.AggregatingAttributes {
-			container := res[crd.DetTagGroupBy]
-			container[i] = append(container[i], ct)
-			res[crd.DetTagGroupBy] = container
-		}
-	} else { // if no elements are in the map yet
-		container := make([]CipherVector, len(crd.Fr.AggregatingAttributes))
-		for i, ct := range crd.Fr.AggregatingAttributes {
-			cv := make(CipherVector, 0)
-			cv = append(cv, ct)
-			container[i] = cv
-			res[crd.DetTagGroupBy] = container
+	container := res[crd.DetTagGroupBy]
+	for i, ct := range crd.Fr.AggregatingAttributes {
+		// responses of the same group can have a different number of attributes
+		if i == len(container) {
+			container = append(container, CipherVector{})
 		}
+		container[i] = append(container[i], ct)
 	}
+	res[crd.DetTagGroupBy] = container
 }
 
 // EncryptDpClearResponse encrypts a DP response
-- 
2.43.0


From 8739bba56b098ceca440d1e956fd296dd0a99aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 03/55] fix: pad missing aggregating attributes with the
 neutral element so the aggregation proofs verify

---
 protocols/collective_aggregation_protocol.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 470337b..1a1d174 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -244,10 +244,8 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 
 				if ok {
 					if len(localAggr.AggregatingAttributes) != len(aggr.Fr.AggregatingAttributes) {
-						encZeros := make(libunlynx.CipherVector, int(math.Abs(float64(len(localAggr.AggregatingAttributes)-len(aggr.Fr.AggregatingAttributes)))))
-						for e := range encZeros {
-							encZeros[e] = *libunlynx.EncryptInt(p.Roster().Aggregate, 0)
-						}
+						// pad with the neutral element, so that the sum remains what the aggregation proofs attest
+						encZeros := *libunlynx.NewCipherVector(int(math.Abs(float64(len(localAggr.AggregatingAttributes) - len(aggr.Fr.AggregatingAttributes)))))
 						if len(localAggr.AggregatingAttributes) > len(aggr.Fr.AggregatingAttributes) {
 							aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
 						} else {
-- 
2.43.0


From 9631505509e7c71f00d871371f03abd47085c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 04/55] fix: send groups with different numbers of attributes
 to the parent without corrupting them

---
 protocols/collective_aggregation_protocol.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 1a1d174..c394423 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -272,9 +272,21 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	libunlynx.EndTimer(roundTotComput)
 
 	if !p.IsRoot() {
+		// the message has only one length for all groups: fill up the groups with fewer attributes
+		nbrAttributes := 0
+		for _, v := range *p.GroupedData {
+			if len(v.AggregatingAttributes) > nbrAttributes {
+				nbrAttributes = len(v.AggregatingAttributes)
+			}
+		}
+
 		detAggrResponses := make([]libunlynx.FilteredResponseDet, len(*p.GroupedData))
 		count := 0
 		for i, v := range *p.GroupedData {
+			padded := *libunlynx.NewCipherVector(nbrAttributes)
+			copy(padded, v.AggregatingAttributes)
+			v.AggregatingAttributes = padded
+
 			detAggrResponses[count].DetTagGroupBy = i
 			detAggrResponses[count].Fr = v
 			count++
@@ -347,6 +359,7 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 	var gacbLength int
 	var aabLength int
 	var dtbLength int
+	var known bool
 
 	wg := libunlynx.StartParallelize(len((*sm).ChildData))
 	var mutexCD sync.Mutex
@@ -368,6 +381,11 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 			}
 
 			mutexCD.Lock()
+			// all the elements are read back with the same lengths
+			if known && (gacbLength != gacbAux || aabLength != aabAux || dtbLength != dtbAux) {
+				err = fmt.Errorf("aggregated data elements have different lengths")
+			}
+			known = true
 			bb[i] = aux
 			gacbLength = gacbAux
 			aabLength = aabAux
-- 
2.43.0


From 4461f2c1c7b3047a40fb5e5a4281de9ee61bf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 05/55] fix: bound the wait for the children's messages in the
 collective aggregation

---
 protocols/collective_aggregation_protocol.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index c394423..9c3b501 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -212,13 +212,21 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 
 	if !p.IsLeaf() {
 		length := make([]cadmbLengthStruct, 0)
-		for _, v := range <-p.LengthNodeChannel {
-			length = append(length, v)
+		select {
+		case lengths := <-p.LengthNodeChannel:
+			length = append(length, lengths...)
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <CADBLengthMessage> of its children on time")
 		}
 		// the lengths and the data are collected in the order of arrival: match them by sender
 		datas := make(map[onet.TreeNodeID]childAggregatedDataBytesStruct)
-		for _, v := range <-p.ChildDataChannel {
-			datas[v.TreeNode.ID] = v
+		select {
+		case childrenData := <-p.ChildDataChannel:
+			for _, v := range childrenData {
+				datas[v.TreeNode.ID] = v
+			}
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <ChildAggregatedDataBytesMessage> of its children on time")
 		}
 
 		for _, v := range length {
-- 
2.43.0


From adc2c8f988ef9b054470f3a7c1cf72ee3dc77274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 06/55] fix: bound the wait for the children's messages in the
 key switching

---
 protocols/key_switching_protocol.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..87d05f2 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -255,13 +255,19 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 
 	if !p.IsLeaf() {
 		length := make([]LengthStruct, 0)
-		for _, v := range <-p.LengthChannel {
-			length = append(length, v)
+		select {
+		case lengths := <-p.LengthChannel:
+			length = append(length, lengths...)
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <LengthMessage> of its children on time")
 		}
 
 		datas := make([]UpBytesStruct, 0)
-		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+		select {
+		case childrenData := <-p.ChildDataChannel:
+			datas = append(datas, childrenData...)
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <UpBytesMessage> of its children on time")
 		}
 		for i := range length { // len of length is number of children
 			cv := libunlynx.CipherVector{}
-- 
2.43.0


From c53d5420768ed5637a0c1c3ebb03cbf8cb360c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 07/55] fix: the key-switching root waits for its own
 contribution before reporting

---
 protocols/key_switching_protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index 87d05f2..bcf1ce3 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -102,6 +102,7 @@ type KeySwitchingProtocol struct {
 
 	// Protocol root data
 	NodeContribution *libunlynx.CipherVector
+	started          chan struct{}
 
 	// Protocol state data
 	TargetOfSwitch  *libunlynx.CipherVector
@@ -121,6 +122,7 @@ func NewKeySwitchingProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, e
 	pap := &KeySwitchingProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan libunlynx.CipherVector),
+		started:          make(chan struct{}, 1),
 	}
 
 	err := pap.RegisterChannel(&pap.DownChannel)
@@ -171,6 +173,7 @@ func (p *KeySwitchingProtocol) Start() error {
 		p.ProofFunc(p.Public(), *p.TargetPublicKey, p.Private(), ks2s, rBNegs, vis)
 	}
 	p.NodeContribution = &switchedCiphers
+	p.started <- struct{}{}
 
 	data, err := libunlynx.AbstractPointsToBytes(initialTab)
 	if err != nil {
@@ -202,6 +205,13 @@ func (p *KeySwitchingProtocol) Dispatch() error {
 			p.ProofFunc(p.Public(), targetPublicKey, p.Private(), ks2s, rBNegs, vis)
 		}
 		p.NodeContribution = &switchedCiphers
+	} else {
+		// the root's contribution is computed in Start, which runs concurrently
+		select {
+		case <-p.started:
+		case <-time.After(libunlynx.TIMEOUT):
+			return fmt.Errorf(p.ServerIdentity().String() + " didn't start the key switching on time")
+		}
 	}
 
 	// 2. Ascending key switching phase
-- 
2.43.0


From 9457820ef444c84d1b078e3a9d5059f183b421eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 08/55] fix: shuffle proofs of a single row crashed the server

---
 lib/shuffle/shuffle_proofs.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..55456d2 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -40,6 +40,9 @@ type PublishedShufflingListProof struct {
 	List []PublishedShufflingProof
 }
 
+// minShuffleSize is the smallest number of elements for which a shuffle can be proven
+const minShuffleSize = 2
+
 // SHUFFLE proofs
 //______________________________________________________________________________________________________________________
 
@@ -79,6 +82,13 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 
 	betaCompressed := compressBeta(beta, e)
 
+	// the shuffle proof needs at least two elements: complete with neutral elements, which are not moved
+	for i := k; i < minShuffleSize; i++ {
+		Xhat, Yhat = append(Xhat, libunlynx.SuiTe.Point().Null()), append(Yhat, libunlynx.SuiTe.Point().Null())
+		betaCompressed = append(betaCompressed, libunlynx.SuiTe.Scalar().Zero())
+		pi = append(append([]int{}, pi...), i)
+	}
+
 	rand := libunlynx.SuiTe.RandomStream()
 
 	// do k-shuffle of ElGamal on the (Xhat,Yhat) and check it
@@ -181,6 +191,11 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
+	for i := len(x); i < minShuffleSize; i++ {
+		x, y = append(x, libunlynx.SuiTe.Point().Null()), append(y, libunlynx.SuiTe.Point().Null())
+		xbar, ybar = append(xbar, libunlynx.SuiTe.Point().Null()), append(ybar, libunlynx.SuiTe.Point().Null())
+	}
+
 	verifier := shuffleKyber.Verifier(libunlynx.SuiTe, psp.G, psp.H, x, y, xbar, ybar)
 	err = proof.HashVerify(libunlynx.SuiTe, "PairShuffle", verifier, psp.HashProof)
 	if err != nil {
-- 
2.43.0


From cb70df671cbda0d901a332b5b4cc657b8b38962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 09/55] fix: shuffle proof verification crashed on lists of
 different shapes

---
 lib/shuffle/shuffle_proofs.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 55456d2..b17c7d7 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -48,6 +48,10 @@ const minShuffleSize = 2
 
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
+	if !sameShape(originalList, shuffledList) {
+		return PublishedShufflingProof{}, fmt.Errorf("the original and the shuffled list have different shapes")
+	}
+
 	e, err := CipherVectorComputeE(h, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
@@ -147,6 +151,11 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	if !sameShape(psp.OriginalList, psp.ShuffledList) {
+		log.Lvl1("-----------verify failed (the lists have different shapes)")
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
@@ -232,6 +241,19 @@ func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.P
 	return finalResult
 }
 
+// sameShape checks that two non-empty lists have the same number of rows, all of them with the same number of columns
+func sameShape(list1, list2 []libunlynx.CipherVector) bool {
+	if len(list1) == 0 || len(list1) != len(list2) {
+		return false
+	}
+	for i := range list1 {
+		if len(list1[i]) != len(list1[0]) || len(list2[i]) != len(list1[0]) {
+			return false
+		}
+	}
+	return true
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
-- 
2.43.0


From 52872b38a1a112250cc00f6f93b40c0f5359e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 10/55] fix: bind the challenges of a shuffle proof to the
 shuffled list

---
 lib/shuffle/shuffle_proofs.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index b17c7d7..eb0468f 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -52,7 +52,7 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 		return PublishedShufflingProof{}, fmt.Errorf("the original and the shuffled list have different shapes")
 	}
 
-	e, err := CipherVectorComputeE(h, originalList[0])
+	e, err := shuffleChallenges(h, originalList, shuffledList)
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -156,7 +156,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
-	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
+	e, err := shuffleChallenges(seed, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -254,6 +254,28 @@ func sameShape(list1, list2 []libunlynx.CipherVector) bool {
 	return true
 }
 
+// shuffleChallenges computes the e's of a shuffle proof. They depend on both lists: if the prover knew them beforehand
+// it could choose a shuffled list that is wrong but has the same compressed elements.
+func shuffleChallenges(seed kyber.Point, originalList, shuffledList []libunlynx.CipherVector) ([]kyber.Scalar, error) {
+	seedBytes, err := seed.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
+	xof := libunlynx.SuiTe.XOF(seedBytes)
+	for _, list := range [][]libunlynx.CipherVector{originalList, shuffledList} {
+		data, _, err := libunlynx.ArrayCipherVectorToBytes(list)
+		if err != nil {
+			return nil, err
+		}
+		if _, err := xof.Write(data); err != nil {
+			return nil, err
+		}
+	}
+
+	return CipherVectorComputeE(libunlynx.SuiTe.Point().Pick(xof), originalList[0])
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
-- 
2.43.0


From c1abc79e37a8dbd8abadb5491ba31a7f06167511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 11/55] fix: hand the stored responses over once and never
 reuse a batch handed over

---
 lib/store/store.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..8e14eba 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -113,7 +113,9 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	//clear tables (the returned array must not be reused)
+	s.DpResponses = nil
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
@@ -125,7 +127,7 @@ func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libun
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table
 	return result
 }
 
@@ -291,7 +293,7 @@ func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
 	results := s.DeliverableResults
-	s.DeliverableResults = s.DeliverableResults[:0]
+	s.DeliverableResults = nil
 
 	if diffPri {
 		for _, v := range results {
-- 
2.43.0


From 8f5a73b1b4e12ba6b94acf3582362bb3b642cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 12/55] fix: protect the store against concurrent insertions
 and pulls

---
 lib/store/store.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 8e14eba..54f6f13 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,9 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
@@ -109,6 +112,9 @@ func (s *Store) HasNextDpResponse() bool {
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
@@ -121,11 +127,17 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 
 // PushShuffledProcessResponses stores shuffled responses
 func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libunlynx.ProcessResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	s.ShuffledProcessResponses = append(s.ShuffledProcessResponses, newShuffledProcessResponses...)
 }
 
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.ShuffledProcessResponses
 	s.ShuffledProcessResponses = nil //clear table
 	return result
@@ -136,11 +148,12 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 
 	round := libunlynx.StartTimer(serverName + "_ServerLocalAggregation")
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	cvMap := make(map[libunlynx.GroupingKey][]libunlynx.CipherVector)
 	for _, v := range detFilteredResponses {
-		s.Mutex.Lock()
 		libunlynx.AddInMap(s.LocAggregatedProcessResponse, v.DetTagGroupBy, v.Fr)
-		s.Mutex.Unlock()
 
 		if proofsB {
 			v.FormatAggregationProofs(cvMap)
@@ -163,6 +176,9 @@ func (s *Store) HasNextAggregatedResponse() bool {
 
 // PullLocallyAggregatedResponses permits to get the result of the collective and grouped aggregation
 func (s *Store) PullLocallyAggregatedResponses() map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	LocGroupingAggregatingReturn := s.LocAggregatedProcessResponse
 	s.LocAggregatedProcessResponse = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 	return LocGroupingAggregatingReturn
@@ -262,6 +278,9 @@ func (s *Store) HasNextAggregatedFilteredResponses() bool {
 
 // PullCothorityAggregatedFilteredResponses returns the local results of the grouping.
 func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	aggregatedResults := make([]libunlynx.FilteredResponse, len(s.GroupedDeterministicFilteredResponses))
 	aggregatedGrps := make([]libunlynx.GroupingKey, len(s.GroupedDeterministicFilteredResponses))
 	count := 0
@@ -287,11 +306,17 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 
 // PushQuerierKeyEncryptedResponses handles the reception of the key switched (for the querier) results.
 func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx.FilteredResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	s.DeliverableResults = keySwitchedResponse
 }
 
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	results := s.DeliverableResults
 	s.DeliverableResults = nil
 
-- 
2.43.0


From 38f51574ed0cf9d9deb6e89677d50d110ef41713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 13/55] fix: add responses with different numbers of attributes
 without crashing or losing values

---
 lib/structs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/structs.go b/lib/structs.go
index 3c4442b..aab5186 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -96,7 +96,16 @@ func NewFilteredResponse(grpEncSize, attrSize int) FilteredResponse {
 // Add permits to add to FilteredResponses
 func (cv *FilteredResponse) Add(cv1, cv2 FilteredResponse) *FilteredResponse {
 	cv.GroupByEnc = cv1.GroupByEnc
-	cv.AggregatingAttributes.Add(cv1.AggregatingAttributes, cv2.AggregatingAttributes)
+	// the responses can have a different number of attributes
+	aggr1, aggr2 := cv1.AggregatingAttributes, cv2.AggregatingAttributes
+	if len(aggr1) < len(aggr2) {
+		aggr1, aggr2 = aggr2, aggr1
+	}
+	if len(cv.AggregatingAttributes) < len(aggr1) {
+		cv.AggregatingAttributes = *NewCipherVector(len(aggr1))
+	}
+	cv.AggregatingAttributes.Add(aggr1[:len(aggr2)], aggr2)
+	copy(cv.AggregatingAttributes[len(aggr2):], aggr1[len(aggr2):])
 	return cv
 }
 
-- 
2.43.0


From 59e21da62af2dbbb405af331ef71d198d4502f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 14/55] fix: add the noise to the released aggregates instead
 of discarding it

---
 lib/store/store.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 54f6f13..0481b1f 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -294,16 +294,23 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(aggregatedResults, noise)
 	}
 
 	return aggregatedResults
 }
 
+// addNoise adds the noise to every aggregate, without changing the ciphertexts shared with others
+func addNoise(responses []libunlynx.FilteredResponse, noise libunlynx.CipherText) {
+	for i, v := range responses {
+		noisy := libunlynx.NewCipherVector(len(v.AggregatingAttributes))
+		for j, aggr := range v.AggregatingAttributes {
+			(*noisy)[j].Add(aggr, noise)
+		}
+		responses[i].AggregatingAttributes = *noisy
+	}
+}
+
 // PushQuerierKeyEncryptedResponses handles the reception of the key switched (for the querier) results.
 func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx.FilteredResponse) {
 	s.Mutex.Lock()
@@ -321,11 +328,7 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = nil
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(results, noise)
 	}
 
 	return results
-- 
2.43.0


From 327ed31e7148e64fae6955908e88291ae910e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 15/55] fix: noise generation never ended for vanishing
 densities or quanta

---
 lib/differential_privacy/diff_privacy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/differential_privacy/diff_privacy.go b/lib/differential_privacy/diff_privacy.go
index 3c750e3..85fe028 100644
--- a/lib/differential_privacy/diff_privacy.go
+++ b/lib/differential_privacy/diff_privacy.go
@@ -37,9 +37,10 @@ func GenerateNoiseValuesScale(n int64, mean, b, quanta, scale, limit float64) []
 	countOnes := 0
 	for int64(len(noise)) < n {
 		val := laplace.Pdf(float64(start))
-		rep := math.Ceil(val / quanta)
+		// at least once: far from the mean the density vanishes and n values would never be reached
+		rep := math.Max(1, math.Ceil(val/quanta))
 		count := 0
-		for i := 0; i < int(rep); i++ {
+		for i := 0.0; i < rep; i++ {
 			if start == 0 {
 				noise = append(noise, float64(start*scale))
 			} else {
-- 
2.43.0


From 8ce68bf3c09a758a866f1218fd63d2c550d2bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 16/55] fix: what a decryption returns depended on the
 decryptions made before

---
 lib/crypto.go | 77 ++++++++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 47 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..61e2dcb 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -21,8 +21,8 @@ const MaxHomomorphicInt int64 = 100000
 
 // PointToInt creates a map between EC points and integers.
 var PointToInt = concurrent.NewConcurrentMap()
-var currentGreatestM kyber.Point
-var currentGreatestInt int64
+var nextM, nextNegM kyber.Point // next points to enter in the table
+var nextInt, nextNegInt int64   // the integers they stand for (nextNegM stands for -nextNegInt)
 var mutex = sync.Mutex{}
 
 // PublishedSimpleAdditionProof contains the two added ciphervectors and the resulting ciphervector
@@ -324,64 +324,47 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 
 	//check if the point is already in the table
 	mutex.Lock()
+	defer mutex.Unlock()
 	decrypted, ok := PointToInt.Get(P.String())
 	if ok == nil && decrypted != nil {
-		mutex.Unlock()
-		return decrypted.(int64), nil
+		if v := decrypted.(int64); v >= 0 || checkNeg {
+			return v, nil
+		}
 	}
 
 	//otherwise, we complete/create the table while decrypting
 	//initialise
-	if currentGreatestInt == 0 {
-		currentGreatestM = SuiTe.Point().Null()
-	}
-	foundPos := false
-	foundNeg := false
-	guess := currentGreatestM
-	guessInt := currentGreatestInt
-	guessNeg := SuiTe.Point().Null()
-	guessIntMinus := int64(0)
-
-	start := true
-	for i := guessInt; i < MaxHomomorphicInt && !foundPos && !foundNeg; i = i + 1 {
-		// check for 0 first
-		if !start {
-			guess = SuiTe.Point().Add(guess, B)
-		}
-		start = false
-
-		guessInt = i
-		if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
-			return -1, err
-		}
-		if checkNeg {
-			guessIntMinus = -guessInt
-			guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
-			if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
+	if nextM == nil {
+		nextM = SuiTe.Point().Null()
+		nextNegM = SuiTe.Point().Null()
+	}
+
+	// the table contains 0..nextInt-1 and, if negative values were looked for, -(nextNegInt-1)..0
+	for nextInt < MaxHomomorphicInt || (checkNeg && nextNegInt < MaxHomomorphicInt) {
+		var guess kyber.Point
+		var guessInt int64
+		if nextInt < MaxHomomorphicInt && !(checkNeg && nextNegInt < nextInt) {
+			guess, guessInt = nextM, nextInt
+			if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
 				return -1, err
 			}
-
-			if guessNeg.Equal(P) {
-				foundNeg = true
+			nextM = SuiTe.Point().Add(nextM, B)
+			nextInt++
+		} else {
+			guess, guessInt = nextNegM, -nextNegInt
+			if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
+				return -1, err
 			}
+			nextNegM = SuiTe.Point().Sub(nextNegM, B)
+			nextNegInt++
 		}
-		if !foundNeg && guess.Equal(P) {
-			foundPos = true
+		if guess.Equal(P) {
+			return guessInt, nil
 		}
 	}
-	currentGreatestM = guess
-	currentGreatestInt = guessInt
-	mutex.Unlock()
-
-	if !foundPos && !foundNeg {
-		log.Error("out of bound encryption, bound is ", MaxHomomorphicInt)
-		return 0, nil
-	}
 
-	if foundNeg {
-		return guessIntMinus, nil
-	}
-	return guessInt, nil
+	log.Error("out of bound encryption, bound is ", MaxHomomorphicInt)
+	return 0, nil
 }
 
 // CreateDecryptionTable generated the lookup table for decryption of all the integers in [-limit, limit]
-- 
2.43.0


From 94558bc93925dc0c36004c1159fc260b589708c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 17/55] fix: SplitScalar modified the scalar it was given

---
 lib/crypto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 61e2dcb..29658ec 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -115,6 +115,7 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
 	allScalars := make([]kyber.Scalar, nbrSplits)
+	rootScalar = rootScalar.Clone() // the caller's scalar must not be modified
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
 		rootScalar = rootScalar.Sub(rootScalar, allScalars[i])
-- 
2.43.0


From edc59dd6bcfb6cb3821ca317022264f2419f7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 18/55] fix: an upload put a stale copy of the survey back,
 losing the querier's key

---
 services/service.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/services/service.go b/services/service.go
index dddecc0..7e58a35 100644
--- a/services/service.go
+++ b/services/service.go
@@ -220,10 +220,7 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		}
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
-	}
+	// the store is shared: putting back this copy of the survey would undo concurrent changes to it
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
 	return nil
-- 
2.43.0


From 8d4ad8c79ed51c83734a33a7e71d40aaf71e48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 19/55] fix: a refused upload had already stored its first
 responses

---
 services/service.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index 7e58a35..ba03205 100644
--- a/services/service.go
+++ b/services/service.go
@@ -213,11 +213,14 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		return err
 	}
 
-	for _, v := range resp.Responses {
-		dr := libunlynx.DpResponse{}
-		if err := dr.FromDpResponseToSend(v); err != nil {
+	// a malformed upload must not change the survey: decode everything before storing anything
+	responses := make([]libunlynx.DpResponse, len(resp.Responses))
+	for i, v := range resp.Responses {
+		if err := responses[i].FromDpResponseToSend(v); err != nil {
 			return err
 		}
+	}
+	for _, dr := range responses {
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
 	// the store is shared: putting back this copy of the survey would undo concurrent changes to it
-- 
2.43.0


From e242e9f2403e32b0ac5ff4c0788b4391a601b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 20/55] fix: uploads of more than 100 data providers to a
 server blocked

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index ba03205..4bd05a0 100644
--- a/services/service.go
+++ b/services/service.go
@@ -342,8 +342,8 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 		return nil, err
 	}
 
-	//number of data providers who have already pushed the data
-	survey.DpChannel <- 1
+	//number of data providers who have already pushed the data (must not block, however many data providers there are)
+	go func() { survey.DpChannel <- 1 }()
 	return &ServiceState{"1"}, nil
 }
 
-- 
2.43.0


From 63c51520f63d21c83912e1e226bbe2dffdb949eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 21/55] fix: a failing protocol crashed the server while
 reporting the error

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index 4bd05a0..17aa166 100644
--- a/services/service.go
+++ b/services/service.go
@@ -606,12 +606,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From 017c73064d91e096c4c24c48c13d0a3b450e3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 22/55] fix: a lost server message blocked requests, and all
 protocols of a server, forever

---
 services/service.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/services/service.go b/services/service.go
index 17aa166..7b18d91 100644
--- a/services/service.go
+++ b/services/service.go
@@ -324,9 +324,8 @@ func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.
 			return nil, err
 		}
 
-		counter := len(recq.Roster.List) - 1
-		for counter > 0 {
-			counter = counter - (<-survey.SurveyChannel)
+		if err := waitForOthers(survey.SurveyChannel, len(recq.Roster.List)-1); err != nil {
+			return nil, fmt.Errorf(s.ServerIdentity().String()+" didn't get all the confirmations of the survey creation: %v", err)
 		}
 	}
 	return &ServiceState{recq.SurveyID}, nil
@@ -488,7 +487,14 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return nil, err
 		}
 
-		// waits for all other nodes to finish the tagging phase
+		// The root waits for all other nodes to finish the tagging phase: the others only get here afterwards and
+		// must not wait (this would block all the protocols of the server).
+		if tn.IsRoot() {
+			if err := waitForOthers(survey.DDTChannel, len(tn.Roster().List)-1); err != nil {
+				return nil, fmt.Errorf(s.ServerIdentity().String()+" didn't get all the confirmations of the tagging: %v", err)
+			}
+		}
+
 		groupedData := survey.PullLocallyAggregatedResponses()
 		err = s.putSurvey(target, survey)
 		if err != nil {
@@ -503,11 +509,6 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return &proof
 		}
 
-		counter := len(tn.Roster().List) - 1
-		for counter > 0 {
-			counter = counter - (<-survey.DDTChannel)
-		}
-
 	case protocolsunlynx.DROProtocolName:
 		pi, err := protocolsunlynx.NewShufflingProtocol(tn)
 		if err != nil {
@@ -909,6 +910,20 @@ func FilterNone(responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.Fi
 	return result
 }
 
+// waitForOthers waits for the given number of confirmations of the other servers
+func waitForOthers(confirmations <-chan int, counter int) error {
+	timeout := time.After(libunlynx.TIMEOUT)
+	for counter > 0 {
+		select {
+		case c := <-confirmations:
+			counter = counter - c
+		case <-timeout:
+			return fmt.Errorf("%d server(s) missing", counter)
+		}
+	}
+	return nil
+}
+
 // CountDPs counts the number of data providers targeted by a query/survey
 func CountDPs(m map[string]int64) int64 {
 	result := int64(0)
-- 
2.43.0


From 9788d1f4ad3c1e136ad66cdbd72b598e49744c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 23/55] fix: precomputed shuffle randomness of another key,
 size or an interrupted write was used as is

A file left behind by a survey with another collective key or fewer attributes made
the results wrong or crashed the shuffle, a damaged file prevented every later survey.
The file is only used when it fits the survey, and is written anew otherwise.
---
 lib/shuffle/shuffle.go | 42 +++++++++++++++++++++++++++++-------------
 lib/shuffle/structs.go |  5 +++++
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 2044f7a..be795b4 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -149,27 +149,43 @@ func PrecomputeForShuffling(serverName, gobFile string, surveySecret kyber.Scala
 	return precomputeShuffle, nil
 }
 
-// PrecomputationWritingForShuffling reads the precomputation data from  .gob file if it already exists or generates a new one
+// usablePrecomputation checks that the precomputed lines have the wanted size and are encryptions of zero under the
+// collective key. All elements are checked at once, each with a different weight (its position counted from the end).
+func usablePrecomputation(lines []CipherVectorScalar, collectiveKey kyber.Point, lineSize int) bool {
+	sumS, weightedS := libunlynx.SuiTe.Scalar().Zero(), libunlynx.SuiTe.Scalar().Zero()
+	sum, weighted := libunlynx.NewCipherText(), libunlynx.NewCipherText()
+	for _, line := range lines {
+		if len(line.S) < lineSize || len(line.S) != len(line.CipherV) {
+			return false
+		}
+		for w := range line.S {
+			sumS.Add(sumS, line.S[w])
+			weightedS.Add(weightedS, sumS)
+			sum.Add(*sum, line.CipherV[w])
+			weighted.Add(*weighted, *sum)
+		}
+	}
+
+	encryptsZero := func(ct *libunlynx.CipherText, s kyber.Scalar) bool {
+		return ct.K.Equal(libunlynx.SuiTe.Point().Mul(s, nil)) && ct.C.Equal(libunlynx.SuiTe.Point().Mul(s, collectiveKey))
+	}
+	return len(lines) > 0 && encryptsZero(sum, sumS) && encryptsZero(weighted, weightedS)
+}
+
+// PrecomputationWritingForShuffling reads the precomputation data from  .gob file if it already exists (and was computed
+// for this collective key and size) or generates a new one
 func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string, surveySecret kyber.Scalar, collectiveKey kyber.Point, lineSize int) ([]CipherVectorScalar, error) {
 	log.Lvl1(serverName, " precomputes for shuffling")
 	var precomputeShuffle []CipherVectorScalar
 	if appFlag {
-		if _, err := os.Stat(gobFile); os.IsNotExist(err) {
+		var err error
+		precomputeShuffle, err = ReadPrecomputedFile(gobFile)
+		if err != nil || !usablePrecomputation(precomputeShuffle, collectiveKey, lineSize) {
+			// no file, or one left behind by another survey or by an interrupted write
 			precomputeShuffle, err = PrecomputeForShuffling(serverName, gobFile, surveySecret, collectiveKey, lineSize)
 			if err != nil {
 				return nil, err
 			}
-		} else {
-			var encoded []CipherVectorScalarBytes
-			err := libunlynxtools.ReadFromGobFile(gobFile, &encoded)
-			if err != nil {
-				return nil, err
-			}
-
-			precomputeShuffle, err = DecodeCipherVectorScalar(encoded)
-			if err != nil {
-				return nil, err
-			}
 		}
 	} else {
 		scalarBytes, err := surveySecret.MarshalBinary()
diff --git a/lib/shuffle/structs.go b/lib/shuffle/structs.go
index 695222f..bb21b11 100644
--- a/lib/shuffle/structs.go
+++ b/lib/shuffle/structs.go
@@ -1,6 +1,8 @@
 package libunlynxshuffle
 
 import (
+	"fmt"
+
 	"github.com/ldsec/unlynx/lib"
 	"go.dedis.ch/kyber/v3"
 )
@@ -84,6 +86,9 @@ func DecodeCipherVectorScalar(eCV []CipherVectorScalarBytes) ([]CipherVectorScal
 		}
 
 		for _, el := range v.CipherV {
+			if len(el) != 2 {
+				return slice, fmt.Errorf("a ciphertext has two points, not %d", len(el))
+			}
 			k := libunlynx.SuiTe.Point()
 			if err := k.UnmarshalBinary(el[0]); err != nil {
 				return slice, err
-- 
2.43.0


From 5e8cb9f0965f1a00c719230de4d429ece8ea781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:31 +0000
Subject: [PATCH 24/55] fix: predicates that are malformed or no truth value,
 and responses with other numbers of attributes, crashed the server

---
 services/service.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/services/service.go b/services/service.go
index 7b18d91..9430f29 100644
--- a/services/service.go
+++ b/services/service.go
@@ -876,31 +876,42 @@ func (s *Service) KeySwitchingPhase(targetSurvey SurveyID) error {
 // FilterResponses evaluates the predicate and keeps the entries that satisfy the conditions
 func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttributeTagged, responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
 	var result []libunlynx.FilteredResponseDet
+	expression, err := parsePredicate(pred)
+	if err != nil {
+		log.Error("wrong predicate ", pred, ": ", err)
+		return result
+	}
 	for _, v := range responsesToFilter {
-		expression, err := govaluate.NewEvaluableExpression(pred)
-		if err != nil {
-			return result
+		// even variables stand for the query's attributes, odd ones for the response's
+		parameters := make(map[string]interface{}, len(whereQueryValues)+len(v.DetTagWhere))
+		for i, w := range whereQueryValues {
+			parameters["v"+strconv.Itoa(2*i)] = string(w.Value)
 		}
-		parameters := make(map[string]interface{}, len(whereQueryValues)+len(responsesToFilter[0].DetTagWhere))
-		counter := 0
-		for i := 0; i < len(whereQueryValues)+len(responsesToFilter[0].DetTagWhere); i++ {
-
-			if i%2 == 0 {
-				parameters["v"+strconv.Itoa(i)] = string(whereQueryValues[counter].Value)
-			} else {
-				parameters["v"+strconv.Itoa(i)] = string(v.DetTagWhere[counter])
-				counter++
-			}
-
+		for i, w := range v.DetTagWhere {
+			parameters["v"+strconv.Itoa(2*i+1)] = string(w)
 		}
 		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		if err != nil {
+			log.Error("predicate ", pred, " cannot be evaluated: ", err)
+			continue
+		}
+		if isKept, ok := keep.(bool); ok && isKept {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
 	return result
 }
 
+// parsePredicate parses a predicate; the parser panics on some malformed predicates
+func parsePredicate(pred string) (expression *govaluate.EvaluableExpression, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed predicate: %v", r)
+		}
+	}()
+	return govaluate.NewEvaluableExpression(pred)
+}
+
 // FilterNone skips the filtering of attributes when there is no predicate (the number of where attributes == 0)
 func FilterNone(responsesToFilter []libunlynx.ProcessResponseDet) []libunlynx.FilteredResponseDet {
 	var result []libunlynx.FilteredResponseDet
-- 
2.43.0


From fa3b29e1d739db850af1179d67193cdb124db9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:30 +0000
Subject: [PATCH 25/55] fix: decoding truncated, overlong or wrongly announced
 ciphertexts and responses crashed

---
 lib/crypto.go      | 24 +++++++++++++++++++++++-
 lib/structs.go     | 35 +++++++++++++++++++++++++++++++++++
 lib/tools/tools.go |  4 ++--
 3 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 29658ec..9a17273 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -564,8 +564,11 @@ func (cv *CipherVector) ToBytes() ([]byte, int, error) {
 
 // FromBytes converts a byte array to a CipherVector. Note that you need to create the (empty) object beforehand.
 func (cv *CipherVector) FromBytes(data []byte, length int) error {
-	*cv = make(CipherVector, length)
 	cipherLength := 2 * SuiTe.PointLen()
+	if length < 0 || len(data)%cipherLength != 0 || len(data)/cipherLength != length {
+		return fmt.Errorf("%v bytes are not a vector of %v ciphertexts", len(data), length)
+	}
+	*cv = make(CipherVector, length)
 	for i, pos := 0, 0; i < length*cipherLength; i, pos = i+cipherLength, pos+1 {
 		ct := CipherText{}
 		if err := ct.FromBytes(data[i : i+cipherLength]); err != nil {
@@ -596,6 +599,9 @@ func (c *CipherText) FromBytes(data []byte) error {
 	(*c).K = SuiTe.Point()
 	(*c).C = SuiTe.Point()
 	pointLength := SuiTe.PointLen()
+	if len(data) != 2*pointLength {
+		return fmt.Errorf("%v bytes are not a ciphertext", len(data))
+	}
 	if err := (*c).K.UnmarshalBinary(data[:pointLength]); err != nil {
 		return err
 	}
@@ -700,6 +706,9 @@ func FromBytesToAbstractPoints(target []byte) ([]kyber.Point, error) {
 	var err error
 	aps := make([]kyber.Point, 0)
 	pointLength := SuiTe.PointLen()
+	if len(target)%pointLength != 0 {
+		return nil, fmt.Errorf("%v bytes are not a list of points", len(target))
+	}
 	for i := 0; i < len(target); i += pointLength {
 		ap := SuiTe.Point()
 		if err = ap.UnmarshalBinary(target[i : i+pointLength]); err != nil {
@@ -753,10 +762,23 @@ func ArrayCipherVectorToBytes(data []CipherVector) ([]byte, []byte, error) {
 
 // FromBytesToArrayCipherVector converts bytes to an array of CipherVector
 func FromBytesToArrayCipherVector(data []byte, cvLengthsByte []byte) ([]CipherVector, error) {
+	if len(cvLengthsByte)%4 != 0 {
+		return nil, fmt.Errorf("%v bytes are not a list of lengths", len(cvLengthsByte))
+	}
 	cvLengths := libunlynxtools.UnsafeCastBytesToInts(cvLengthsByte)
 	dataConverted := make([]CipherVector, len(cvLengths))
 	elementSize := CipherTextByteSize()
 
+	total := 0
+	for _, length := range cvLengths {
+		if total += length * elementSize; total > len(data) {
+			break
+		}
+	}
+	if total != len(data) {
+		return nil, fmt.Errorf("%v bytes of ciphertexts instead of %v", len(data), total)
+	}
+
 	var err error
 	mutex := sync.Mutex{}
 	wg := StartParallelize(len(cvLengths))
diff --git a/lib/structs.go b/lib/structs.go
index aab5186..59dfa9b 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -2,6 +2,7 @@
 package libunlynx
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -232,6 +233,28 @@ func UnKey(gk GroupingKey) ([]int64, error) {
 // Marshal
 //______________________________________________________________________________________________________________________
 
+// checkSize verifies that data is made of the given numbers of ciphertexts and bytes
+func checkSize(data []byte, ciphertexts []int, others ...int) error {
+	cipherTextByteSize := CipherTextByteSize()
+	left := len(data)
+	for _, v := range ciphertexts {
+		if v < 0 || v > left/cipherTextByteSize {
+			return fmt.Errorf("%v bytes are not %v ciphertexts and %v bytes", len(data), ciphertexts, others)
+		}
+		left -= v * cipherTextByteSize
+	}
+	for _, v := range others {
+		if v < 0 || v > left {
+			return fmt.Errorf("%v bytes are not %v ciphertexts and %v bytes", len(data), ciphertexts, others)
+		}
+		left -= v
+	}
+	if left != 0 {
+		return fmt.Errorf("%v bytes are not %v ciphertexts and %v bytes", len(data), ciphertexts, others)
+	}
+	return nil
+}
+
 // ToBytes converts a Filtered to a byte array
 func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 	b := make([]byte, 0)
@@ -258,6 +281,9 @@ func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponse. Note that you need to create the (empty) object beforehand.
 func (cv *FilteredResponse) FromBytes(data []byte, aabLength, pgaebLength int) error {
+	if err := checkSize(data, []int{aabLength, pgaebLength}); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).GroupByEnc = make(CipherVector, pgaebLength)
 
@@ -296,6 +322,9 @@ func (crd *FilteredResponseDet) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *FilteredResponseDet) FromBytes(data []byte, gacbLength, aabLength, dtbgbLength int) error {
+	if err := checkSize(data, []int{aabLength, gacbLength}, dtbgbLength); err != nil {
+		return err
+	}
 	(*crd).Fr.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).Fr.GroupByEnc = make(CipherVector, gacbLength)
 
@@ -351,6 +380,9 @@ func (cv *ProcessResponse) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a ProcessResponse. Note that you need to create the (empty) object beforehand.
 func (cv *ProcessResponse) FromBytes(data []byte, gacbLength, aabLength, pgaebLength int) error {
+	if err := checkSize(data, []int{gacbLength, aabLength, pgaebLength}); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).WhereEnc = make(CipherVector, pgaebLength)
 	(*cv).GroupByEnc = make(CipherVector, gacbLength)
@@ -402,6 +434,9 @@ func (crd *ProcessResponseDet) ToBytes() ([]byte, int, int, int, int, int, error
 
 // FromBytes converts a byte array to a ProcessResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pgaebLength, dtbgbLength, dtbwLength int) error {
+	if err := checkSize(data, []int{gacbLength, aabLength, pgaebLength}, dtbgbLength, dtbwLength); err != nil {
+		return err
+	}
 	(*crd).PR.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).PR.WhereEnc = make(CipherVector, pgaebLength)
 	(*crd).PR.GroupByEnc = make(CipherVector, gacbLength)
diff --git a/lib/tools/tools.go b/lib/tools/tools.go
index 0aa8f29..d1d3e93 100644
--- a/lib/tools/tools.go
+++ b/lib/tools/tools.go
@@ -42,10 +42,10 @@ func UnsafeCastIntsToBytes(ints []int) []byte {
 	return bsFinal
 }
 
-// UnsafeCastBytesToInts casts a slice of bytes to a slice of ints
+// UnsafeCastBytesToInts casts a slice of bytes to a slice of ints (bytes at the end that are no full int are ignored)
 func UnsafeCastBytesToInts(bytes []byte) []int {
 	intsFinal := make([]int, 0)
-	for i := 0; i < len(bytes); i += 4 {
+	for i := 0; i+4 <= len(bytes); i += 4 {
 		x := binary.BigEndian.Uint32(bytes[i : i+4])
 		intsFinal = append(intsFinal, int(x))
 	}
-- 
2.43.0


From c74808c86f31ff27a7811622de1209a6b37b00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 26/55] fix: grouping keys of several digits and tagged
 responses were not read back as written

---
 lib/structs.go | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 59dfa9b..2b58de6 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -212,20 +212,18 @@ func Key(ga []int64) GroupingKey {
 // UnKey permits to go from a tag non-encrypted grouping attributes to grouping attributes
 func UnKey(gk GroupingKey) ([]int64, error) {
 	tab := make([]int64, 0)
-	count := 0
-	nbrString := make([]string, 1)
-	for _, a := range gk {
-		if a != ',' {
-			nbrString[0] = string(a)
-		} else {
-			key, err := strconv.Atoi(strings.Join(nbrString, ""))
-			if err != nil {
-				return nil, err
-			}
-			tab = append(tab, int64(key))
-			nbrString = make([]string, 1)
-			count++
+	if len(gk) == 0 {
+		return tab, nil
+	}
+	if !strings.HasSuffix(string(gk), ",") {
+		return nil, fmt.Errorf("%q is not a grouping key", gk)
+	}
+	for _, a := range strings.Split(strings.TrimSuffix(string(gk), ","), ",") {
+		key, err := strconv.ParseInt(a, 10, 64)
+		if err != nil {
+			return nil, err
 		}
+		tab = append(tab, key)
 	}
 	return tab, nil
 }
@@ -420,11 +418,14 @@ func (crd *ProcessResponseDet) ToBytes() ([]byte, int, int, int, int, int, error
 
 	dtbgb := []byte((*crd).DetTagGroupBy)
 	dtbgbLength := len(dtbgb)
-	strs := make([]string, len((*crd).DetTagWhere))
-	for i, v := range (*crd).DetTagWhere {
-		strs[i] = string(v)
+	// every tag is followed by the separator, such that no tag and an empty tag can be told apart
+	dtbw := make([]byte, 0)
+	for _, v := range (*crd).DetTagWhere {
+		if strings.Index(string(v)+SEPARATOR, SEPARATOR) != len(v) {
+			return nil, 0, 0, 0, 0, 0, fmt.Errorf("the tag %q cannot be told from the separator", v)
+		}
+		dtbw = append(dtbw, string(v)+SEPARATOR...)
 	}
-	dtbw := []byte(strings.Join(strs, SEPARATOR))
 	dtbwLength := len(dtbw)
 
 	b = append(b, dtbgb...)
@@ -450,12 +451,17 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
-		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+	if dtbwLength > 0 {
+		if !strings.HasSuffix(string(dtbw), SEPARATOR) {
+			return fmt.Errorf("the last tag is not complete")
+		}
+		for _, key := range strings.Split(strings.TrimSuffix(string(dtbw), SEPARATOR), SEPARATOR) {
+			(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+		}
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
 	if err != nil {
-- 
2.43.0


From 204eeee867d28572455763e76160d70a8277b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 27/55] fix: malformed messages and proofs of other servers
 crashed the server

---
 lib/key_switch/key_switch_proofs.go          |  3 +++
 lib/shuffle/shuffle_proofs.go                | 12 ++++++++++++
 protocols/collective_aggregation_protocol.go |  9 +++++++++
 protocols/deterministic_tagging_protocol.go  |  3 +++
 protocols/key_switching_protocol.go          |  9 ++++++++-
 protocols/shuffling+ddt_protocol.go          |  9 +++++++++
 protocols/shuffling_protocol.go              | 19 +++++++++++++++++++
 7 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..8a82f40 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -183,6 +183,9 @@ func (pksp *PublishedKSProof) FromBytes(pkspb PublishedKSProofBytes) error {
 	if err != nil {
 		return err
 	}
+	if len(data) != 5 {
+		return fmt.Errorf("%v points instead of 5", len(data))
+	}
 	KVibKs2RbnegQ := data
 	pksp.K = KVibKs2RbnegQ[0]
 	pksp.ViB = KVibKs2RbnegQ[1]
diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index eb0468f..028ce41 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -534,6 +534,12 @@ func (psp *PublishedShufflingProof) ToBytes() (PublishedShufflingProofBytes, err
 
 // FromBytes transforms bytes back to PublishedShufflingProof
 func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes) error {
+	for _, v := range []*[]byte{pspb.OriginalList, pspb.OriginalListLength, pspb.ShuffledList, pspb.ShuffledListLength, pspb.G, pspb.H} {
+		if v == nil {
+			return fmt.Errorf("the proof is not complete")
+		}
+	}
+
 	var err error
 	psp.OriginalList, err = libunlynx.FromBytesToArrayCipherVector(*pspb.OriginalList, *pspb.OriginalListLength)
 	if err != nil {
@@ -548,12 +554,18 @@ func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes)
 	if err != nil {
 		return err
 	}
+	if len(g) != 1 {
+		return fmt.Errorf("%v points instead of one", len(g))
+	}
 	psp.G = g[0]
 
 	h, err := libunlynx.FromBytesToAbstractPoints(*pspb.H)
 	if err != nil {
 		return err
 	}
+	if len(h) != 1 {
+		return fmt.Errorf("%v points instead of one", len(h))
+	}
 	psp.H = h[0]
 	psp.HashProof = pspb.HashProof
 
diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 9c3b501..624dca4 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -417,7 +417,16 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 // FromBytes converts a byte array to a ChildAggregatedDataMessage. Note that you need to create the (empty) object beforehand.
 func (sm *ChildAggregatedDataMessage) FromBytes(data []byte, gacbLength, aabLength, dtbLength int) error {
 	cipherTextSize := libunlynx.CipherTextByteSize()
+	// no length can exceed the data
+	for _, length := range []int{gacbLength, aabLength, dtbLength} {
+		if length < 0 || length > len(data) {
+			return fmt.Errorf("elements of lengths %v, %v and %v in %v bytes", gacbLength, aabLength, dtbLength, len(data))
+		}
+	}
 	elementLength := gacbLength*cipherTextSize + aabLength*cipherTextSize + dtbLength
+	if len(data) > 0 && (elementLength == 0 || len(data)%elementLength != 0) {
+		return fmt.Errorf("%v bytes are not a list of elements of %v bytes", len(data), elementLength)
+	}
 
 	if elementLength != 0 && len(data) > 0 {
 		var nbrChildData int
diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..99edfb6 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -383,6 +383,9 @@ func (dtm *DeterministicTaggingMessage) ToBytes() ([]byte, error) {
 // FromBytes converts a byte array to a DeterministicTaggingMessage. Note that you need to create the (empty) object beforehand.
 func (dtm *DeterministicTaggingMessage) FromBytes(data []byte) error {
 	elementSize := libunlynx.CipherTextByteSize()
+	if len(data)%elementSize != 0 {
+		return fmt.Errorf("%v bytes are not a list of ciphertexts", len(data))
+	}
 	(*dtm).Data = make([]libunlynx.CipherText, len(data)/elementSize)
 
 	// iter over each value in the flatten data byte array
diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index bcf1ce3..b2ca9f0 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -255,6 +255,9 @@ func (p *KeySwitchingProtocol) announcementKSPhase() (kyber.Point, []kyber.Point
 		return nil, nil, err
 	}
 
+	if len(message) == 0 {
+		return nil, nil, fmt.Errorf("no public key to switch to")
+	}
 	return message[0], message[1:], nil
 }
 
@@ -281,7 +284,11 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 		}
 		for i := range length { // len of length is number of children
 			cv := libunlynx.CipherVector{}
-			err := cv.FromBytes(datas[i].Data, libunlynxtools.UnsafeCastBytesToInts(length[i].Length)[0])
+			cvLength := libunlynxtools.UnsafeCastBytesToInts(length[i].Length)
+			if len(cvLength) != 1 || cvLength[0] != len(*p.NodeContribution) {
+				return nil, fmt.Errorf("contribution of %v ciphertexts instead of %v", cvLength, len(*p.NodeContribution))
+			}
+			err := cv.FromBytes(datas[i].Data, cvLength[0])
 			if err != nil {
 				return nil, err
 			}
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..9de7ec3 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -116,6 +116,9 @@ func (p *ShufflingPlusDDTProtocol) Start() error {
 	if p.TargetData == nil {
 		return fmt.Errorf("no data is given")
 	}
+	if err := checkShuffleTarget(*p.TargetData); err != nil {
+		return err
+	}
 	nbrSqCVs := len(*p.TargetData)
 	log.Lvl1("["+p.Name()+"]", " started a Shuffling+DDT Protocol (", nbrSqCVs, " responses)")
 
@@ -173,6 +176,9 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 	if err != nil {
 		return err
 	}
+	if err := checkShuffleTarget(sm.Data); err != nil {
+		return err
+	}
 
 	libunlynx.EndTimer(readData)
 
@@ -335,6 +341,9 @@ func (spddtm *ShufflingPlusDDTMessage) FromBytes(data []byte, shuffKey []byte, c
 	if err != nil {
 		return err
 	}
+	if len(dataP) != 1 {
+		return fmt.Errorf("%v shuffle keys instead of one", len(dataP))
+	}
 	(*spddtm).ShuffKey = dataP[0]
 	return nil
 }
diff --git a/protocols/shuffling_protocol.go b/protocols/shuffling_protocol.go
index acc6fc7..d3c3015 100644
--- a/protocols/shuffling_protocol.go
+++ b/protocols/shuffling_protocol.go
@@ -128,6 +128,9 @@ func (p *ShufflingProtocol) Start() error {
 	if p.ShuffleTarget == nil {
 		return fmt.Errorf("no map given as shuffling target")
 	}
+	if err := checkShuffleTarget(*p.ShuffleTarget); err != nil {
+		return err
+	}
 
 	p.ExecTimeStart = 0
 	p.ExecTime = 0
@@ -206,6 +209,9 @@ func (p *ShufflingProtocol) Dispatch() error {
 		return err
 	}
 	shuffleTarget := sm.Data
+	if err := checkShuffleTarget(shuffleTarget); err != nil {
+		return err
+	}
 
 	timer := time.Now()
 	shufflingDispatch := libunlynx.StartTimer(p.Name() + "_Shuffling(DISPATCH)")
@@ -285,6 +291,19 @@ func (p *ShufflingProtocol) sendToNext(msg interface{}) error {
 	return nil
 }
 
+// checkShuffleTarget verifies that there are rows to shuffle, all with the same number of elements
+func checkShuffleTarget(target []libunlynx.CipherVector) error {
+	if len(target) == 0 {
+		return fmt.Errorf("no rows to shuffle")
+	}
+	for _, v := range target {
+		if len(v) != len(target[0]) {
+			return fmt.Errorf("rows of %v and %v elements cannot be shuffled", len(target[0]), len(v))
+		}
+	}
+	return nil
+}
+
 // Marshal
 //______________________________________________________________________________________________________________________
 
-- 
2.43.0


From e494c4c2c189387bb175f313f8226fe9767ef51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 28/55] fix: aggregated data elements without content were lost
 on the way to the parent

---
 protocols/collective_aggregation_protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 624dca4..bd1e32f 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -393,6 +393,10 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 			if known && (gacbLength != gacbAux || aabLength != aabAux || dtbLength != dtbAux) {
 				err = fmt.Errorf("aggregated data elements have different lengths")
 			}
+			// nothing tells how many elements without content there are
+			if len(aux) == 0 {
+				err = fmt.Errorf("aggregated data elements without content")
+			}
 			known = true
 			bb[i] = aux
 			gacbLength = gacbAux
-- 
2.43.0


From 31b16710f39bbdc0c6e9792dd4e906b6fca5fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 29/55] fix: verifying a share of the proofs of adding or
 removing a server crashed

---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From 03159126e24d8f80de76d67867913c152984fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 30/55] fix: a proof of adding or removing a server verified
 for other ephemeral keys

---
 lib/add_rm/add_rm_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..27e2244 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,12 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// adding or removing a server does not change the ephemeral key
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+		log.Error("---------Verifier: the ephemeral keys are different")
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 9e25f3bf55f90aade16132be4209e89d6342069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 31/55] fix: a deterministic tag proof verified for any
 resulting ciphertext

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..e8e2ebb 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -134,6 +134,12 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 	ci2 := prf.CTaft.C
 	ciminus12 := prf.CTbef.C
 
+	// the proof only links the ciphertexts if this is -s*ciminus11 = -ci1
+	if !libunlynx.SuiTe.Point().Neg(ci1).Equal(prf.Ciminus11Si) {
+		log.Error("---------Verifier: the published points do not belong together")
+		return false
+	}
+
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
-- 
2.43.0


From e642140da3e08c272330e9e14915e0c8576143fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 32/55] fix: all proofs of a batch of tag additions were made
 for its first element

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index e8e2ebb..2a2610e 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -215,10 +215,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -227,7 +227,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
-- 
2.43.0


From 5924b541334bef9d656332df49930d0e1cfbd1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 33/55] fix: parts of a proven statement could be exchanged for
 others that fit the challenges

---
 lib/add_rm/add_rm_proofs.go                   | 23 +++++++++++++--
 lib/crypto.go                                 | 10 +++++++
 .../deterministic_tag_proofs.go               | 29 ++++++++++++++++---
 lib/key_switch/key_switch_proofs.go           | 14 +++++++--
 4 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 27e2244..d652d29 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -44,6 +44,15 @@ func createPredicateAddRm() (predicate proof.Predicate) {
 	return
 }
 
+// proofName returns the name of the proof that a server with key K is added to (or removed from) a ciphertext
+func proofName(cBef, cAft libunlynx.CipherText, K kyber.Point, toAdd bool) (string, error) {
+	kind := "RmServer"
+	if toAdd {
+		kind = "AddServer"
+	}
+	return libunlynx.ProofName(kind, K, cBef.K, cBef.C, cAft.K, cAft.C)
+}
+
 // AddRmProofCreation creates proof for add/rm server protocol for one ciphertext
 func AddRmProofCreation(cBef, cAft libunlynx.CipherText, K kyber.Point, k kyber.Scalar, toAdd bool) (PublishedAddRmProof, error) {
 	predicate := createPredicateAddRm()
@@ -61,8 +70,13 @@ func AddRmProofCreation(cBef, cAft libunlynx.CipherText, K kyber.Point, k kyber.
 	sval := map[string]kyber.Scalar{"k": k}
 	pval := map[string]kyber.Point{"B": B, "Krm": K, "c2": c2, "rB": rB}
 
+	name, err := proofName(cBef, cAft, K, toAdd)
+	if err != nil {
+		return PublishedAddRmProof{}, err
+	}
+
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	proofTmp, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	proofTmp, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 
 	if err != nil {
 		return PublishedAddRmProof{}, fmt.Errorf("---------prover: %v", err)
@@ -125,7 +139,12 @@ func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) b
 
 	pval := map[string]kyber.Point{"B": B, "Krm": K, "c2": c2, "rB": cp.CtBef.K}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, cp.Proof); err != nil {
+	name, err := proofName(cp.CtBef, cp.CtAft, K, toAdd)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, cp.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
diff --git a/lib/crypto.go b/lib/crypto.go
index 9a17273..779bd63 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -701,6 +701,16 @@ func AbstractPointsToBytes(aps []kyber.Point) ([]byte, error) {
 	return response, nil
 }
 
+// ProofName returns the name under which a statement about the given points is proven. The challenges of a proof depend
+// on it: if they did not depend on the whole statement, parts of it could be chosen after the challenges.
+func ProofName(kind string, statement ...kyber.Point) (string, error) {
+	data, err := AbstractPointsToBytes(statement)
+	if err != nil {
+		return "", err
+	}
+	return kind + string(data), nil
+}
+
 // FromBytesToAbstractPoints converts a byte array to an array of kyber.Point
 func FromBytesToAbstractPoints(target []byte) ([]kyber.Point, error) {
 	var err error
diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 2a2610e..c2080b2 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -79,8 +79,14 @@ func DeterministicTagCrProofCreation(ctBef, ctAft libunlynx.CipherText, K kyber.
 	sval := map[string]kyber.Scalar{"k": k, "s": s}
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1}
 
+	SB := libunlynx.SuiTe.Point().Mul(s, B)
+	name, err := libunlynx.ProofName("TagCreation", K, SB, ciminus11, ciminus12, ci1, ci2, ciminus11Si)
+	if err != nil {
+		return PublishedDDTCreationProof{}, err
+	}
+
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	Proof, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	Proof, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 	if err != nil {
 		return PublishedDDTCreationProof{}, fmt.Errorf("---------prover: %v", err)
 	}
@@ -142,7 +148,12 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
+	name, err := libunlynx.ProofName("TagCreation", K, SB, ciminus11, ciminus12, ci1, ci2, prf.Ciminus11Si)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, prf.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
@@ -194,8 +205,13 @@ func DeterministicTagAdditionProofCreation(c1 kyber.Point, s kyber.Scalar, c2 ky
 	sval := map[string]kyber.Scalar{"s": s}
 	pval := map[string]kyber.Point{"B": B, "c1": c1, "c2": c2, "r": r}
 
+	name, err := libunlynx.ProofName("TagAddition", c1, c2, r)
+	if err != nil {
+		return PublishedDDTAdditionProof{}, err
+	}
+
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	Proof, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	Proof, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 	if err != nil {
 		return PublishedDDTAdditionProof{}, fmt.Errorf("---------prover: %v", err)
 	}
@@ -246,7 +262,12 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	pval := map[string]kyber.Point{"B": B, "c1": psap.C1, "c2": psap.C2, "r": psap.R}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	partProof := false
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, psap.Proof); err != nil {
+	name, err := libunlynx.ProofName("TagAddition", psap.C1, psap.C2, psap.R)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, psap.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index 8a82f40..5ded3b9 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -65,8 +65,13 @@ func KeySwitchProofCreation(K, Q kyber.Point, k kyber.Scalar, viB, ks2, rBNeg ky
 	sval := map[string]kyber.Scalar{"vi": vi, "k": k}
 	pval := map[string]kyber.Point{"K": K, "viB": viB, "ks2": ks2, "rBNeg": rBNeg, "Q": Q}
 
+	name, err := libunlynx.ProofName("KeySwitch", K, viB, ks2, rBNeg, Q)
+	if err != nil {
+		return PublishedKSProof{}, err
+	}
+
 	prover := predicate.Prover(libunlynx.SuiTe, sval, pval, nil) // computes: commitment, challenge, response
-	proofKS, err := proof.HashProve(libunlynx.SuiTe, "proofTest", prover)
+	proofKS, err := proof.HashProve(libunlynx.SuiTe, name, prover)
 	if err != nil {
 		return PublishedKSProof{}, fmt.Errorf("---------prover: %v", err)
 	}
@@ -129,7 +134,12 @@ func KeySwitchProofVerification(pop PublishedKSProof) bool {
 	pval := map[string]kyber.Point{"K": pop.K, "viB": pop.ViB, "ks2": pop.Ks2, "rBNeg": pop.RbNeg, "Q": pop.Q}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 
-	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, pop.Proof); err != nil {
+	name, err := libunlynx.ProofName("KeySwitch", pop.K, pop.ViB, pop.Ks2, pop.RbNeg, pop.Q)
+	if err != nil {
+		log.Error("---------Verifier:", err.Error())
+		return false
+	}
+	if err := proof.HashVerify(libunlynx.SuiTe, name, verifier, pop.Proof); err != nil {
 		log.Error("---------Verifier:", err.Error())
 		return false
 	}
-- 
2.43.0


From 534ec4b89c42c23a0d830e34c0a07bab3a3d217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 34/55] fix: right tag addition proofs were rejected for
 another representation of the same point

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index c2080b2..1d93409 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -275,7 +274,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From 3350eae3ba638b5972425ba1aadd40c1addad7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 35/55] fix: columns with equal first elements could be mixed
 up in a proven shuffle

---
 lib/shuffle/shuffle_proofs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 028ce41..2f59362 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -1,6 +1,7 @@
 package libunlynxshuffle
 
 import (
+	"encoding/binary"
 	"fmt"
 	"math"
 	"sync"
@@ -333,6 +334,12 @@ func computeE(index int, cv libunlynx.CipherVector, seed []byte) (kyber.Scalar,
 		return nil, err
 	}
 
+	// equal ciphertexts in two columns must not have the same e: their columns could be mixed up
+	position := make([]byte, 8)
+	binary.BigEndian.PutUint64(position, uint64(index))
+	if _, err := randomCipher.Write(position); err != nil {
+		return nil, err
+	}
 	if _, err := randomCipher.Write(dataC); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 12af66a0149e3df444a36926cdd0c903413cc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 36/55] fix: verifying the aggregation of no ciphertext crashed

---
 lib/crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 779bd63..efa754d 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -444,8 +444,8 @@ func (cv *CipherVector) Equal(cv2 *CipherVector) bool {
 
 // Acum adds all elements in a ciphervector
 func (cv *CipherVector) Acum() CipherText {
-	acum := (*cv)[0]
-	for i := 1; i < len(*cv); i++ {
+	acum := *NewCipherText()
+	for i := range *cv {
 		acum.Add(acum, (*cv)[i])
 	}
 	return acum
-- 
2.43.0


From 7f388de31e0b51d5339e6894316e4f918818f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 37/55] fix: the key of a shuffle proof could be chosen to make
 up for a wrong shuffle

---
 lib/shuffle/shuffle_proofs.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 2f59362..ba582ef 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -53,7 +53,7 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 		return PublishedShufflingProof{}, fmt.Errorf("the original and the shuffled list have different shapes")
 	}
 
-	e, err := shuffleChallenges(h, originalList, shuffledList)
+	e, err := shuffleChallenges(h, g, h, originalList, shuffledList)
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -157,7 +157,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
-	e, err := shuffleChallenges(seed, psp.OriginalList, psp.ShuffledList)
+	e, err := shuffleChallenges(seed, psp.G, psp.H, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -255,10 +255,11 @@ func sameShape(list1, list2 []libunlynx.CipherVector) bool {
 	return true
 }
 
-// shuffleChallenges computes the e's of a shuffle proof. They depend on both lists: if the prover knew them beforehand
-// it could choose a shuffled list that is wrong but has the same compressed elements.
-func shuffleChallenges(seed kyber.Point, originalList, shuffledList []libunlynx.CipherVector) ([]kyber.Scalar, error) {
-	seedBytes, err := seed.MarshalBinary()
+// shuffleChallenges computes the e's of a shuffle proof. They depend on both lists and the key: if the prover knew them
+// beforehand it could choose a shuffled list that is wrong but has the same compressed elements, or a key that makes up
+// for it.
+func shuffleChallenges(seed, g, h kyber.Point, originalList, shuffledList []libunlynx.CipherVector) ([]kyber.Scalar, error) {
+	seedBytes, err := libunlynx.AbstractPointsToBytes([]kyber.Point{seed, g, h})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c500c134613a84db448ac404361c887ed6ba52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 38/55] fix: adding or removing a server with proofs failed for
 empty data

---
 protocols/utils/addrm_server_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..28e6165 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -78,7 +78,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	roundProof = libunlynx.StartTimer(p.Name() + "_AddRmServer(PROOFSVerif)")
 
-	if p.Proofs && len(proofs.List) == 0 {
+	if p.Proofs && len(proofs.List) != len(result) {
 		return fmt.Errorf("something went wrong during the creation of the add/rm proofs")
 	}
 	libunlynxaddrm.AddRmListProofVerification(proofs, 1.0)
-- 
2.43.0


From 207624e93301d026b352a29c6ac39f38723f0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 39/55] fix: local protocols running at the same time exchanged
 their results

---
 protocols/utils/addrm_server_protocol.go            | 10 ++++++----
 protocols/utils/local_aggregation_protocol.go       | 10 ++++++----
 protocols/utils/local_clear_aggregation_protocol.go | 10 ++++++----
 protocols/utils/proofs_verification_protocol.go     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 28e6165..e4e884e 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -39,6 +39,9 @@ type AddRmServerProtocol struct {
 	KeyToRm                kyber.Scalar
 	Proofs                 bool
 	Add                    bool
+
+	// hands the result of Start over to Dispatch
+	finalResult chan []libunlynx.CipherText
 }
 
 // NewAddRmProtocol is constructor of add/rm protocol instances.
@@ -46,13 +49,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -85,7 +87,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -95,7 +97,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..c50ab37 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,8 +23,6 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
@@ -35,6 +33,9 @@ type LocalAggregationProtocol struct {
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
 	Proofs              bool
+
+	// hands the result of Start over to Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 }
 
 // NewLocalAggregationProtocol is constructor of Local Aggregation protocol instances.
@@ -42,6 +43,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
 	}
 	return pvp, nil
 }
@@ -75,7 +77,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +88,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..7251ab0 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -31,6 +31,9 @@ type LocalClearAggregationProtocol struct {
 
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
+
+	// hands the result of Start over to Dispatch
+	finalResult chan []libunlynx.DpClearResponse
 }
 
 // NewLocalClearAggregationProtocol is constructor of Proofs Verification protocol instances.
@@ -38,19 +41,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +62,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..751d681 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -47,6 +47,9 @@ type ProofsVerificationProtocol struct {
 
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
+
+	// hands the result of Start over to Dispatch
+	finalResult chan []bool
 }
 
 // NewProofsVerificationProtocol is constructor of Proofs Verification protocol instances.
@@ -54,13 +57,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +103,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +113,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From 485e17a7675786063987abfe58cda05e19d288e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 40/55] fix: clear aggregation looked only at the last digit of
 the where attributes

---
 lib/store/store.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 0481b1f..86b1363 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -190,6 +190,16 @@ func (s *Store) nextID() uint64 {
 	return uint64(s.lastID)
 }
 
+// hasZero verifies if one of the attributes is 0
+func hasZero(attributes map[string]int64) bool {
+	for _, v := range attributes {
+		if v == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // AddInClear permits to add non-encrypted DP responses
 func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	dataMap := make(map[string][]int64)
@@ -201,18 +211,16 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 		whereClear := libunlynxtools.Int64ArrayToString(libunlynxtools.ConvertMapToData(elem.WhereClear, "w", 0))
 		whereEnc := libunlynxtools.Int64ArrayToString(libunlynxtools.ConvertMapToData(elem.WhereEnc, "w", len(elem.WhereClear)))
 
+		// if the where matches (no 0s) -> filter responses
+		if hasZero(elem.WhereClear) || hasZero(elem.WhereEnc) {
+			//discard these entries
+			continue
+		}
+
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
 		key = key[:len(key)-1]
 
-		// if the where matches (all 1s) -> filter responses
-		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-			if key[len(key)-1:] == "0" {
-				//discard these entries
-				continue
-			}
-		}
-
 		cpy := make([]int64, 0)
 		cpy = append(cpy, libunlynxtools.ConvertMapToData(elem.AggregatingAttributesClear, "s", 0)...)
 		cpy = append(cpy, libunlynxtools.ConvertMapToData(elem.AggregatingAttributesEnc, "s", len(elem.AggregatingAttributesClear))...)
-- 
2.43.0


From 1709b8170ec2c5b5a52b7770a975e73cb3d4b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 41/55] fix: clear aggregation crashed for responses without
 grouping and where attributes

---
 lib/store/store.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 86b1363..1c1e6e4 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -219,7 +219,6 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
-		key = key[:len(key)-1]
 
 		cpy := make([]int64, 0)
 		cpy = append(cpy, libunlynxtools.ConvertMapToData(elem.AggregatingAttributesClear, "s", 0)...)
-- 
2.43.0


From 78308f5f64b1c4c3e944104dae20f59de774fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 42/55] fix: generating test data for all possible groups
 crashed

---
 data/handle_data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 913b07f..3f95b90 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -82,6 +82,7 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 
 	testData := make(map[string][]libunlynx.DpClearResponse)
 
+	groups := make([][]int64, 0)
 	if !randomGroups {
 		numElem := 1
 		for _, el := range numType {
@@ -89,7 +90,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 
 		if int64(numElem) == numEntries {
-			groups := make([][]int64, 0)
 			group := make([]int64, 0)
 			AllPossibleGroups(numType[:], group, 0, &groups)
 		} else {
@@ -97,7 +97,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 	}
 
-	groups := make([][]int64, 0)
 	for i := int64(0); i < numDPs; i++ {
 		dpData := make([]libunlynx.DpClearResponse, numEntries)
 
-- 
2.43.0


From d12803753bcee7b648d211a9eeff07017a13e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 43/55] fix: computing the expected result changed the data if
 they were repeated

---
 data/handle_data.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 3f95b90..ea7dc2b 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -313,6 +313,15 @@ func ClearExpectedResult(expectedResult []libunlynx.DpClearResponse) []libunlynx
 	return clearExpectedResult
 }
 
+// repeat returns the attributes counted several times
+func repeat(attributes map[string]int64, repetitions int) map[string]int64 {
+	result := make(map[string]int64, len(attributes))
+	for k, v := range attributes {
+		result[k] = v * int64(repetitions)
+	}
+	return result
+}
+
 // ComputeExpectedResult computes the expected results from the testData (we can then compare with the result obtained by service UnLynx)
 func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, dataRepetitions int, clear bool) []libunlynx.DpClearResponse {
 	allData := make([]libunlynx.DpClearResponse, 0)
@@ -322,12 +331,8 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 			//if we repeated data
 			if dataRepetitions > 1 {
-				for k := range elem.AggregatingAttributesClear {
-					elem.AggregatingAttributesClear[k] = elem.AggregatingAttributesClear[k] * int64(dataRepetitions)
-				}
-				for k := range elem.AggregatingAttributesEnc {
-					elem.AggregatingAttributesEnc[k] = elem.AggregatingAttributesEnc[k] * int64(dataRepetitions)
-				}
+				elem.AggregatingAttributesClear = repeat(elem.AggregatingAttributesClear, dataRepetitions)
+				elem.AggregatingAttributesEnc = repeat(elem.AggregatingAttributesEnc, dataRepetitions)
 			}
 
 			allData = append(allData, elem)
-- 
2.43.0


From 15c419f563356e2cee76a7091888d92207538eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 44/55] fix: comparing clear results missed groups that only
 the second one has

---
 data/handle_data.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index ea7dc2b..4eff9f3 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -348,28 +348,38 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 	return expectedResult
 }
 
+// sameAttributes verifies if two sets of attributes are the same (no attributes can be either an empty map or nil)
+func sameAttributes(a, b map[string]int64) bool {
+	return (len(a) == 0 && len(b) == 0) || reflect.DeepEqual(a, b)
+}
+
 // CompareClearResponses compares two DP ClearResponse arrays and returns true if they are the same or false otherwise
 func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearResponse) bool {
-	var test bool
-	for _, i := range x {
-		test = false
-		for _, j := range y {
-			if (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
-				(reflect.DeepEqual(i.GroupByEnc, j.GroupByEnc) || (len(i.GroupByEnc) == 0 && len(j.GroupByEnc) == 0)) &&
-				(reflect.DeepEqual(i.WhereClear, j.WhereClear) || (len(i.WhereClear) == 0 && len(j.WhereClear) == 0)) &&
-				(reflect.DeepEqual(i.WhereEnc, j.WhereEnc) || (len(i.WhereEnc) == 0 && len(j.WhereEnc) == 0)) &&
-				(reflect.DeepEqual(i.AggregatingAttributesClear, j.AggregatingAttributesClear) || (len(i.AggregatingAttributesClear) == 0 && len(j.AggregatingAttributesClear) == 0)) &&
-				(reflect.DeepEqual(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) || (len(i.AggregatingAttributesEnc) == 0 && len(j.AggregatingAttributesEnc) == 0)) {
+	if len(x) != len(y) {
+		return false
+	}
 
+	// every response of x has to match another response of y
+	matched := make([]bool, len(y))
+	for _, i := range x {
+		test := false
+		for k, j := range y {
+			if !matched[k] &&
+				sameAttributes(i.GroupByClear, j.GroupByClear) && sameAttributes(i.GroupByEnc, j.GroupByEnc) &&
+				sameAttributes(i.WhereClear, j.WhereClear) && sameAttributes(i.WhereEnc, j.WhereEnc) &&
+				sameAttributes(i.AggregatingAttributesClear, j.AggregatingAttributesClear) &&
+				sameAttributes(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) {
+
+				matched[k] = true
 				test = true
 				break
 			}
 		}
 
 		if !test {
-			break
+			return false
 		}
 	}
 
-	return test
+	return true
 }
-- 
2.43.0


From 90864b674fa0b9caf1cfa5efeaa274640ebfc949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 45/55] fix: reading a data file without providers gave one

---
 data/handle_data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 4eff9f3..c75e4d0 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -272,7 +272,9 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 			})
 		}
 	}
-	testData[id] = container
+	if dataIn {
+		testData[id] = container
+	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From cc5ca076784ed4d3299ac8ae8476aa9fcd87a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 46/55] fix: data files with long lines could not be read

---
 data/handle_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/handle_data.go b/data/handle_data.go
index c75e4d0..cc5cfda 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -228,6 +228,7 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 	var container []libunlynx.DpClearResponse
 
 	scanner := bufio.NewScanner(fileHandle)
+	scanner.Buffer(nil, math.MaxInt32) // a response can have a lot of attributes
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) > 0 && strings.Compare(string(line[0]), "#") == 0 {
-- 
2.43.0


From 6fc715bd0f29e59ed72996e1db2a6da8aed9d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 47/55] fix: a query that could not be parsed was started
 anyway

---
 cmd/unlynx/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..6379df1 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -61,6 +61,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
-- 
2.43.0


From 6d933b79196762c7fdb379787790b10de0e18943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 48/55] fix: malformed queries containing a well-formed list
 were accepted

---
 cmd/unlynx/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 6379df1..06cce0b 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -95,9 +95,9 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "{s[0-9]+(,\\s*s[0-9]+)*}"
-	whereRegex := "{(w[0-9]+(,\\s*[0-9]+))*(,\\s*w[0-9]+(,\\s*[0-9]+))*}"
-	groupByRegex := "{g[0-9]+(,\\s*g[0-9]+)*}"
+	sumRegex := "^{s[0-9]+(,\\s*s[0-9]+)*}$"
+	whereRegex := "^{w[0-9]+,\\s*[0-9]+(,\\s*w[0-9]+,\\s*[0-9]+)*}$"
+	groupByRegex := "^{g[0-9]+(,\\s*g[0-9]+)*}$"
 
 	if !checkRegex(sum, sumRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the sum parameter(s)")
-- 
2.43.0


From 49f90830803db0464a7c5393db3d677624216665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 49/55] fix: count queries were always refused by the command
 line

---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 06cce0b..5b4a1b2 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -95,7 +95,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "^{s[0-9]+(,\\s*s[0-9]+)*}$"
+	sumRegex := "^{(s[0-9]+|count)(,\\s*(s[0-9]+|count))*}$"
 	whereRegex := "^{w[0-9]+,\\s*[0-9]+(,\\s*w[0-9]+,\\s*[0-9]+)*}$"
 	groupByRegex := "^{g[0-9]+(,\\s*g[0-9]+)*}$"
 
-- 
2.43.0


From 381146e787ecaea9619ac64b8db517a2e91b471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 50/55] fix: tabs and newlines in the lists of a query became
 part of the attributes

---
 cmd/unlynx/client.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 5b4a1b2..0f70103 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -89,6 +89,11 @@ func checkRegex(input, expression string) bool {
 	return aux.MatchString(input)
 }
 
+// removeBlanks removes everything that the regular expressions accept as a blank
+func removeBlanks(input string) string {
+	return regexp.MustCompile("\\s").ReplaceAllString(input, "")
+}
+
 func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, groupBy string) ([]string, bool, []libunlynx.WhereQueryAttribute, string, []string, error) {
 
 	if sum == "" || (where != "" && predicate == "") || (where == "" && predicate != "") {
@@ -102,7 +107,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 	if !checkRegex(sum, sumRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the sum parameter(s)")
 	}
-	sum = strings.Replace(sum, " ", "", -1)
+	sum = removeBlanks(sum)
 	sum = strings.Replace(sum, "{", "", -1)
 	sum = strings.Replace(sum, "}", "", -1)
 	sumFinal := strings.Split(sum, ",")
@@ -123,7 +128,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 	if !checkRegex(where, whereRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
 	}
-	where = strings.Replace(where, " ", "", -1)
+	where = removeBlanks(where)
 	where = strings.Replace(where, "{", "", -1)
 	where = strings.Replace(where, "}", "", -1)
 	whereTokens := strings.Split(where, ",")
@@ -148,7 +153,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 	if !checkRegex(groupBy, groupByRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
 	}
-	groupBy = strings.Replace(groupBy, " ", "", -1)
+	groupBy = removeBlanks(groupBy)
 	groupBy = strings.Replace(groupBy, "{", "", -1)
 	groupBy = strings.Replace(groupBy, "}", "", -1)
 	groupByFinal := strings.Split(groupBy, ",")
-- 
2.43.0


From 4d043fdb7ca2ba9348cf0c3aab3c8ee47a0237a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 51/55] fix: queries without where or group by were refused by
 the command line

---
 cmd/unlynx/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 0f70103..6308dc1 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -125,7 +125,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(where, whereRegex) {
+	if where != "" && !checkRegex(where, whereRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
 	}
 	where = removeBlanks(where)
@@ -150,13 +150,16 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(groupBy, groupByRegex) {
+	if groupBy != "" && !checkRegex(groupBy, groupByRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
 	}
 	groupBy = removeBlanks(groupBy)
 	groupBy = strings.Replace(groupBy, "{", "", -1)
 	groupBy = strings.Replace(groupBy, "}", "", -1)
-	groupByFinal := strings.Split(groupBy, ",")
+	groupByFinal := make([]string, 0)
+	if groupBy != "" {
+		groupByFinal = strings.Split(groupBy, ",")
+	}
 
 	return sumFinal, count, whereFinal, predicate, groupByFinal, nil
 }
-- 
2.43.0


From 45d64cd54f3da5b0261be95f093492ce5fa46e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 52/55] fix: releasing results with noise failed for surveys
 with encrypted attributes

---
 services/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/services/service.go b/services/service.go
index 9430f29..acd2d72 100644
--- a/services/service.go
+++ b/services/service.go
@@ -535,6 +535,11 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			var toShuffleCV []libunlynx.CipherVector
 			toShuffleCV, survey.Lengths = protocolsunlynx.ProcessResponseToMatrixCipherText(clientResponses)
 			shuffle.ShuffleTarget = &toShuffleCV
+
+			err = s.putSurvey(target, survey)
+			if err != nil {
+				return nil, err
+			}
 		}
 		return pi, nil
 
-- 
2.43.0


From 5d082b6f183f3e0f23f176c42513b86b8df815c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 53/55] fix: a result of another size than the input crashed
 the root of shuffling and tagging

The messages of the other servers are checked on their own, but the root took
whatever number of tags or rows came back: with fewer, it delivered nil points,
with more it accessed elements outside of the list; the service then crashed
when assigning them to its responses.
---
 protocols/deterministic_tagging_protocol.go |  3 +++
 protocols/shuffling+ddt_protocol.go         |  3 +++
 protocols/shuffling_protocol.go             | 14 ++++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index 99edfb6..6323f60 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -253,6 +253,9 @@ func (p *DeterministicTaggingProtocol) Dispatch() error {
 
 	if p.IsRoot() {
 		detCreatedData := deterministicTaggingTarget.Data
+		if len(detCreatedData) != len(*p.TargetOfSwitch) {
+			return fmt.Errorf("%v tags for %v elements", len(detCreatedData), len(*p.TargetOfSwitch))
+		}
 		TaggedData = make(libunlynx.DeterministCipherVector, len(*p.TargetOfSwitch))
 
 		for i, v := range detCreatedData {
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 9de7ec3..05db74b 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -262,6 +262,9 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 	var taggedData []libunlynx.DeterministCipherVector
 
 	if p.IsRoot() {
+		if err := checkSameShape(shuffledData, *p.TargetData); err != nil {
+			return err
+		}
 		prepareResult := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(PrepareResult)")
 		taggedData = make([]libunlynx.DeterministCipherVector, len(*p.TargetData))
 		size := 0
diff --git a/protocols/shuffling_protocol.go b/protocols/shuffling_protocol.go
index d3c3015..46852fd 100644
--- a/protocols/shuffling_protocol.go
+++ b/protocols/shuffling_protocol.go
@@ -213,6 +213,12 @@ func (p *ShufflingProtocol) Dispatch() error {
 		return err
 	}
 
+	if p.IsRoot() {
+		if err := checkSameShape(shuffleTarget, *p.ShuffleTarget); err != nil {
+			return err
+		}
+	}
+
 	timer := time.Now()
 	shufflingDispatch := libunlynx.StartTimer(p.Name() + "_Shuffling(DISPATCH)")
 
@@ -304,6 +310,14 @@ func checkShuffleTarget(target []libunlynx.CipherVector) error {
 	return nil
 }
 
+// checkSameShape verifies that what came back has the size of what was sent around
+func checkSameShape(result, target []libunlynx.CipherVector) error {
+	if len(result) != len(target) || len(result[0]) != len(target[0]) {
+		return fmt.Errorf("%v rows of %v elements instead of %v rows of %v elements", len(result), len(result[0]), len(target), len(target[0]))
+	}
+	return nil
+}
+
 // Marshal
 //______________________________________________________________________________________________________________________
 
-- 
2.43.0


From 315d9560c7d83fb85168e6016e46430a458d34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 54/55] fix: padding a group's attributes wrote into what
 follows them in the same array

---
 protocols/collective_aggregation_protocol.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index bd1e32f..4475dbe 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -252,12 +252,15 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 
 				if ok {
 					if len(localAggr.AggregatingAttributes) != len(aggr.Fr.AggregatingAttributes) {
-						// pad with the neutral element, so that the sum remains what the aggregation proofs attest
-						encZeros := *libunlynx.NewCipherVector(int(math.Abs(float64(len(localAggr.AggregatingAttributes) - len(aggr.Fr.AggregatingAttributes)))))
+						// pad with the neutral element, so that the sum remains what the aggregation proofs attest (in a
+						// new vector: what follows in the array of the local one is not ours)
+						padded := *libunlynx.NewCipherVector(int(math.Max(float64(len(localAggr.AggregatingAttributes)), float64(len(aggr.Fr.AggregatingAttributes)))))
 						if len(localAggr.AggregatingAttributes) > len(aggr.Fr.AggregatingAttributes) {
-							aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
+							copy(padded, aggr.Fr.AggregatingAttributes)
+							aggr.Fr.AggregatingAttributes = padded
 						} else {
-							localAggr.AggregatingAttributes = append(localAggr.AggregatingAttributes, encZeros...)
+							copy(padded, localAggr.AggregatingAttributes)
+							localAggr.AggregatingAttributes = padded
 						}
 					}
 					cv := libunlynx.NewCipherVector(len(localAggr.AggregatingAttributes))
-- 
2.43.0


From 324861f0177c4ae95b02bef86728c0cad7c8dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 55/55] fix: the response added for shuffling a single one was
 written into the caller's array

---
 protocols/tools_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/tools_protocol.go b/protocols/tools_protocol.go
index b882ecb..d5e5fc4 100644
--- a/protocols/tools_protocol.go
+++ b/protocols/tools_protocol.go
@@ -118,7 +118,7 @@ func ProcessResponseToMatrixCipherText(pr []libunlynx.ProcessResponse) ([]libunl
 		for i := range pr[0].AggregatingAttributes {
 			toAddPr.AggregatingAttributes[i] = libunlynx.IntToCipherText(0)
 		}
-		pr = append(pr, toAddPr)
+		pr = []libunlynx.ProcessResponse{pr[0], toAddPr} // not in the array of the given list
 	}
 
 	lengthPr := len(pr)
-- 
2.43.0

