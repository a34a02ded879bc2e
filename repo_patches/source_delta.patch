From 8fb68139a7a93ba66c4f05e87cb273c27360588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 01/37] fix: count repetition levels exactly in the recognizer

IsValid rejected inputs whose repetition minimum exceeds the input length
with a nullable element (a = 3("a" / "") on ""), and stopped a counted
repetition too early when a level revisited positions reached below the
minimum (a = 3*("a" / "aaa") on "aaaa").
---
 recognize.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..91ad06d 100644
--- a/recognize.go
+++ b/recognize.go
@@ -76,16 +76,21 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 
 	// level = positions reachable after exactly c occurrences.
 	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
-
+	// reachElem only moves forward (an end position is >= its start), so once a
+	// step at or above the minimum adds no end position, every later step only
+	// revisits known ones. Breaking there keeps an unbounded repetition over an
+	// element with large reach-sets (e.g. *(1*ALPHA)) at O(n^2); a
+	// len(next)==len(level) test never trips because level shrinks by one each
+	// step ({1..n}, {2..n}, ...), giving O(n^3).
+	//
+	// Beyond one occurrence per remaining byte only empty occurrences can be
+	// added, so the levels no longer change: a larger minimum is met exactly
+	// when this one is.
 	cap := len(r.input) + 2
+	min := rep.Min
+	if min > cap && (rep.Max == inf || rep.Max >= min) {
+		min = cap
+	}
 	for c := 1; c <= cap; c++ {
 		if rep.Max != inf && c > rep.Max {
 			break
@@ -99,21 +104,19 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
-		if c >= rep.Min {
-			for e := range next {
-				ends[e] = true
-			}
+		level = next
+		if c < min {
+			continue
 		}
 		grew := false
 		for e := range next {
-			if !seen[e] {
-				seen[e] = true
+			if !ends[e] {
+				ends[e] = true
 				grew = true
 			}
 		}
-		level = next
-		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
+		// End set closed and the minimum-count requirement met.
+		if !grew {
 			break
 		}
 	}
-- 
2.43.0


From bdd47cdb14e0081e12ab2a51dc340dd1bf601e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:30 +0000
Subject: [PATCH 02/37] fix: do not cache groups and options that read a
 growing seed

Left recursion through a group or an option (s = (s "a") / "a", s = [s] "a")
froze at the first seed, so IsValid rejected valid inputs.
---
 grammar.go   |  1 +
 recognize.go | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..762813a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -34,6 +34,7 @@ func (g *Grammar) IsValid(rulename string, input []byte) (bool, error) {
 		inProgress: map[string]bool{},
 		leftRec:    g.leftRecursiveSCCs(),
 		growing:    map[string]map[int]bool{},
+		growingAt:  map[int]int{},
 	}
 	ends := r.reachElem(ElemRulename{Name: rulename}, 0)
 	return ends[len(input)], nil
diff --git a/recognize.go b/recognize.go
index 91ad06d..b45e844 100644
--- a/recognize.go
+++ b/recognize.go
@@ -31,6 +31,8 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+	// growingAt counts the SCCs being grown at each index.
+	growingAt map[int]int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -146,11 +148,20 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	r.inProgress[key] = true
 	out := r.computeElem(elem, index)
 	delete(r.inProgress, key)
-	// Safe to cache: a rule reached here either is independent of any actively
-	// growing seed, or is itself a growing SCC member (handled by reachLeftRec
-	// via r.growing, not this path). A lower left-corner SCC cannot reference
-	// the SCC growing above it -- they would be one SCC -- so its result is
-	// stable. Caching nested SCCs is what keeps left recursion polynomial.
+	// A group or option met while a seed grows at this very index may read that
+	// seed, so its result is provisional: caching it would freeze the growth.
+	switch elem.(type) {
+	case ElemGroup, ElemOption:
+		if r.growingAt[index] > 0 {
+			return out
+		}
+	}
+	// Otherwise safe to cache: a rule reached here either is independent of any
+	// actively growing seed, or is itself a growing SCC member (handled by
+	// reachLeftRec via r.growing, not this path). A lower left-corner SCC cannot
+	// reference the SCC growing above it -- they would be one SCC -- so its
+	// result is stable. Caching nested SCCs is what keeps left recursion
+	// polynomial.
 	r.memo[key] = cloneSet(out)
 	return out
 }
@@ -176,6 +187,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		keys[i] = x + sidx
 		r.growing[keys[i]] = map[int]bool{}
 	}
+	r.growingAt[index]++
 	for changed := true; changed; {
 		changed = false
 		for i, x := range scc {
@@ -198,6 +210,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 	// outer growing seed (the SCC only re-references its own members, held in
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
 	// they can be memoized unconditionally.
+	r.growingAt[index]--
 	var result map[int]bool
 	for i, x := range scc {
 		v := r.growing[keys[i]]
-- 
2.43.0


From bc4bbfdff11a23d89155c44407b5eb15d1fcb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:30 +0000
Subject: [PATCH 03/37] fix: number visited nodes from one in Tarjan's
 algorithm

The first visited node got index 0, which also means unvisited: an edge back
to it visited it twice and reported a second, truncated component, depending
on map order. IsValid could then panic or answer wrongly on mutually
left-recursive rules.
---
 dag.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 4d004e4..ded7455 100644
--- a/dag.go
+++ b/dag.go
@@ -194,10 +194,11 @@ func (c *cycle) find() {
 }
 
 func (c *cycle) strongconnect(v *node) {
-	// Set the depth index for v to the smallest unused index
+	// Set the depth index for v to the smallest unused index, from 1 on as
+	// 0 means that the node has not been visited yet
+	c.index++
 	v.index = c.index
 	v.lowlink = c.index
-	c.index++
 	c.stack = append(c.stack, v)
 	v.onStack = true
 
-- 
2.43.0


From 830a6c6c1e7913ed823cd663edbac03df4699437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:31 +0000
Subject: [PATCH 04/37] fix: a rule referencing itself makes IsDAG false

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index ded7455..3662150 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,10 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A component of a single rule is still a cycle if it references itself
+		if slices.Contains(sccs[0].Dependencies, strings.ToLower(sccs[0].Rulename)) {
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0


From 5bc2cbab3a61651ff0802e22ee9d656214ef7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 05/37] fix: keep case sensitivity when printing a char-val

ElemCharVal.String dropped the RFC 7405 %s marker: printed grammars lost it,
and the engines, which key elements by their text, confused %s"a" with "a".
---
 abnf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..6f1d1ce 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,10 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		// RFC 7405: a quoted string is case-insensitive unless marked
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From 167730b7d4b34455053c9ab21ff4d6e7f9b0038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:42 +0000
Subject: [PATCH 06/37] fix: let groups and options be re-entered while a rule
 they contain grows

A group met first outside the growth of the left-recursive rule it starts with
was cut to the empty set when that growth met it again, and the truncated
result was cached for the rule.
---
 recognize.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/recognize.go b/recognize.go
index b45e844..eaa1dc8 100644
--- a/recognize.go
+++ b/recognize.go
@@ -139,15 +139,20 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
-	if r.inProgress[key] {
-		// Re-entry at the same position == non-progressing recursion in a rule
-		// not flagged left-recursive. Return empty (defense-in-depth) instead of
-		// looping forever.
-		return map[int]bool{}
+	// A group or option may legitimately be met again at the same position, from
+	// within the growth of a left-recursive rule it contains; that inner visit
+	// then reads the seed and terminates. Only rules are guarded.
+	if _, isRule := elem.(ElemRulename); isRule {
+		if r.inProgress[key] {
+			// Re-entry at the same position == non-progressing recursion in a
+			// rule not flagged left-recursive. Return empty (defense-in-depth)
+			// instead of looping forever.
+			return map[int]bool{}
+		}
+		r.inProgress[key] = true
+		defer delete(r.inProgress, key)
 	}
-	r.inProgress[key] = true
 	out := r.computeElem(elem, index)
-	delete(r.inProgress, key)
 	// A group or option met while a seed grows at this very index may read that
 	// seed, so its result is provisional: caching it would freeze the growth.
 	switch elem.(type) {
-- 
2.43.0


From df5ddfc0df50b27ee566d80ec2887aed5602e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:03 +0000
Subject: [PATCH 07/37] fix: keep identical alternatives apart in the parse
 forest

Two alternatives deriving the same children (s = "a" / "a") were merged into
one packing, so Forest.NumTrees and Ambiguous disagreed with the BSR.
---
 sppf.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..e5f1b3b 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,12 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // alternate each pack derives from, for gSymbol
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for pi, p := range n.packs {
+		if n.packAlts[pi] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +267,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +418,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From f437a2d22a6eed44433e691a7ae74a50e45f324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:46 +0000
Subject: [PATCH 08/37] fix: tell apart remainders of a counted repetition by
 their count

Forest nodes and BSR elements of a counted repetition were shared between
different repetition counts, so trees could have too few or too many
occurrences and NumTrees was wrong: 2*3("a" / "aa") on "aaaa" counted 5
instead of 4, and 3("a" / "") on "" was infinite.
---
 bsr.go  | 130 +++++++++++++++++++++++++++++---------------------------
 sppf.go |  36 ++++++++++------
 2 files changed, 90 insertions(+), 76 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..a416beb 100644
--- a/bsr.go
+++ b/bsr.go
@@ -27,8 +27,13 @@ import (
 // bsrElem is one binary subtree element. The slot's dot is "just past" the most
 // recently consumed symbol; that symbol spans [k,r] and the earlier prefix spans
 // [l,k]. A complete production (dot == len) records the nonterminal's extent.
+//
+// rc is the repetition count of the production's frame (0 outside a counted
+// repetition): how a span may be completed depends on how many occurrences
+// precede it.
 type bsrElem struct {
 	slot    slot
+	rc      int
 	l, k, r int
 }
 
@@ -89,14 +94,14 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, rc, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, rc, l, k, r}] = true
 	}
 }
 
@@ -106,7 +111,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, rc, u.pos, i, j)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +127,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, u.rc, v.pos, u.pos, j)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -223,11 +228,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			ret := slot{L.nt, L.alt, L.dot + 1}
 			v := p.create(ret, u, i, rc)
 			if p.sg.nts[s.nt].isRep {
-				childRC := 0
-				if s.nt == L.nt {
-					childRC = capRC(rc, p.sg.nts[s.nt])
-				}
-				p.addRepAlts(s.nt, v, i, childRC)
+				p.addRepAlts(s.nt, v, i, p.sg.childRC(L.nt, rc, s.nt))
 			} else {
 				for ai := range p.sg.nts[s.nt].alts {
 					p.add(slot{s.nt, ai, 0}, v, i, 0)
@@ -240,7 +241,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, rc, u.pos, i, j)
 		i = j
 		L = next
 	}
@@ -257,20 +258,21 @@ type BSRForest struct {
 	input    []byte
 	rulename string
 	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,l,r) -> pivots k
+	index    map[bsrKey][]int // (slot,rc,l,r) -> pivots k
 	start    int
 	n        int
 }
 
 type bsrKey struct {
 	slot slot
+	rc   int
 	l, r int
 }
 
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.rc, e.l, e.r}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +282,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, 0, f.n}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +293,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, 0, f.n}]) > 0 {
 			return true
 		}
 	}
@@ -306,6 +308,7 @@ type bsrNodeID struct {
 	inter bool
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
+	rc    int  // repetition count of the frame
 	l, r  int
 }
 
@@ -320,35 +323,35 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
+	var symWays func(s ssym, parent, rc, a, b int) *big.Int
+	var countSym func(nt, rc, l, r int) *big.Int
+	var countInter func(sl slot, rc, l, r int) *big.Int
+	var countElem func(sl slot, rc, l, k, r int) *big.Int
 
-	symWays = func(s ssym, a, b int) *big.Int {
+	symWays = func(s ssym, parent, rc, a, b int) *big.Int {
 		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, f.sg.childRC(parent, rc, s.nt), a, b)
 		}
 		return big.NewInt(1) // terminal / eps leaf
 	}
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, rc, l, k, r int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		last := symWays(prod[sl.dot-1], k, r)
+		last := symWays(prod[sl.dot-1], sl.nt, rc, k, r)
 		var pre *big.Int
 		switch sl.dot {
 		case 1: // empty prefix (l == k)
 			pre = big.NewInt(1)
 		case 2: // single-symbol prefix
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], sl.nt, rc, l, k)
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, rc, l, k)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, rc, l, r int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, rc: rc, l: l, r: r}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +361,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+			total.Add(total, countElem(sl, rc, l, k, r))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, rc, l, r int) *big.Int {
+		id := bsrNodeID{nt: nt, rc: rc, l: l, r: r}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +382,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+				total.Add(total, countElem(sl, rc, l, k, r))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +391,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, 0, f.n)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,49 +405,49 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, rc, l, r int) bool
+	var interAmb func(sl slot, rc, l, r int) bool
+	var elemAmb func(sl slot, rc, l, k, r int) bool
 
-	symOf := func(s ssym, a, b int) bool {
+	symOf := func(s ssym, parent, rc, a, b int) bool {
 		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, f.sg.childRC(parent, rc, s.nt), a, b)
 		}
 		return false
 	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, rc, l, k, r int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		if symOf(prod[sl.dot-1], k, r) {
+		if symOf(prod[sl.dot-1], sl.nt, rc, k, r) {
 			return true
 		}
 		switch sl.dot {
 		case 1:
 			return false
 		case 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], sl.nt, rc, l, k)
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, rc, l, k)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, rc, l, r int) bool {
+		id := bsrNodeID{inter: true, slot: sl, rc: rc, l: l, r: r}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, rc, l, r}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, rc, l, k, r) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, rc, l, r int) bool {
+		id := bsrNodeID{nt: nt, rc: rc, l: l, r: r}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +455,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, rc, l, r}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +463,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+				if elemAmb(sl, rc, l, k, r) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, 0, f.n)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +493,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, 0, l, k, r, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -501,25 +504,25 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 
 // collectElem appends the children of element (sl,l,k,r) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, rc, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(prod[0], sl.nt, rc, l, k, out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, rc, l, k}]; len(ks) > 0 {
+			f.collectElem(isl, rc, l, ks[0], k, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(prod[sl.dot-1], sl.nt, rc, k, r, out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(s ssym, parent, rc, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +530,8 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	crc := f.sg.childRC(parent, rc, s.nt)
+	id := bsrNodeID{nt: s.nt, rc: crc, l: a, r: b}
 	if visited[id] {
 		return
 	}
@@ -535,15 +539,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, crc, a, b}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, crc, a, ks[0], b, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, crc, a, ks[0], b, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index e5f1b3b..fb92372 100644
--- a/sppf.go
+++ b/sppf.go
@@ -321,12 +321,15 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,rc,start,end); intermediate nodes on
+// (kind,L,start,end); terminal nodes on (kind,start,end). rc tells apart the
+// remainders of a counted repetition: how a span may be completed depends on how
+// many occurrences precede it.
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
 	L          slot
+	rc         int
 	start, end int
 }
 
@@ -362,7 +365,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -378,7 +381,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -399,8 +402,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L,
+// in a frame at repetition count rc (0 outside a counted repetition).
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -412,7 +416,7 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	var k nodeKey
 	if betaEmpty {
-		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		k = nodeKey{kind: gSymbol, nt: L.nt, rc: rc, start: start, end: z.End}
 	} else {
 		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
 	}
@@ -528,11 +532,7 @@ func (p *gllParser) process(d descriptor) {
 				// Native counted repetition: a self-reference inside the rep's own
 				// loop alternate continues the chain (count+1); any other reference
 				// starts a fresh chain at count 0.
-				childRC := 0
-				if s.nt == L.nt {
-					childRC = capRC(rc, p.sg.nts[s.nt])
-				}
-				p.addRepAlts(s.nt, v, i, childRC)
+				p.addRepAlts(s.nt, v, i, p.sg.childRC(L.nt, rc, s.nt))
 			} else {
 				for ai := range p.sg.nts[s.nt].alts {
 					p.add(slot{s.nt, ai, 0}, v, i, nil, 0)
@@ -547,7 +547,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
@@ -592,6 +592,16 @@ func capRC(rc int, nt *sgNT) int {
 	return next
 }
 
+// childRC returns the repetition count nonterminal child starts at when it is
+// referenced from a production of parent in a frame at count rc: a repetition
+// referencing itself continues its chain, anything else starts afresh.
+func (sg *slotGrammar) childRC(parent, rc, child int) int {
+	if nt := sg.nts[child]; nt.isRep && child == parent {
+		return capRC(rc, nt)
+	}
+	return 0
+}
+
 // addRepAlts seeds the two alternates of a repetition nonterminal, gated by the
 // current count rc: it may stop (alt 0) only once the minimum is met, and may
 // consume another element (alt 1) only while under the maximum. This enforces
-- 
2.43.0


From 626108d505152e90587663c18d8b79996f3394a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:46 +0000
Subject: [PATCH 09/37] fix: emit compilable code for terminals and calls that
 never match

A prose-val, a num-val series outside Unicode, an undefined rule or an
unsatisfiable repetition left an undeclared or unused variable in the generated
parser.
---
 codegen.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/codegen.go b/codegen.go
index 39129e9..16c3cea 100644
--- a/codegen.go
+++ b/codegen.go
@@ -169,8 +169,13 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 }
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
-	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	ci := c.sg.nts[callee]
+	if len(ci.alts) == 0 {
+		// undefined rule or unsatisfiable repetition: derives nothing.
+		b.WriteString("\t\t\treturn\n")
+		return
+	}
+	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	if ci.isRep {
 		if callee == s.nt {
 			// self-recursion inside the rep's own loop: continue the chain.
@@ -208,14 +213,17 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		return
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It returns false if the terminal never matches, in which case only the
+// return is emitted.
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
@@ -230,13 +238,16 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
 		case StatSeries:
-			c.emitSeries(b, v)
+			return c.emitSeries(b, v)
 		default:
 			b.WriteString("\t\t\treturn\n")
+			return false
 		}
 	default: // prose-val: never matches
 		b.WriteString("\t\t\treturn\n")
+		return false
 	}
+	return true
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +287,20 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
 			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From c8bcc3d13a01a7cd56e6ae46e55c8d8b8ec43bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 10/37] fix: generated parsers report ErrTooLarge when the last
 step hits the bound

---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index 16c3cea..3b7f9be 100644
--- a/codegen.go
+++ b/codegen.go
@@ -897,6 +897,9 @@ func Parse(input []byte) (*Result, error) {
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From b108971d532d2b49320d3feeb8d10115add20671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:12 +0000
Subject: [PATCH 11/37] fix: generated parsers tell apart remainders of a
 counted repetition by their count

As in ParseBSR, how a span of a repetition may be completed depends on how many
occurrences precede it; without the count NumTrees, Ambiguous and Tree mixed them
up.
---
 codegen.go | 143 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 83 insertions(+), 60 deletions(-)

diff --git a/codegen.go b/codegen.go
index 3b7f9be..b2dd7b3 100644
--- a/codegen.go
+++ b/codegen.go
@@ -209,14 +209,14 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, i)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	if !c.emitMatch(b, sym) { // sets j or returns on failure
 		return
 	}
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -352,7 +352,7 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, isRep: %v, repMin: %d, repMax: %d, alts: ", nt.isRule, nt.ruleName, nt.isRep, nt.repMin, nt.repMax)
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -486,11 +486,17 @@ type qSym struct{ kind, nt int }
 type qNT struct {
 	isRule   bool
 	ruleName string
+	isRep    bool
+	repMin   int
+	repMax   int
 	alts     [][]qSym
 }
 
+// bsrElem is one binary subtree element. rc is the repetition count of the
+// production's frame (0 outside a counted repetition).
 type bsrElem struct {
 	sl      int
+	rc      int
 	l, k, r int
 }
 
@@ -571,14 +577,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, rc, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, rc, l, k, r}] = true
 	}
 }
 
@@ -588,7 +594,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, rc, u.pos, i, j)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -604,7 +610,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, u.rc, v.pos, u.pos, j)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -623,15 +629,31 @@ type ParseTree struct {
 
 type bsrKey struct {
 	sl   int
+	rc   int
 	l, r int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
+	rc   int // repetition count of the frame
 	l, r int
 }
 
+// childRC is the repetition count of a call to nonterminal nt made by nonterminal
+// parent at count rc: a repetition continuing its own loop counts one more
+// occurrence (up to repMin if unbounded), anything else starts at zero.
+func childRC(parent, rc, nt int) int {
+	if nt != parent || !qNTs[nt].isRep {
+		return 0
+	}
+	rc++
+	if qNTs[nt].repMax == inf && rc > qNTs[nt].repMin {
+		rc = qNTs[nt].repMin
+	}
+	return rc
+}
+
 // Result holds the BSR set for a parse and answers queries over it.
 type Result struct {
 	input []byte
@@ -646,7 +668,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.rc, e.l, e.r}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -655,7 +677,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, 0, r.n}]) > 0 {
 			return true
 		}
 	}
@@ -674,34 +696,34 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var symWays func(s qSym, parent, rc, a, b int) *big.Int
+	var countSym func(nt, rc, l, rr int) *big.Int
+	var countInter func(sl, rc, l, rr int) *big.Int
+	var countElem func(sl, rc, l, k, rr int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
+	symWays = func(s qSym, parent, rc, a, b int) *big.Int {
 		if s.kind == kNT {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, childRC(parent, rc, s.nt), a, b)
 		}
 		return big.NewInt(1)
 	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, rc, l, k, rr int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		last := symWays(prod[si.dot-1], k, rr)
+		last := symWays(prod[si.dot-1], si.nt, rc, k, rr)
 		var pre *big.Int
 		switch {
 		case si.dot == 1:
 			pre = big.NewInt(1)
 		case si.dot == 2:
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], si.nt, rc, l, k)
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, rc, l, k)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, rc, l, rr int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, rc: rc, l: l, r: rr}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -711,15 +733,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+			total.Add(total, countElem(sl, rc, l, k, rr))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, rc, l, rr int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, rc: rc, l: l, r: rr}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -730,15 +752,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+				total.Add(total, countElem(sl, rc, l, k, rr))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, 0, r.n)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -751,71 +773,71 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
+	var symAmb func(nt, rc, l, rr int) bool
+	var interAmb func(sl, rc, l, rr int) bool
+	var elemAmb func(sl, rc, l, k, rr int) bool
+	var symOf func(s qSym, parent, rc, a, b int) bool
+	symOf = func(s qSym, parent, rc, a, b int) bool {
 		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, childRC(parent, rc, s.nt), a, b)
 		}
 		return false
 	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	elemAmb = func(sl, rc, l, k, rr int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		if symOf(prod[si.dot-1], k, rr) {
+		if symOf(prod[si.dot-1], si.nt, rc, k, rr) {
 			return true
 		}
 		switch {
 		case si.dot == 1:
 			return false
 		case si.dot == 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], si.nt, rc, l, k)
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, rc, l, k)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, rc, l, rr int) bool {
+		id := nodeID{sl: sl, nt: -1, rc: rc, l: l, r: rr}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, rc, l, rr}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, rc, l, k, rr) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, rc, l, rr int) bool {
+		id := nodeID{sl: -1, nt: nt, rc: rc, l: l, r: rr}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, rc, l, rr}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+				if elemAmb(sl, rc, l, k, rr) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, 0, r.n)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -825,31 +847,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, 0, r.n}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, 0, ks[0], r.n, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, rc, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(prod[0], si.nt, rc, l, k, out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, rc, l, k}]; len(ks) > 0 {
+			r.collectElem(sl-1, rc, l, ks[0], k, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(prod[si.dot-1], si.nt, rc, k, rr, out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(s qSym, parent, rc, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -857,19 +879,20 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	crc := childRC(parent, rc, s.nt)
+	id := nodeID{sl: -1, nt: s.nt, rc: crc, l: a, r: b}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, crc, a, b}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, crc, a, ks[0], b, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, crc, a, ks[0], b, out, visited)
 			}
 			visited[id] = false
 			return
-- 
2.43.0


From 4a0945564802bf05dfa034be020719e63f7a5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:22 +0000
Subject: [PATCH 12/37] fix: a BSR set that fits its bound exactly is not too
 large

Recording an element again does not grow the set.
---
 bsr.go     | 5 +++--
 codegen.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bsr.go b/bsr.go
index a416beb..829dd26 100644
--- a/bsr.go
+++ b/bsr.go
@@ -97,11 +97,12 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 func (p *bsrParser) record(L slot, rc, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
-		if p.maxElems > 0 && len(p.set) >= p.maxElems {
+		e := bsrElem{L, rc, l, k, r}
+		if p.maxElems > 0 && len(p.set) >= p.maxElems && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, rc, l, k, r}] = true
+		p.set[e] = true
 	}
 }
 
diff --git a/codegen.go b/codegen.go
index b2dd7b3..feeb6d9 100644
--- a/codegen.go
+++ b/codegen.go
@@ -580,11 +580,12 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 func (p *parser) record(L, rc, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
-		if MaxElements > 0 && len(p.set) >= MaxElements {
+		e := bsrElem{L, rc, l, k, r}
+		if MaxElements > 0 && len(p.set) >= MaxElements && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, rc, l, k, r}] = true
+		p.set[e] = true
 	}
 }
 
-- 
2.43.0


From 9d152f251139fc8bfec1e14e930de76e7b40a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:55 +0000
Subject: [PATCH 13/37] fix: do not read =/ in the comments of a rule
 definition

A comment between the rule name and its elements containing =/ turned the
definition into an incremental alternative.
---
 grammar.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 762813a..5abb9da 100644
--- a/grammar.go
+++ b/grammar.go
@@ -201,10 +201,13 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	if nameNode == nil || defNode == nil || elemsNode == nil {
 		return nil, "", ErrNoSolutionFound
 	}
-	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
-		definedAs = "=/"
+	// The operator is the only terminal of defined-as, the rest of its span being
+	// whitespaces and comments (in which anything can be written).
+	opNode := ptFirst(defNode, "")
+	if opNode == nil {
+		return nil, "", ErrNoSolutionFound
 	}
+	definedAs := e.span(opNode)
 	altNode := ptFirst(elemsNode, "alternation")
 	if altNode == nil {
 		return nil, "", ErrNoSolutionFound
-- 
2.43.0


From 942d33778d1e02e822e27bf6515ae81725f60b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:27 +0000
Subject: [PATCH 14/37] fix: a redefined core rule can't be defined twice

Under WithRedefineCoreRules the last definition won, or one picked at random when
the names were spelled differently.
---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 5abb9da..d850f7b 100644
--- a/grammar.go
+++ b/grammar.go
@@ -170,11 +170,10 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 		switch definedAs {
 		case "=":
 			isCoreRule := GetRule(rl.Name, nil) != nil
-			if isCoreRule {
-				if !e.o.redefineCore {
-					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
-				}
-			} else if GetRule(rl.Name, mp) != nil {
+			if !e.o.redefineCore && isCoreRule {
+				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From 02979f98e6657df291dd5702987f8ab69dc92f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 15/37] fix: extending a core rule does not modify it for every
 grammar

Under WithRedefineCoreRules an incremental alternative of a core rule that the
grammar does not define was appended to the package's own core rule.
---
 grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index d850f7b..7ac656a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -186,8 +186,13 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
-			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
-			mp[rule.Name] = rule
+			// Extend a copy, as the rule may be a core one shared by all grammars
+			mp[rule.Name] = &Rule{
+				Name: rule.Name,
+				Alternation: Alternation{
+					Concatenations: slices.Concat(rule.Alternation.Concatenations, rl.Alternation.Concatenations),
+				},
+			}
 		}
 	}
 	return &Grammar{Rulemap: mp}, nil
-- 
2.43.0


From d339d9525f1a7527f4ea5bb63000f280e537feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 16/37] fix: locate parse errors past a complete match

When nothing could be tried at the furthest position reached, the ParseError
pointed at an earlier offset, e.g. at the beginning for xy given a = "x".
---
 sppf.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sppf.go b/sppf.go
index fb92372..0b11788 100644
--- a/sppf.go
+++ b/sppf.go
@@ -311,8 +311,8 @@ type gllParser struct {
 	maxNodes int
 	aborted  bool
 
-	// Furthest-failure diagnostics: maxPos is the deepest input offset at which
-	// a terminal match was attempted and failed; expected collects the terminals
+	// Furthest-failure diagnostics: maxPos is the deepest input offset the
+	// parser consumed the input up to; expected collects the terminals
 	// that could have been consumed there (deduplicated via expectedSeen). They
 	// drive ParseError when the parse has no solution.
 	maxPos       int
@@ -545,6 +545,7 @@ func (p *gllParser) process(d descriptor) {
 			p.noteFail(i, s)
 			return
 		}
+		p.noteReach(j)
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
 		w = p.getNodeP(next, w, cR, rc)
@@ -553,16 +554,22 @@ func (p *gllParser) process(d descriptor) {
 	}
 }
 
-// noteFail records that a terminal match failed at input offset i. It maintains
-// the furthest such offset and, for that offset only, the set of terminals that
-// could have been consumed -- the classic "furthest-failure" position used to
-// report where parsing got stuck.
-func (p *gllParser) noteFail(i int, s ssym) {
+// noteReach records that the input was consumed up to offset i, be there a
+// terminal to try from there on or not (e.g. input left after a complete match).
+func (p *gllParser) noteReach(i int) {
 	if i > p.maxPos {
 		p.maxPos = i
 		p.expected = p.expected[:0]
 		p.expectedSeen = nil
 	}
+}
+
+// noteFail records that a terminal match failed at input offset i. It maintains
+// the furthest such offset and, for that offset only, the set of terminals that
+// could have been consumed -- the classic "furthest-failure" position used to
+// report where parsing got stuck.
+func (p *gllParser) noteFail(i int, s ssym) {
+	p.noteReach(i)
 	if i != p.maxPos {
 		return
 	}
-- 
2.43.0


From e7bf3340fdbe5ec95bcb792778b8ba460307361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:21 +0000
Subject: [PATCH 17/37] fix: Regex refuses rules that reach an undefined one

The reference was compiled to the empty string, hence the pattern matched words
out of the language.
---
 regex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex.go b/regex.go
index b3d49b2..9c323b8 100644
--- a/regex.go
+++ b/regex.go
@@ -134,6 +134,9 @@ func (b *reBuilder) rule(name string) reNode {
 	}
 	r := GetRule(name, b.g.Rulemap)
 	if r == nil {
+		if b.err == nil {
+			b.err = &ErrDependencyNotFound{Rulename: name}
+		}
 		return reEmptyV
 	}
 	n := b.alt(r.Alternation)
-- 
2.43.0


From 01775b79fe084579977ec2987b11cb8f22b6efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 18/37] fix: Regex does not turn a surrogate into U+FFFD

A range of a single surrogate matches nothing but was rendered as the replacement
character.
---
 regex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex.go b/regex.go
index 9c323b8..5b0b257 100644
--- a/regex.go
+++ b/regex.go
@@ -180,6 +180,11 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 			if lo > utf8.MaxRune || lo > hi {
 				return reNeverV
 			}
+			// Surrogates are no characters, so nothing matches a range of them.
+			// They can't be rendered as a literal either.
+			if lo >= 0xD800 && hi <= 0xDFFF {
+				return reNeverV
+			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
 		default: // StatSeries is a CONCATENATION of values (a fixed sequence).
 			parts := make([]reNode, 0, len(v.Elems))
-- 
2.43.0


From 847223247f57be4b53b406516d584fa5b4ed3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 19/37] fix: Regex compiles unsatisfiable repetition bounds to
 no match

Without validation, a repetition with min > max gave an invalid pattern or, for an
empty element, one that matches.
---
 regex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/regex.go b/regex.go
index 5b0b257..9851b13 100644
--- a/regex.go
+++ b/regex.go
@@ -155,7 +155,11 @@ func (b *reBuilder) alt(a Alternation) reNode {
 func (b *reBuilder) concat(c Concatenation) reNode {
 	parts := make([]reNode, 0, len(c.Repetitions))
 	for _, rep := range c.Repetitions {
-		parts = append(parts, &reRepeat{sub: b.elem(rep.Element), min: rep.Min, max: rep.Max})
+		sub := b.elem(rep.Element)
+		if rep.Max != inf && rep.Min > rep.Max {
+			sub = reNeverV // unsatisfiable bounds match nothing
+		}
+		parts = append(parts, &reRepeat{sub: sub, min: rep.Min, max: rep.Max})
 	}
 	return &reConcat{parts: parts}
 }
-- 
2.43.0


From 065c5ff172188c27efec951c953821e424013cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:31 +0000
Subject: [PATCH 20/37] fix: ASTGenerator never emits what can't match and
 always terminates

Prose-vals, num-vals that denote no character and repetitions whose minimum
exceeds their maximum were emitted as nothing, and surrogates as U+FFFD, so the
production was no word of the rule. Large bounds over elements that can be
empty, and recursion through rules that produce nothing, ran (nearly) forever.
---
 ast.go   | 139 ++++++++++++++++++++++++++++++++++++++++++-------------
 utils.go |  47 +++++++++++++++++++
 2 files changed, 154 insertions(+), 32 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..c0c5ef0 100644
--- a/ast.go
+++ b/ast.go
@@ -3,7 +3,6 @@ package goabnf
 import (
 	"fmt"
 	"math/rand"
-	"unicode/utf8"
 )
 
 // Generates strings by recursive descent over the grammar AST, so unlike the*
@@ -22,6 +21,11 @@ import (
 
 const astUnbounded = 1 << 30 // "infinite" min-length sentinel (non-productive)
 
+// astIdleMax is how many rules may be expanded in a row without any output
+// before steering to terminate: neither the depth nor the length budget bounds
+// the work of expanding rules that produce nothing.
+const astIdleMax = 1 << 12
+
 // ASTGenerator generates strings admitted by a (possibly recursive) grammar
 // rule, directly from the AST.
 type ASTGenerator struct {
@@ -91,6 +95,13 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 		o.apply(ag)
 	}
 
+	ag.computeMinCost()
+	return ag.checkGeneratable(rule)
+}
+
+// computeMinCost fills the minimum expansion cost of every rule.
+func (ag *ASTGenerator) computeMinCost() {
+	g := ag.g
 	// Least-fixpoint of minimum expansion cost over every rule reachable in
 	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
 	// which GetRule resolves as a fallback but which are absent from Rulemap.
@@ -121,6 +132,11 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 		}
 	}
 
+}
+
+// checkGeneratable returns the generator itself unless its rule can't be generated.
+func (ag *ASTGenerator) checkGeneratable(rule string) (*ASTGenerator, error) {
+	g, start := ag.g, ag.start
 	// Every rule reachable from start must be defined and productive.
 	seen := map[string]bool{start.Name: true}
 	var visitAlt func(Alternation) error
@@ -178,19 +194,30 @@ func (ag *ASTGenerator) GenerateRand(r *rand.Rand) []byte {
 }
 
 func (ag *ASTGenerator) walk(src source) []byte {
-	out := []byte{}
+	out := astOutput{}
 	ag.genAlt(src, &out, ag.start.Alternation, 0)
-	return out
+	return append([]byte{}, out.bytes...)
+}
+
+// astOutput is what a walk produced so far.
+type astOutput struct {
+	bytes []byte
+	idle  int // rules expanded since the last output
+}
+
+func (out *astOutput) emit(r rune) {
+	out.bytes = append(out.bytes, string(r)...)
+	out.idle = 0
 }
 
 // over reports whether we should stop taking expansions for their own sake and
 // steer toward the nearest terminal string.
-func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
-	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
+func (ag *ASTGenerator) over(out *astOutput, depth int) bool {
+	return depth >= ag.maxDepth || len(out.bytes) >= ag.maxLen || out.idle >= astIdleMax
 }
 
-func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
-	cs := alt.Concatenations
+func (ag *ASTGenerator) genAlt(src source, out *astOutput, alt Alternation, depth int) {
+	cs := ag.liveConcats(alt)
 	if len(cs) == 0 {
 		return
 	}
@@ -203,43 +230,52 @@ func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth i
 	ag.genConcat(src, out, cs[idx], depth)
 }
 
-func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation, depth int) {
+func (ag *ASTGenerator) genConcat(src source, out *astOutput, concat Concatenation, depth int) {
 	for _, rep := range concat.Repetitions {
 		ag.genRep(src, out, rep, depth)
 	}
 }
 
-func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
+func (ag *ASTGenerator) genRep(src source, out *astOutput, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
-	if hi == inf || hi < lo { // unbounded: cap the optional unrolling
+	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
+	if lo == 0 && ag.deadElem(rep.Element) {
+		return // it can only occur zero times
+	}
 	n := lo
 	if !ag.over(out, depth) && hi > lo {
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
+		before := len(out.bytes)
 		ag.genElem(src, out, rep.Element, depth)
+		// An element that can be empty can be for the remaining times too.
+		if len(out.bytes) == before {
+			break
+		}
 		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && len(*out) >= ag.maxLen {
+		if i+1 >= lo && len(out.bytes) >= ag.maxLen {
 			break
 		}
 	}
 }
 
-func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int) {
+func (ag *ASTGenerator) genElem(src source, out *astOutput, elem ElemItf, depth int) {
 	switch e := elem.(type) {
 	case ElemRulename:
 		// Guaranteed defined+productive by NewASTGenerator.
 		r := GetRule(e.Name, ag.g.Rulemap)
+		out.idle++
 		ag.genAlt(src, out, r.Alternation, depth+1)
 
 	case ElemGroup:
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && src.intn(2) == 1 {
+		if !ag.over(out, depth) && len(ag.liveConcats(e.Alternation)) != 0 && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
@@ -248,39 +284,72 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if !e.Sensitive && isASCIILetter(r) && src.intn(2) == 1 {
 				r = flipASCIICase(r)
 			}
-			*out = append(*out, []byte(string(r))...)
+			out.emit(r)
 		}
 
 	case ElemNumVal:
 		switch e.Status {
 		case StatSeries:
+			// Only real characters here: an out-of-range value cannot appear in
+			// UTF-8 input, so such a series never matches and is never taken.
 			for _, v := range e.Elems {
-				r := numvalToRune(v, e.Base)
-				// Emit only real characters; an out-of-range value cannot appear
-				// in UTF-8 input, so the series would never match anyway.
-				if utf8.ValidRune(r) {
-					*out = append(*out, []byte(string(r))...)
-				}
+				out.emit(numvalToRune(v, e.Base))
 			}
 		case StatRange:
 			min, max := numvalToRune(e.Elems[0], e.Base), numvalToRune(e.Elems[1], e.Base)
 			// Emit within the representable (Unicode) subset of the range.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				break // nothing representable to emit
-			}
-			span := int(max-min) + 1
-			if span < 1 {
-				span = 1
+			out.emit(runeAt(min, int32(src.intn(int(runeSpan(min, max))))))
+		}
+
+		// prose-val is informal text; nothing mechanical to emit, hence it is
+		// never taken.
+	}
+}
+
+// liveConcats returns the concatenations of an alternation that can be emitted.
+func (ag *ASTGenerator) liveConcats(alt Alternation) []Concatenation {
+	cs := alt.Concatenations
+	for i := range cs {
+		if !ag.deadConcat(cs[i]) {
+			continue
+		}
+		live := append([]Concatenation{}, cs[:i]...)
+		for _, c := range cs[i+1:] {
+			if !ag.deadConcat(c) {
+				live = append(live, c)
 			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
 		}
+		return live
+	}
+	return cs
+}
+
+func (ag *ASTGenerator) deadConcat(concat Concatenation) bool {
+	for _, rep := range concat.Repetitions {
+		switch {
+		case rep.Max != inf && rep.Max < rep.Min:
+			return true
+		case rep.Min == 1 && ag.deadElem(rep.Element):
+			return true
+		case rep.Min > 1 && mulClamp(rep.Min, ag.costElem(rep.Element)) >= astUnbounded:
+			return true
+		}
+	}
+	return false
+}
 
+// deadElem reports whether an element can never be emitted. Rules always can,
+// as checked by NewASTGenerator.
+func (ag *ASTGenerator) deadElem(elem ElemItf) bool {
+	switch e := elem.(type) {
+	case ElemGroup:
+		return len(ag.liveConcats(e.Alternation)) == 0
+	case ElemNumVal:
+		return !numvalMatchable(e)
 	case ElemProseVal:
-		// prose-val is informal text; nothing mechanical to emit.
+		return true
 	}
+	return false
 }
 
 // cheapestConcat returns the index of the concatenation with the smallest
@@ -313,6 +382,9 @@ func (ag *ASTGenerator) costAlt(alt Alternation) int {
 func (ag *ASTGenerator) costConcat(concat Concatenation) int {
 	total := 0
 	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Max < rep.Min {
+			return astUnbounded
+		}
 		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
 	}
 	return total
@@ -340,6 +412,9 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 	case ElemCharVal:
 		return len(string(e.Values))
 	case ElemNumVal:
+		if !numvalMatchable(e) {
+			return astUnbounded
+		}
 		switch e.Status {
 		case StatSeries:
 			n := 0
@@ -351,7 +426,7 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 			return len(string(numvalToRune(e.Elems[0], e.Base)))
 		}
 	case ElemProseVal:
-		return 0
+		return astUnbounded
 	}
 	return 0
 }
diff --git a/utils.go b/utils.go
index dcc9e6d..1bd5340 100644
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // int32ToNumval converts an integer value into its numeric-string representation
@@ -75,6 +76,52 @@ func numvalToRune(str, base string) rune {
 	return rune(numvalToInt32(str, base))
 }
 
+// Surrogates are code points that are no characters: UTF-8 can't encode them.
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
+// runeSpan counts the characters (Unicode scalar values) in [lo;hi].
+func runeSpan(lo, hi rune) int32 {
+	hi = min(hi, utf8.MaxRune)
+	if lo > hi {
+		return 0
+	}
+	surrogates := min(hi, surrogateMax) - max(lo, surrogateMin) + 1
+	return hi - lo + 1 - max(surrogates, 0)
+}
+
+// runeAt returns the i-th character of a range starting at lo, jumping over the
+// surrogates.
+func runeAt(lo rune, i int32) rune {
+	if surrogateMin <= lo && lo <= surrogateMax {
+		lo = surrogateMax + 1
+	}
+	r := lo + i
+	if lo < surrogateMin && r >= surrogateMin {
+		r += surrogateMax - surrogateMin + 1
+	}
+	return r
+}
+
+// numvalMatchable reports whether some UTF-8 text matches the num-val. None does
+// when it requires a value that is not a character.
+func numvalMatchable(v ElemNumVal) bool {
+	switch v.Status {
+	case StatRange:
+		return runeSpan(numvalToRune(v.Elems[0], v.Base), numvalToRune(v.Elems[1], v.Base)) > 0
+	case StatSeries:
+		for _, elem := range v.Elems {
+			if !utf8.ValidRune(numvalToRune(elem, v.Base)) {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 // checkBounds enforces the Unicode-range invariant (value <= U+10FFFF). It is
 // the strict-validation path used by SemvalABNF: with validation enabled (the
 // default, and the common textual case) a num-val outside the Unicode range is
-- 
2.43.0


From bfdcf248cb03d866ca88ce113d44de5785cc6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:31 +0000
Subject: [PATCH 21/37] fix: Generate only takes paths that can be generated,
 and ends

It chose alternatives and options with unavoidable recursion (stack overflow),
undefined rules or minimums above its maximum repetition (panics), prose-vals
and num-vals that are no characters (invalid output), and checked the length
threshold only before the first repetition.
---
 generate.go | 181 +++++++++++++++++++---------------------------------
 1 file changed, 67 insertions(+), 114 deletions(-)

diff --git a/generate.go b/generate.go
index 179db93..cfb8a96 100644
--- a/generate.go
+++ b/generate.go
@@ -1,11 +1,7 @@
 package goabnf
 
 import (
-	"errors"
-	"maps"
 	"math/rand"
-	"strings"
-	"unicode/utf8"
 )
 
 // Generate is an experimental feature that consumes a seed for
@@ -19,7 +15,9 @@ import (
 // It is a good capability for testing and fuzzing parsers during
 // testing, compliance, fuzzing or optimization.
 func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption) ([]byte, error) {
-	if err := checkCanGenerateSafely(g, rulename); err != nil {
+	costs := &ASTGenerator{g: g}
+	costs.computeMinCost()
+	if err := checkCanGenerateSafely(g, costs, rulename); err != nil {
 		return nil, err
 	}
 
@@ -38,13 +36,45 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 	// Generate actual content (rule exists, checked first)
 	rule := GetRule(rulename, g.Rulemap)
 	out := []byte{}
-	generateAlt(rand, g, &out, rule.Alternation, options)
+	gen := &generation{g: g, costs: costs}
+	generateAlt(rand, gen, &out, rule.Alternation, options)
 	return out, nil
 }
 
-func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
+// generateWorkMax is how many rules may be expanded freely. Afterwards,
+// generation goes the cheapest way to its end: the length threshold does not
+// bound the work of expanding rules that produce nothing.
+const generateWorkMax = 1 << 14
+
+// generation is the state of a Generate call.
+type generation struct {
+	g     *Grammar
+	costs *ASTGenerator // cost model, tells what can be generated and how cheaply
+	work  int           // rules expanded so far
+}
+
+// over returns whether the generation has to go the cheapest way to its end.
+func (gen *generation) over(out *[]byte, options *genOpts) bool {
+	return len(*out) >= options.threshold || gen.work >= generateWorkMax
+}
+
+func generateAlt(rand rand.Source, gen *generation, out *[]byte, alt Alternation, options *genOpts) {
+	// Only consider the paths that can be generated
+	paths := make([]Concatenation, 0, len(alt.Concatenations))
+	for _, concat := range alt.Concatenations {
+		if gen.costs.costConcat(concat) < astUnbounded {
+			paths = append(paths, concat)
+		}
+	}
+	if len(paths) == 0 {
+		return
+	}
+
 	// Select any possible path in the alternation
-	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]
+	cnt := paths[int(rand.Int63())%len(paths)]
+	if gen.over(out, options) {
+		cnt = paths[gen.costs.cheapestConcat(paths)]
+	}
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
@@ -52,44 +82,40 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 		if repmax == inf {
 			repmax = options.repMax
 		}
-		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
-		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
+		torep, draw := rep.Min, int(rand.Int63())
+		if repmax > rep.Min && gen.costs.costElem(rep.Element) < astUnbounded {
+			torep += draw % (repmax - rep.Min + 1)
+		}
+		for i := 0; generateKeepGoing(i, torep, rep.Min, gen.over(out, options)); i++ {
+			lenout := len(*out)
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
-				rule := GetRule(elem.Name, g.Rulemap)
-				generateAlt(rand, g, out, rule.Alternation, options)
+				gen.work++
+				rule := GetRule(elem.Name, gen.g.Rulemap)
+				generateAlt(rand, gen, out, rule.Alternation, options)
 
 			case ElemOption:
-				if (rand.Int63() % 2) == 0 {
-					generateAlt(rand, g, out, elem.Alternation, options)
+				if (rand.Int63()%2) == 0 && !gen.over(out, options) {
+					generateAlt(rand, gen, out, elem.Alternation, options)
 				}
 
 			case ElemGroup:
-				generateAlt(rand, g, out, elem.Alternation, options)
+				generateAlt(rand, gen, out, elem.Alternation, options)
 
 			case ElemNumVal:
 				switch elem.Status {
 				case StatRange:
 					min, max := numvalToRune(elem.Elems[0], elem.Base), numvalToRune(elem.Elems[1], elem.Base)
-					// Generation emits UTF-8 text, so clamp to the representable
-					// (Unicode) subset; a range wholly above U+10FFFF (or with
-					// max < min) yields no character.
-					if max > utf8.MaxRune {
-						max = utf8.MaxRune
-					}
-					if min <= utf8.MaxRune && min <= max {
-						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
-						appendPtr(out, r)
-					}
+					// Generation emits UTF-8 text, so keep to the representable
+					// (Unicode) subset; a range that has none is never selected.
+					r := runeAt(min, int32(rand.Int63()&0x0F)%runeSpan(min, max)) // mask 0x0F to keep the 32-bit part (rune size)
+					appendPtr(out, r)
 
 				case StatSeries:
 					for _, v := range elem.Elems {
-						r := numvalToRune(v, elem.Base)
-						// Skip values that are not real characters; they cannot be
-						// emitted as UTF-8 text.
-						if utf8.ValidRune(r) {
-							appendPtr(out, r)
-						}
+						// Values that are not real characters can't be emitted as
+						// UTF-8 text; a series that has some is never selected.
+						appendPtr(out, numvalToRune(v, elem.Base))
 					}
 				}
 
@@ -103,6 +129,11 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			}
 
 			// Prose-val is not covered, checked before to avoid generation
+
+			// If the element can be empty, it can be for the remaining times too
+			if len(*out) == lenout {
+				break
+			}
 		}
 	}
 }
@@ -113,9 +144,9 @@ func appendPtr(slc *[]byte, v ...rune) {
 	*slc = b
 }
 
-func generateKeepGoing(i, torep, minrep, lenout, threshold int) bool {
-	// If can do no run and reached threshold, skip
-	if i == 0 && minrep == 0 && lenout >= threshold {
+func generateKeepGoing(i, torep, minrep int, over bool) bool {
+	// If can do no more run and reached threshold, skip
+	if i >= minrep && over {
 		return false
 	}
 	return i < torep
@@ -159,95 +190,17 @@ func (opt thresholdOption) apply(opts *genOpts) {
 // Factually, it checks if all involved rules have no path v such that it
 // produces a cycle (v:rule-*->rule) AND that this path is mandatory
 // (no option, no repetition with a minimum of zero).
-func checkCanGenerateSafely(g *Grammar, rulename string) error {
+func checkCanGenerateSafely(g *Grammar, costs *ASTGenerator, rulename string) error {
 	rule := GetRule(rulename, g.Rulemap)
 	if rule == nil {
 		return &ErrRuleNotFound{
 			Rulename: rulename,
 		}
 	}
-	knownRules := map[string]struct{}{
-		rulename: {},
-	}
-	if err := checkCanGenerateSafelyAlt(g, knownRules, rule.Alternation); err != nil {
-		if err, ok := err.(*ErrCyclicRule); ok {
-			return err
-		}
+	if costs.minCost[rule.Name] >= astUnbounded {
 		return &ErrCyclicRule{
 			Rulename: rulename,
 		}
 	}
 	return nil
 }
-
-func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
-	errs := make([]error, len(alt.Concatenations))
-	for alti, concat := range alt.Concatenations {
-		errs[alti] = checkCanGenerateSafelyConcat(g, knownRules, concat)
-	}
-	allErrors := true
-	for i := 0; i < len(errs) && allErrors; i++ {
-		if errs[i] == nil {
-			allErrors = false
-		}
-	}
-	if allErrors {
-		return errors.Join(errs...)
-	}
-	return nil
-}
-
-func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, concat Concatenation) error {
-	for _, rep := range concat.Repetitions {
-		// If the repetition is not mandatory, we can escape so can
-		// generate safely.
-		if rep.Min == 0 {
-			continue
-		}
-
-		// Deal with the repetition itself then.
-		switch elem := rep.Element.(type) {
-		case ElemRulename:
-			// Copy rules to only focus on rules that made use come here.
-			// If shared with others, the dependency graph can lead to the same rule
-			// from another path without it being a cycle, thus must be handled.
-			scopeRules := duplicateMap(knownRules)
-			for known := range scopeRules {
-				if strings.EqualFold(elem.Name, known) {
-					return &ErrCyclicRule{
-						Rulename: elem.Name,
-					}
-				}
-			}
-			rule := GetRule(elem.Name, g.Rulemap)
-			scopeRules[elem.Name] = struct{}{}
-			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
-				if err, ok := err.(*ErrCyclicRule); ok {
-					return err
-				}
-				return &ErrCyclicRule{
-					Rulename: elem.Name,
-				}
-			}
-
-		case ElemGroup:
-			if err := checkCanGenerateSafelyAlt(g, knownRules, elem.Alternation); err != nil {
-				return err
-			}
-
-		case ElemProseVal:
-			return ErrHandlingProseVal
-
-			// Other types are not considered for the following reasons:
-			// - option: equivalent to rep.min==0, escapable path even if could be cyclic
-			// - num-val, char-val: termination paths, can't be cyclic
-		}
-	}
-	return nil
-}
-
-func duplicateMap[T comparable, V any](m map[T]V) map[T]V {
-	n := make(map[T]V, len(m))
-	maps.Copy(n, m)
-	return n
-}
-- 
2.43.0


From 948c44ba21eeca6ddbfb1a9016496f052d76c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:26 +0000
Subject: [PATCH 22/37] fix: transition graphs denote num-vals exactly

Deflating a series made its values alternatives instead of following each
other, surrogates were emitted as U+FFFD, and num-vals that denote no character
were nodes emitting nothing.
---
 transition_graph.go | 50 +++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..05e1de9 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -5,7 +5,6 @@ import (
 	"slices"
 	"sort"
 	"strings"
-	"unicode/utf8"
 
 	uuid "github.com/hashicorp/go-uuid"
 )
@@ -922,16 +921,13 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			return prod, 1
 		case StatRange:
 			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// The graph operates over runes; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the int32 count below.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			// The graph operates over characters; one out of the range (hence of
+			// the Unicode range) is never emitted.
+			span := runeSpan(min, max)
+			if span == 0 {
 				return nil, 1 // no representable character in this range
 			}
-			r := rune(min + tpos)
-			return []byte(string(r)), max - min + 1
+			return []byte(string(runeAt(min, tpos))), span
 		}
 	}
 	return nil, 1
@@ -1343,6 +1339,11 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		return
 
 	case ElemNumVal:
+		// A num-val that denotes no character matches nothing, so contributes no
+		// node.
+		if !numvalMatchable(v) {
+			return
+		}
 		if !m.options.deflateNumVals {
 			if err := m.reserve(1); err != nil {
 				return nil, nil, err
@@ -1355,24 +1356,18 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		switch v.Status {
 		case StatRange:
 			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// One node is enumerated per rune; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the count (int32) and bypass the
-			// node budget, which would turn this loop into a DoS. A range wholly
-			// above U+10FFFF contributes no node (it matches nothing).
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				return
-			}
-			if err := m.reserve(int(max - min + 1)); err != nil {
+			// One node is enumerated per character; count them so an out-of-range
+			// bound cannot overflow the count (int32) and bypass the node budget,
+			// which would turn this loop into a DoS.
+			span := runeSpan(min, max)
+			if err := m.reserve(int(span)); err != nil {
 				return nil, nil, err
 			}
-			for i := min; i <= max; i++ {
+			for i := range span {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
-					Elems:  []string{int32ToNumval(i, v.Base)},
+					Elems:  []string{int32ToNumval(runeAt(min, i), v.Base)},
 				})
 				entrypoints = append(entrypoints, n)
 				endpoints = append(endpoints, n)
@@ -1382,15 +1377,22 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
+			// The values of a series follow each other
+			var prev *Node
 			for _, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if prev == nil {
+					entrypoints = append(entrypoints, n)
+				} else {
+					prev.Nexts = append(prev.Nexts, n)
+				}
+				prev = n
 			}
+			endpoints = append(endpoints, prev)
 		}
 		return
 
-- 
2.43.0


From e2ee6ea574b297a773b8b7c0338f352fe444c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 23/37] fix: cloning a transition graph does not turn
 unreachable endpoints into the empty one

---
 transition_graph.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 05e1de9..91f20d9 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1221,7 +1221,11 @@ func cloneTransitionGraph(i, o []*Node) (entrypoints []*Node, endpoints []*Node)
 			endpoints = append(endpoints, emptyNode)
 			continue
 		}
-		endpoints = append(endpoints, originToNewNodes[vo.ID].cloned)
+		// An endpoint no entrypoint leads to has not been cloned, and its zero
+		// value is not to be mistaken for the empty node.
+		if cnode, ok := originToNewNodes[vo.ID]; ok {
+			endpoints = append(endpoints, cnode.cloned)
+		}
 	}
 	return
 }
-- 
2.43.0


From 14a64fe233753aa18c9d1f3f05a0ac1cdaf86cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:03 +0000
Subject: [PATCH 24/37] fix: ExpectedNext only expects octets that lead to a
 word

Octets of a multi-byte num-val range were collected per position whatever the
leading ones, and nodes no endpoint can be reached from were followed.
---
 fuzz.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index e8d79ff..79893f0 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -557,7 +557,8 @@ func (s octetSet) bytes() []byte {
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
 // of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// emission; a multi-byte num-val range has one per sequence of leading octets, as
+// they determine which trailing octets may follow.
 type emission struct {
 	pos []octetSet
 }
@@ -648,21 +649,22 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			if max-min+1 > expectedNextRangeCap {
 				return nil, false
 			}
-			byLen := map[int]*emission{}
-			for r := min; r <= max; r++ {
-				bs := []byte(string(rune(r)))
-				e := byLen[len(bs)]
-				if e == nil {
-					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
-				}
-				for j, b := range bs {
-					e.pos[j].add(b)
+			out := []emission{}
+			last := ""
+			for i := range runeSpan(min, max) {
+				bs := string(runeAt(min, i))
+				lead := bs[:len(bs)-1]
+				// Runes are enumerated in order, hence the ones that share their
+				// leading octets follow each other.
+				if len(out) == 0 || lead != last {
+					e := emission{pos: make([]octetSet, len(bs))}
+					for j := range lead {
+						e.pos[j].add(lead[j])
+					}
+					out = append(out, e)
+					last = lead
 				}
-			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
-				out = append(out, *e)
+				out[len(out)-1].pos[len(lead)].add(bs[len(lead)])
 			}
 			return out, true
 		}
@@ -689,6 +691,9 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 		}
 	}
 	start := func(n *Node) bool {
+		if !g.canReach[tgNodeID(n)] {
+			return true // leads to no word
+		}
 		ems, o := g.emissions(n)
 		if !o {
 			return false
@@ -732,7 +737,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 					lastCompletedEndpoint = true
 				}
 				for _, m := range s.n.Nexts {
-					if m == emptyNode {
+					if m == emptyNode || !g.canReach[tgNodeID(m)] {
 						continue
 					}
 					ems2, o := g.emissions(m)
-- 
2.43.0


From 68e997caf208e9c256741b1778e9c3c05b5fb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:58 +0000
Subject: [PATCH 25/37] fix: pap transition-graph honours deflate flags set to
 false

---
 cmd/pap/commands/transition_graph.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/pap/commands/transition_graph.go b/cmd/pap/commands/transition_graph.go
index 616d229..020e465 100644
--- a/cmd/pap/commands/transition_graph.go
+++ b/cmd/pap/commands/transition_graph.go
@@ -52,13 +52,13 @@ func transitionGraph(ctx *cli.Context) error {
 
 	// Build options
 	opts := []goabnf.TGOption{}
-	if ctx.IsSet("deflate-rules") {
+	if ctx.Bool("deflate-rules") {
 		opts = append(opts, goabnf.WithDeflateRules(true))
 	}
-	if ctx.IsSet("deflate-charvals") {
+	if ctx.Bool("deflate-charvals") {
 		opts = append(opts, goabnf.WithDeflateCharVals(true))
 	}
-	if ctx.IsSet("deflate-numvals") {
+	if ctx.Bool("deflate-numvals") {
 		opts = append(opts, goabnf.WithDeflateNumVals(true))
 	}
 	if ctx.IsSet("repetition-threshold") {
-- 
2.43.0


From fe77cf4fb528ad2bc234720f1ad27e759f07b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:49 +0000
Subject: [PATCH 26/37] fix: the dependency graph flowchart draws a rule once
 whatever its case

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 3662150..ae58592 100644
--- a/dag.go
+++ b/dag.go
@@ -69,6 +69,10 @@ func (dg Depgraph) Mermaid() string {
 	out.WriteString("flowchart TD\n")
 	for _, node := range dg {
 		for _, dep := range node.Dependencies {
+			// Use one spelling per rule, else it is drawn as several
+			if n, ok := dg[dep]; ok {
+				dep = n.Rulename
+			}
 			fmt.Fprintf(&out, "\t%s --> %s\n", node.Rulename, dep)
 		}
 		out.WriteString("\n")
-- 
2.43.0


From 96fdc180677ca6e3da3d55af534d8200bd0ae0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 27/37] fix: the regex length budget also bounds the work on
 rules used many times

---
 regex.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/regex.go b/regex.go
index 9851b13..031e6ec 100644
--- a/regex.go
+++ b/regex.go
@@ -257,13 +257,13 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 		never := false
 		for _, p := range v.parts {
 			sp := simplify(p, memo)
-			switch x := sp.(type) {
+			switch sp.(type) {
 			case *reEmpty: // drop: empty in a concatenation contributes nothing
 			case *reNever: // one un-matchable part makes the whole sequence un-matchable
 				never = true
-			case *reConcat:
-				parts = append(parts, x.parts...) // flatten
 			default:
+				// A nested concatenation renders as if it was flattened. It is
+				// not, as sharing it keeps the work linear over the DAG.
 				parts = append(parts, sp)
 			}
 		}
@@ -284,11 +284,16 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 			if isNever(so) { // a never-matching branch is dead; drop it
 				continue
 			}
+			// A nested alternation renders as if it was flattened. It is not,
+			// as sharing it keeps the work linear over the DAG: only its class,
+			// which comes first if any, is taken out to be merged.
 			if x, ok := so.(*reAlt); ok {
-				opts = append(opts, x.opts...) // flatten
-			} else {
-				opts = append(opts, so)
+				if _, ok := x.opts[0].(*reClass); ok {
+					opts = append(opts, x.opts[0])
+					so = x.rest()
+				}
 			}
+			opts = append(opts, so)
 		}
 		// Fold every class option into a single merged class: turns an
 		// alternation of single characters / ranges into one [...].
@@ -342,6 +347,14 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 	return res
 }
 
+// rest returns the alternation without its first option.
+func (a *reAlt) rest() reNode {
+	if len(a.opts) == 2 {
+		return a.opts[1]
+	}
+	return &reAlt{opts: a.opts[1:]}
+}
+
 func isEmpty(n reNode) bool { _, ok := n.(*reEmpty); return ok }
 
 // normalizeRanges sorts and coalesces overlapping/adjacent ranges.
-- 
2.43.0


From db8da65a0f5b2849344e3668e03f470047e1875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 28/37] fix: the forest budget also bounds counted repetitions
 of empty matches

---
 bsr.go     | 5 +++++
 codegen.go | 5 +++++
 sppf.go    | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/bsr.go b/bsr.go
index 829dd26..3553f41 100644
--- a/bsr.go
+++ b/bsr.go
@@ -84,6 +84,11 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 	if v, ok := p.gss[k]; ok {
 		return v
 	}
+	// A count that far above the input length comes from more empty occurrences
+	// than there may be elements, each of which is to get its own.
+	if p.maxElems > 0 && rc-len(p.input) > p.maxElems {
+		p.aborted = true
+	}
 	v := &bsrGNode{ret: ret, pos: pos, rc: rc, edgeSet: map[*bsrGNode]bool{}}
 	p.gss[k] = v
 	return v
diff --git a/codegen.go b/codegen.go
index feeb6d9..6b05823 100644
--- a/codegen.go
+++ b/codegen.go
@@ -570,6 +570,11 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 	if v, ok := p.gss[k]; ok {
 		return v
 	}
+	// A count that far above the input length comes from more empty occurrences
+	// than there may be elements, each of which is to get its own.
+	if MaxElements > 0 && rc-len(p.input) > MaxElements {
+		p.aborted = true
+	}
 	v := &gnode{ret: ret, pos: pos, rc: rc, edgeSet: map[*gnode]bool{}}
 	p.gss[k] = v
 	return v
diff --git a/sppf.go b/sppf.go
index 0b11788..3d4bb6b 100644
--- a/sppf.go
+++ b/sppf.go
@@ -353,6 +353,11 @@ func (p *gllParser) gssNodeFor(ret slot, pos, rc int) *gssNode {
 	if v, ok := p.gss[k]; ok {
 		return v
 	}
+	// A count that far above the input length comes from more empty occurrences
+	// than there may be nodes, each of which is to get its own.
+	if p.maxNodes > 0 && rc-len(p.input) > p.maxNodes {
+		p.aborted = true
+	}
 	v := &gssNode{ret: ret, pos: pos, rc: rc, edgeSet: map[gssEdge]bool{}}
 	p.gss[k] = v
 	return v
-- 
2.43.0


From 89b3e0493cfc4c8c735f30d6acc863c4c895f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:37 +0000
Subject: [PATCH 29/37] fix: letters outside ASCII do not stand for those of a
 rule name

---
 utils.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 1bd5340..a08830e 100644
--- a/utils.go
+++ b/utils.go
@@ -191,9 +191,23 @@ func GetRule(rulename string, rulemap map[string]*Rule) *Rule {
 
 func getRuleIn(rulename string, rulemap map[string]*Rule) *Rule {
 	for _, rule := range rulemap {
-		if strings.EqualFold(rulename, rule.Name) {
+		if sameRulename(rulename, rule.Name) {
 			return rule
 		}
 	}
 	return nil
 }
+
+// sameRulename compares rule names, which are made of ASCII: no other letter
+// stands for one of theirs (e.g. U+017F for an "s").
+func sameRulename(a, b string) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range len(a) {
+		if foldByte(a[i]) != foldByte(b[i]) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 24a27937b908339dbdee4b22838395135620e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:45 +0000
Subject: [PATCH 30/37] fix: nested groups of a left-recursive rule no longer
 take exponential time

---
 grammar.go   | 15 ++++++++-------
 recognize.go | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/grammar.go b/grammar.go
index 7ac656a..2e64381 100644
--- a/grammar.go
+++ b/grammar.go
@@ -28,13 +28,14 @@ func (g *Grammar) IsValid(rulename string, input []byte) (bool, error) {
 	// polynomial. Left-recursive rules are resolved by seed-growing rather than
 	// refused; see recognize.go and leftrec.go.
 	r := &recognizer{
-		g:          g,
-		input:      input,
-		memo:       map[string]map[int]bool{},
-		inProgress: map[string]bool{},
-		leftRec:    g.leftRecursiveSCCs(),
-		growing:    map[string]map[int]bool{},
-		growingAt:  map[int]int{},
+		g:           g,
+		input:       input,
+		memo:        map[string]map[int]bool{},
+		inProgress:  map[string]bool{},
+		leftRec:     g.leftRecursiveSCCs(),
+		growing:     map[string]map[int]bool{},
+		growingAt:   map[int]int{},
+		provisional: map[int]map[string]map[int]bool{},
 	}
 	ends := r.reachElem(ElemRulename{Name: rulename}, 0)
 	return ends[len(input)], nil
diff --git a/recognize.go b/recognize.go
index eaa1dc8..4ab816f 100644
--- a/recognize.go
+++ b/recognize.go
@@ -31,8 +31,10 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
-	// growingAt counts the SCCs being grown at each index.
-	growingAt map[int]int
+	// growingAt counts the SCCs being grown at each index, and provisional holds
+	// what groups and options gave there since a seed last changed.
+	growingAt   map[int]int
+	provisional map[int]map[string]map[int]bool
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -139,6 +141,9 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
+	if cached, ok := r.provisional[index][key]; ok {
+		return cached
+	}
 	// A group or option may legitimately be met again at the same position, from
 	// within the growth of a left-recursive rule it contains; that inner visit
 	// then reads the seed and terminates. Only rules are guarded.
@@ -154,10 +159,15 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	}
 	out := r.computeElem(elem, index)
 	// A group or option met while a seed grows at this very index may read that
-	// seed, so its result is provisional: caching it would freeze the growth.
+	// seed, so its result only stands until a seed changes: keeping it longer
+	// would freeze the growth, not keeping it at all makes nested ones exponential.
 	switch elem.(type) {
 	case ElemGroup, ElemOption:
 		if r.growingAt[index] > 0 {
+			if r.provisional[index] == nil {
+				r.provisional[index] = map[string]map[int]bool{}
+			}
+			r.provisional[index][key] = out
 			return out
 		}
 	}
@@ -206,6 +216,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 				if !cur[e] {
 					cur[e] = true
 					changed = true
+					delete(r.provisional, index)
 				}
 			}
 		}
@@ -216,6 +227,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
 	// they can be memoized unconditionally.
 	r.growingAt[index]--
+	delete(r.provisional, index)
 	var result map[int]bool
 	for i, x := range scc {
 		v := r.growing[keys[i]]
-- 
2.43.0


From 9b866b458686e9ba5cbd1e71bc800e2e952a1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:02 +0000
Subject: [PATCH 31/37] fix: counting stops once a forest is known to be cyclic

---
 bsr.go     | 4 ++--
 codegen.go | 4 ++--
 sppf.go    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bsr.go b/bsr.go
index 3553f41..947a433 100644
--- a/bsr.go
+++ b/bsr.go
@@ -361,7 +361,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		if v, ok := memo[id]; ok {
 			return v
 		}
-		if onStack[id] {
+		if infinite || onStack[id] {
 			infinite = true
 			return big.NewInt(1)
 		}
@@ -380,7 +380,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		if v, ok := memo[id]; ok {
 			return v
 		}
-		if onStack[id] {
+		if infinite || onStack[id] {
 			infinite = true
 			return big.NewInt(1)
 		}
diff --git a/codegen.go b/codegen.go
index 6b05823..169de5e 100644
--- a/codegen.go
+++ b/codegen.go
@@ -733,7 +733,7 @@ func (r *Result) NumTrees() *big.Int {
 		if v, ok := memo[id]; ok {
 			return v
 		}
-		if onStack[id] {
+		if infinite || onStack[id] {
 			infinite = true
 			return big.NewInt(1)
 		}
@@ -751,7 +751,7 @@ func (r *Result) NumTrees() *big.Int {
 		if v, ok := memo[id]; ok {
 			return v
 		}
-		if onStack[id] {
+		if infinite || onStack[id] {
 			infinite = true
 			return big.NewInt(1)
 		}
diff --git a/sppf.go b/sppf.go
index 3d4bb6b..c8d9308 100644
--- a/sppf.go
+++ b/sppf.go
@@ -792,7 +792,7 @@ func (f *Forest) NumTrees() *big.Int {
 		if v, ok := memo[n]; ok {
 			return v
 		}
-		if onStack[n] {
+		if infinite || onStack[n] {
 			infinite = true
 			return big.NewInt(1)
 		}
-- 
2.43.0


From aded9cf8ef954cadbf1348b5f64f94a89655e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 32/37] fix: transition graphs repeat node-less elements once
 and budget without overflow

---
 transition_graph.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 91f20d9..dfaf784 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -226,7 +226,11 @@ func (m *tgmachine) reserveClones(reps int, entries []*Node) error {
 	if m.options.maxNodes <= 0 {
 		return nil
 	}
-	return m.reserve(reps * countReachable(entries))
+	size := countReachable(entries)
+	if size > 0 && reps > m.options.maxNodes/size {
+		return &ErrMaxNodesExceeded{Max: m.options.maxNodes} // the product may not even fit an int
+	}
+	return m.reserve(reps * size)
 }
 
 // countReachable counts the distinct non-empty nodes reachable from entries,
@@ -1166,6 +1170,10 @@ func chainTransitionGraph(i, o []*Node, n int) (tgs []TransitionGraph, entrypoin
 	if n == 0 {
 		return
 	}
+	// Repeating what holds no node changes nothing, whatever the number of times
+	if countReachable(i) == 0 {
+		n = 1
+	}
 	tgs = make([]TransitionGraph, n)
 
 	// Init chaining
-- 
2.43.0


From 18a2d7f8bc5a80615f0a3d336b51a63f9c9c7901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:44 +0000
Subject: [PATCH 33/37] fix: bound the total work of an ASTGenerator walk

Expanding rules between two outputs was bounded, so a grammar full of empty
derivations could still cost maxLen times that bound (20 s for one word).
---
 ast.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ast.go b/ast.go
index c0c5ef0..848d3da 100644
--- a/ast.go
+++ b/ast.go
@@ -21,10 +21,13 @@ import (
 
 const astUnbounded = 1 << 30 // "infinite" min-length sentinel (non-productive)
 
-// astIdleMax is how many rules may be expanded in a row without any output
-// before steering to terminate: neither the depth nor the length budget bounds
-// the work of expanding rules that produce nothing.
-const astIdleMax = 1 << 12
+// astIdleMax, plus astIdlePerByte for each byte of output, is how many rules may
+// be expanded before steering to terminate: neither the depth nor the length
+// budget bounds the work of expanding rules that produce (almost) nothing.
+const (
+	astIdleMax     = 1 << 12
+	astIdlePerByte = 1 << 6
+)
 
 // ASTGenerator generates strings admitted by a (possibly recursive) grammar
 // rule, directly from the AST.
@@ -202,12 +205,13 @@ func (ag *ASTGenerator) walk(src source) []byte {
 // astOutput is what a walk produced so far.
 type astOutput struct {
 	bytes []byte
-	idle  int // rules expanded since the last output
+	idle  int // rules expanded, less what the output accounts for
 }
 
 func (out *astOutput) emit(r rune) {
+	n := len(out.bytes)
 	out.bytes = append(out.bytes, string(r)...)
-	out.idle = 0
+	out.idle -= astIdlePerByte * (len(out.bytes) - n)
 }
 
 // over reports whether we should stop taking expansions for their own sake and
-- 
2.43.0


From 248eec17b0bb9c9d9c22b5c4787391f2074af7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:19 +0000
Subject: [PATCH 34/37] fix: minimum cost of huge repetitions no longer wraps
 around

---
 ast.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 848d3da..38a7ba3 100644
--- a/ast.go
+++ b/ast.go
@@ -449,13 +449,11 @@ func mulClamp(n, c int) int {
 	if n == 0 {
 		return 0
 	}
-	if c >= astUnbounded {
+	// n is any bound the grammar says: compare before it could overflow.
+	if c >= astUnbounded || (c > 0 && n > (astUnbounded-1)/c) {
 		return astUnbounded
 	}
-	if p := n * c; p >= 0 && p < astUnbounded {
-		return p
-	}
-	return astUnbounded
+	return n * c
 }
 
 func isASCIILetter(r rune) bool {
-- 
2.43.0


From b61f2c5d5936562813bea0006ae648c0228d9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:21 +0000
Subject: [PATCH 35/37] fix: generated parsers compile for strings with
 unprintable characters

---
 codegen.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index 169de5e..5570249 100644
--- a/codegen.go
+++ b/codegen.go
@@ -5,6 +5,7 @@ import (
 	"go/format"
 	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -150,7 +151,7 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 	b.WriteString("\tfor {\n\t\tswitch L {\n")
 	for id, s := range c.slots {
 		info := c.sg.nts[s.nt]
-		fmt.Fprintf(b, "\t\tcase %d: // %s\n", id, c.slotComment(s))
+		fmt.Fprintf(b, "\t\tcase %d: // %s\n", id, sanitizeComment(c.slotComment(s)))
 		if s.dot == s.plen {
 			b.WriteString("\t\t\tp.pop(u, i)\n\t\t\treturn\n")
 			continue
@@ -437,9 +438,14 @@ func symStr(sg *slotGrammar, s ssym) string {
 
 func sanitizeComment(s string) string {
 	s = strings.ReplaceAll(s, "*/", "* /")
-	s = strings.ReplaceAll(s, "\r", " ")
-	s = strings.ReplaceAll(s, "\n", " ")
-	return s
+	// Line breaks would end the comment, and Go sources can't hold some others
+	// such as NUL or a byte order mark.
+	return strings.Map(func(r rune) rune {
+		if !unicode.IsPrint(r) {
+			return ' '
+		}
+		return r
+	}, s)
 }
 
 func foldByte(b byte) byte {
-- 
2.43.0


From aef75a8f0d52ba9361078e13e515f89db553e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:19 +0000
Subject: [PATCH 36/37] fix: Generate draws from the whole of a num-val range,
 not its first 16 characters

---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index cfb8a96..7296eab 100644
--- a/generate.go
+++ b/generate.go
@@ -108,7 +108,7 @@ func generateAlt(rand rand.Source, gen *generation, out *[]byte, alt Alternation
 					min, max := numvalToRune(elem.Elems[0], elem.Base), numvalToRune(elem.Elems[1], elem.Base)
 					// Generation emits UTF-8 text, so keep to the representable
 					// (Unicode) subset; a range that has none is never selected.
-					r := runeAt(min, int32(rand.Int63()&0x0F)%runeSpan(min, max)) // mask 0x0F to keep the 32-bit part (rune size)
+					r := runeAt(min, int32(rand.Int63()%int64(runeSpan(min, max))))
 					appendPtr(out, r)
 
 				case StatSeries:
-- 
2.43.0


From 30db44b7166242ee351fe8e84099dfb23ee4648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:19 +0000
Subject: [PATCH 37/37] fix: Generate draws both letter cases of strings
 written in upper case

---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 7296eab..ec9e99a 100644
--- a/generate.go
+++ b/generate.go
@@ -122,7 +122,7 @@ func generateAlt(rand rand.Source, gen *generation, out *[]byte, alt Alternation
 			case ElemCharVal:
 				for _, val := range elem.Values {
 					if !elem.Sensitive && (int(rand.Int63())%2) == 0 {
-						val = runeMax(val)
+						val = flipASCIICase(val)
 					}
 					appendPtr(out, val)
 				}
-- 
2.43.0

