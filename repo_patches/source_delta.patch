From 4ecca7151871572aa8d4392e29f61980ae740028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 1/7] fix: domain tree deletion panics for names of 127 labels

---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 87fabef..df4a0c8 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -120,8 +120,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -148,8 +148,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 4306e21..dd2ced5 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 063fc45..cc5cab5 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 09c2574..12194bc 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 34719c3..6938b8b 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fd04450..b23b2a5 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
-- 
2.43.0


From 922acaf6a2d531704800bb80f1a8d107e74befe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 2/7] fix: InplaceInsert into a domain tree built by Insert or
 Delete panics

---
 domaintree/domaintree.go                      | 4 ++++
 uintX/domaintree16/domaintree.go              | 4 ++++
 uintX/domaintree32/domaintree.go              | 4 ++++
 uintX/domaintree64/domaintree.go              | 4 ++++
 uintX/domaintree8/domaintree.go               | 4 ++++
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index df4a0c8..955b534 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -63,6 +63,10 @@ func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
 		if ok {
 			n = item.(*Node)
 		} else {
+			if n.branches == nil {
+				n.branches = dltree.NewTree()
+			}
+
 			next := &Node{branches: dltree.NewTree()}
 			n.branches.RawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index dd2ced5..ccb3dea 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint16) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index cc5cab5..3e92eb5 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint32) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 12194bc..fa25b85 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint64) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 6938b8b..77581f9 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint8) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index b23b2a5..f570c5d 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint{{.bits}}) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
-- 
2.43.0


From fbbac37c88cf18a0b153f4273ba9eff82a8503d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 3/7] fix: domain tree Get ignores the value bound to the root
 name

---
 domaintree/domaintree.go                      | 4 ++--
 uintX/domaintree16/domaintree.go              | 4 ++--
 uintX/domaintree32/domaintree.go              | 4 ++--
 uintX/domaintree64/domaintree.go              | 4 ++--
 uintX/domaintree8/domaintree.go               | 4 ++--
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 955b534..2996d41 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -97,8 +97,8 @@ func (n *Node) Get(d domain.Name) (interface{}, bool) {
 		return nil, false
 	}
 
-	var value interface{}
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index ccb3dea..352646d 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -95,8 +95,8 @@ func (n *Node) Get(d domain.Name) (uint16, bool) {
 		return 0, false
 	}
 
-	var value uint16
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 3e92eb5..bd41286 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -95,8 +95,8 @@ func (n *Node) Get(d domain.Name) (uint32, bool) {
 		return 0, false
 	}
 
-	var value uint32
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index fa25b85..aeeca6f 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -95,8 +95,8 @@ func (n *Node) Get(d domain.Name) (uint64, bool) {
 		return 0, false
 	}
 
-	var value uint64
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 77581f9..71b3f24 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -95,8 +95,8 @@ func (n *Node) Get(d domain.Name) (uint8, bool) {
 		return 0, false
 	}
 
-	var value uint8
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index f570c5d..8be9fab 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -95,8 +95,8 @@ func (n *Node) Get(d domain.Name) (uint{{.bits}}, bool) {
 		return 0, false
 	}
 
-	var value uint{{.bits}}
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
-- 
2.43.0


From 9eb3bf57ded42c0bfc32d802b6df3d497acfdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 4/7] fix: MakeHumanReadableLabel panics on long labels ending
 in upper-case letters

---
 domain/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/label.go b/domain/label.go
index ef43c7d..441ef59 100644
--- a/domain/label.go
+++ b/domain/label.go
@@ -59,6 +59,10 @@ func MakeHumanReadableLabel(s string) string {
 
 			j += 4
 		} else if c >= 'A' && c <= 'Z' {
+			if j >= len(label) {
+				return string(label[:j])
+			}
+
 			label[j] = c | 0x20
 			j++
 		} else {
-- 
2.43.0


From 21b74b1fb18c4ed92d91c2e2372e9d02dd2c51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 5/7] fix: sized IP trees don't delete IPv6 networks contained
 in a shorter one that isn't stored

---
 uintX/iptree16/iptree.go              | 7 ++++++-
 uintX/iptree32/iptree.go              | 7 ++++++-
 uintX/iptree64/iptree.go              | 7 ++++++-
 uintX/iptree8/iptree.go               | 7 ++++++-
 uintX/iptree{{.bits}}/iptree.{{.ext}} | 7 ++++++-
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/uintX/iptree16/iptree.go b/uintX/iptree16/iptree.go
index 9a4f7ec..90bd2d5 100644
--- a/uintX/iptree16/iptree.go
+++ b/uintX/iptree16/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree32/iptree.go b/uintX/iptree32/iptree.go
index 6a505d6..2f342f6 100644
--- a/uintX/iptree32/iptree.go
+++ b/uintX/iptree32/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree64/iptree.go b/uintX/iptree64/iptree.go
index 6ffa3ae..d757585 100644
--- a/uintX/iptree64/iptree.go
+++ b/uintX/iptree64/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree8/iptree.go b/uintX/iptree8/iptree.go
index 9a98de8..a5a00df 100644
--- a/uintX/iptree8/iptree.go
+++ b/uintX/iptree8/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree{{.bits}}/iptree.{{.ext}} b/uintX/iptree{{.bits}}/iptree.{{.ext}}
index d3790c3..20ff2a5 100644
--- a/uintX/iptree{{.bits}}/iptree.{{.ext}}
+++ b/uintX/iptree{{.bits}}/iptree.{{.ext}}
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
-- 
2.43.0


From 86f897d232e6053483d52edfea0afe4a44016283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 6/7] fix: Match on nil radix tree returns a non-nil value

---
 numtree/node32.go | 2 +-
 numtree/node64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numtree/node32.go b/numtree/node32.go
index cc1c2c1..8c30e6c 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -108,7 +108,7 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 	// If tree is empty -
 	if n == nil {
 		// report nothing.
-		return n, false
+		return nil, false
 	}
 
 	// Adjust bits.
diff --git a/numtree/node64.go b/numtree/node64.go
index 304f5d6..a0b3553 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -112,7 +112,7 @@ func (n *Node64) Enumerate() chan *Node64 {
 // Match locates node which key is equal to or "contains" the key passed as argument.
 func (n *Node64) Match(key uint64, bits int) (interface{}, bool) {
 	if n == nil {
-		return n, false
+		return nil, false
 	}
 
 	if bits < 0 {
-- 
2.43.0


From c9fad57440d7147f5f9da740fe0aed38676882f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 7/7] fix: UpdateDescendants panics on nil tree or nil network

---
 iptree/iptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 2912ee2..79e5b05 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -117,6 +117,10 @@ func updateNode64(MSIP net.IP, n *numtree.Node64, callback UpdateDescendantsCall
 
 // UpdateDescendants accepts a target network (node) and a callback, and updates all the descendants of the target node if the callback returns true as its second return value
 func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallback) {
+	if t == nil || n == nil {
+		return
+	}
+
 	if key, bits := iPv4NetToUint32(n); bits >= 0 {
 		target := t.root32.FindNode(key, bits)
 		if target == nil {
-- 
2.43.0

