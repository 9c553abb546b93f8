From 3fdf2b6fab9c813f8f422ce0eac0d853bc155fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/47] fix: never match list sentinels as elements in LREM and
 LINSERT

---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From 622da204901eac96a2d8dd7a4dc9fd766280458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 02/47] fix: resolve the right end of a list segment only once

---
 pkg/container/list.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..9d8bd8b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -159,12 +159,6 @@ func (l *linkedList) extract(index int) *listNode {
 
 // Avoid traverse twice
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
-	right = util.NewIndex(right).ResolveRaw(l.size)
-
-	if right >= l.size {
-		right = l.size - 1
-	}
-
 	normLeft, normRight := util.NewSlice(left, right).Resolve(l.size)
 
 	if normLeft != -1 && normRight != -1 {
-- 
2.43.0


From e50e9d5f5dafdb70579438daa04aecaafb9f008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 03/47] fix: LREM with the minimum count must not overflow when
 negated

---
 pkg/container/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 9d8bd8b..ded8b6d 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -308,6 +308,11 @@ func (l *linkedList) Set(index int, data *StringContainer) error {
 
 func (l *linkedList) Remove(count int, key *StringContainer) int {
 	var removed int
+	if count < -l.size {
+		// more than the list holds, and negating the minimum int would overflow
+		count = -l.size - 1
+	}
+
 	if count >= 0 {
 		removed = l.deleteFromHead(count, key)
 	} else {
-- 
2.43.0


From 8971a6b109465b3783ae7488c77bfeab81ce3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 04/47] fix: SPOP and SRANDMEMBER on an emptied set reply null
 instead of crashing

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..549795b 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -591,7 +591,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -713,7 +713,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From 308837e33405fb3eb39ac802f64a1f59071a75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 05/47] fix: SADD, SREM and HSET on the empty key report an
 error instead of crashing

---
 pkg/command/hash.go |  5 +++++
 pkg/command/set.go  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 549795b..dfff383 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -467,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From 4889d8865ae25129170af5ddb6c4e14adc15d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 06/47] fix: LTRIM modifies data, so log it like every other
 write

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From 0913bfa23b67695f0a0b7ca8799c7701e5b30c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 07/47] fix: integer arithmetic that leaves the 64-bit range is
 an error, not a wrap-around

---
 pkg/container/string.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..1bbf39e 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -3,6 +3,7 @@ package container
 import (
 	"errors"
 	"hash/fnv"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/util"
 
@@ -126,9 +127,12 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 }
 
 // Increase will test if the string can be represent as int, then increase the number by the increment.
-// The string will be updated too.
+// The string will be updated too. If the result does not fit in an int64, nothing changes and ErrNotAInt is returned.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		if cur := s.intVar.Get(); (increment > 0 && cur > math.MaxInt64-increment) || (increment < 0 && cur < math.MinInt64-increment) {
+			return 0, ErrNotAInt
+		}
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -138,9 +142,12 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 }
 
 // Decrease will test if the string can be represent as int, then decrease the number by the decrement.
-// The string will be updated too.
+// The string will be updated too. If the result does not fit in an int64, nothing changes and ErrNotAInt is returned.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		if cur := s.intVar.Get(); (decrement > 0 && cur < math.MinInt64+decrement) || (decrement < 0 && cur > math.MaxInt64+decrement) {
+			return 0, ErrNotAInt
+		}
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From d74fbcd27436cedc769fd0feb145269f572da22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 08/47] fix: MSET without arguments is an invalid-argument
 error like every other arity error

---
 pkg/command/global.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/global.go b/pkg/command/global.go
index f40295e..828b12e 100644
--- a/pkg/command/global.go
+++ b/pkg/command/global.go
@@ -288,7 +288,7 @@ func (s *msetCommand) Name() string {
 func (s *msetCommand) ParseArguments(objects []protocol.RedisObject) error {
 	length := len(objects)
 
-	if length%2 != 0 {
+	if length == 0 || length%2 != 0 {
 		return ErrArgumentInvalid
 	}
 
-- 
2.43.0


From 2eb89d88d78bdd96abeba0004932b86a7c36887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 09/47] fix: LexicalCompare must not report an empty string
 equal to a non-empty one

---
 pkg/util/util.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..fe4f90a 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -69,11 +69,18 @@ func LexicalCompare(lhs, rhs string) int {
 
 	if lhsLen == rhsLen {
 		return 0
-	} else if lhsLen < rhsLen {
-		return -lhsLen
 	}
 
-	return rhsLen
+	// One is a prefix of the other. An empty prefix still has to be told apart from equality.
+	if length == 0 {
+		length = 1
+	}
+
+	if lhsLen < rhsLen {
+		return -length
+	}
+
+	return length
 }
 
 // ParseInt64 will parse a string into a int64, just a strconv.PraseInt wrapper.
-- 
2.43.0


From c56eae5679ef59bbec02189e9c7b14705ab7c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 10/47] fix: concurrent writers must not make the size of a
 syncDataMap drift

---
 pkg/types/data_map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/types/data_map.go b/pkg/types/data_map.go
index fa2726e..055834a 100644
--- a/pkg/types/data_map.go
+++ b/pkg/types/data_map.go
@@ -108,6 +108,9 @@ func (ldm *lockedDataMap) Len() int {
 type syncDataMap struct {
 	container sync.Map
 	size      int32
+
+	// write makes the existence check and the update of a writer one step, so that size is exact
+	write sync.Mutex
 }
 
 // NewSyncDataMap returns a new syncDataMap instance
@@ -118,6 +121,9 @@ func NewSyncDataMap() *syncDataMap {
 // Set will do insert and size increment
 // It will do a check if the key is exist to determine if we need to increase the size
 func (sdm *syncDataMap) Set(key string, value interface{}) {
+	sdm.write.Lock()
+	defer sdm.write.Unlock()
+
 	if !sdm.Has(key) {
 		atomic.AddInt32(&sdm.size, 1)
 	}
@@ -139,6 +145,9 @@ func (sdm *syncDataMap) Has(key string) bool {
 // Remove will first check if the key is exist
 // Then do remove works, it requires one more read overhead
 func (sdm *syncDataMap) Remove(key string) {
+	sdm.write.Lock()
+	defer sdm.write.Unlock()
+
 	if sdm.Has(key) {
 		sdm.container.Delete(key)
 		atomic.AddInt32(&sdm.size, -1)
-- 
2.43.0


From 0e2f9b985ee1b4332a8ca984a4b395e25234c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 11/47] fix: keep the sorted set's levels, back links and ranks
 consistent

---
 pkg/container/sorted_set.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index d13a7cb..92559fe 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -70,6 +70,11 @@ func (sln *skipListNode) release() {
 	}
 }
 
+// before reports if the node is ordered before an entry with the given score
+func (sln *skipListNode) before(score float64, entry *StringContainer) bool {
+	return sln.score < score || (sln.score == score && sln.data.CompareTo(entry) < 0)
+}
+
 type skipList struct {
 	key   string
 	head  *skipListNode
@@ -111,9 +116,7 @@ func (sl *skipList) insert(score float64, entry *StringContainer) {
 			rank[level] = rank[level+1]
 		}
 
-		for cur.next[level].node != sl.tail &&
-			(cur.next[level].node.score < score ||
-				(cur.next[level].node.score == score && cur.next[level].node.data.CompareTo(entry) < 0)) {
+		for cur.next[level].node != sl.tail && cur.next[level].node.before(score, entry) {
 			rank[level] += cur.next[level].span
 			cur = cur.next[level].node
 		}
@@ -155,7 +158,7 @@ func (sl *skipList) insert(score float64, entry *StringContainer) {
 	// |               | rank[0] - rank[level] + 1 |               | update[level].next[level].span - (rank[0] - rank[level]) |               |
 	// |               |                           |               |                                                          |               |
 	// +---------------+                           +---------------+                                                          +---------------+
-	for level := 0; level < sl.level; level++ {
+	for level := 0; level < newLevel; level++ {
 		cur.next = append(cur.next, skipListLevel{})
 		cur.next[level].node = update[level].next[level].node
 		update[level].next[level].node = cur
@@ -188,6 +191,8 @@ func (sl *skipList) delete(node *skipListNode, update []*skipListNode) {
 		}
 	}
 
+	node.next[0].node.prev = node.prev
+
 	for sl.level > 1 && sl.head.next[sl.level-1].node == sl.tail {
 		sl.level--
 	}
@@ -202,7 +207,7 @@ func (sl *skipList) deleteNode(node *skipListNode) {
 
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail && cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.before(node.score, node.data) {
 			cur = cur.next[level].node
 		}
 
@@ -216,7 +221,7 @@ func (sl *skipList) getRank(node *skipListNode) int {
 	rank := 0
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail || cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.before(node.score, node.data) {
 			rank += cur.next[level].span
 			cur = cur.next[level].node
 		}
-- 
2.43.0


From 3c0eddd67c11b6dab1248336a0fadbf8f5a9ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 12/47] fix: a negative bulk string length is a protocol error,
 not a crash

---
 pkg/protocol/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..2926f05 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < 0 {
+			return nil, fmt.Errorf("invalid bulk string length. length=%d", sLen)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
-- 
2.43.0


From 127ef2c04050a549901342dc29cc4c6c2a01429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 13/47] fix: a negative array length is a protocol error

---
 pkg/protocol/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 2926f05..0b9ae85 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -133,6 +133,8 @@ func (r *respReader) readArray() (RedisArray, error) {
 	if aLen == -1 {
 		// null array
 		return NewNullRedisArray(), nil
+	} else if aLen < 0 {
+		return nil, fmt.Errorf("invalid array length. length=%d", aLen)
 	}
 
 	var objects []RedisObject
-- 
2.43.0


From 44cb3abef4158bb00193982b36beebbc3175d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 14/47] fix: a bulk string must be terminated by CRLF

---
 pkg/protocol/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 0b9ae85..70faf81 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -97,6 +97,9 @@ func (r *respReader) readString() (RedisString, error) {
 		} else if sLen < 0 {
 			return nil, fmt.Errorf("invalid bulk string length. length=%d", sLen)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
+			if r.token[sLen:] != Delimiter {
+				return nil, fmt.Errorf("bulk string is not terminated properly. length=%d, token=%s", sLen, r.token)
+			}
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
 			return nil, fmt.Errorf("read real string failed. length=%d, token=%s, err={%w}", sLen, r.token, err)
-- 
2.43.0


From fe0dfdf862ef7f05c3018ef3a5dc799b6871442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 15/47] fix: limit the nesting depth of arrays, so that input
 cannot exhaust the stack

---
 pkg/protocol/reader.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 70faf81..5eac244 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -10,6 +10,9 @@ import (
 
 const (
 	delimiter byte = '\n'
+
+	// maxDepth limits how deep arrays can be nested, since each level costs stack space
+	maxDepth = 1024
 )
 
 // RESPReader interface allow reuse a io.Reader objects to avoid
@@ -124,7 +127,11 @@ func (r *respReader) readInteger() (RedisInteger, error) {
 	return NewRedisInteger(num), nil
 }
 
-func (r *respReader) readArray() (RedisArray, error) {
+func (r *respReader) readArray(depth int) (RedisArray, error) {
+	if depth >= maxDepth {
+		return nil, fmt.Errorf("arrays are nested too deep. limit=%d", maxDepth)
+	}
+
 	// length section
 	curToken := r.token
 	l := len(r.token)
@@ -142,7 +149,7 @@ func (r *respReader) readArray() (RedisArray, error) {
 
 	var objects []RedisObject
 	for i := 0; i < int(aLen); i++ {
-		obj, err := r.readObject()
+		obj, err := r.readObject(depth + 1)
 		if err != nil {
 			return nil, fmt.Errorf("read array object failed. index=%d, err={%w}", i, err)
 		}
@@ -152,7 +159,7 @@ func (r *respReader) readArray() (RedisArray, error) {
 	return NewRedisArray(objects), nil
 }
 
-func (r *respReader) readObject() (RedisObject, error) {
+func (r *respReader) readObject(depth int) (RedisObject, error) {
 	if err := r.readToken(); err == nil {
 		switch r.peek() {
 		case SimpleStringType, BulkStringType:
@@ -162,7 +169,7 @@ func (r *respReader) readObject() (RedisObject, error) {
 		case IntegerType:
 			return r.readInteger()
 		case ArrayType:
-			return r.readArray()
+			return r.readArray(depth)
 		default:
 			return nil, fmt.Errorf("invalid token. token=%s", r.token)
 		}
@@ -172,7 +179,7 @@ func (r *respReader) readObject() (RedisObject, error) {
 }
 
 func (r *respReader) ReadObject() (RedisObject, error) {
-	return r.readObject()
+	return r.readObject(0)
 }
 
 // Parse takes an io.Reader and try to parse a RedisObject from it.
@@ -183,7 +190,7 @@ func Parse(reader io.Reader) (RedisObject, error) {
 		reader: bufio.NewReader(reader),
 	}
 
-	return r.readObject()
+	return r.readObject(0)
 }
 
 func NewRESPReader(reader io.Reader) RESPReader {
-- 
2.43.0


From 86091938ec8a358402362be645d1c12966994736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 16/47] fix: ReadExactBytes must not hide that some bytes were
 read, or a torn log length passes for a clean end

---
 pkg/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index fe4f90a..baad649 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -106,14 +106,14 @@ func QuoteJoin(s []string, sep string) string {
 }
 
 // ReadExactBytes will takes an ByteReader then read exact count bytes to a byte slice.
-// Any error raised by the ByteReader will be directly returned.
+// Any error raised by the ByteReader will be directly returned, along with the bytes read before it.
 func ReadExactBytes(reader io.ByteReader, count int) ([]byte, error) {
 	var ret []byte
 
 	for idx := 0; idx < count; idx++ {
 		b, err := reader.ReadByte()
 		if err != nil {
-			return nil, err
+			return ret, err
 		}
 
 		ret = append(ret, b)
-- 
2.43.0


From e327fb11078e945b2fb463626d563924641d0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 17/47] fix: log arguments are arbitrary bytes, which proto3
 string fields refuse

---
 pkg/db/engine.go  |  6 +++---
 pkg/log/log.go    | 13 +++++++++----
 pkg/log/log.pb.go | 14 +++++++-------
 pkg/log/log.proto |  4 ++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..9eb3898 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -1,12 +1,12 @@
 package db
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"net"
 	"os"
 	"reflect"
-	"strings"
 	"sync"
 
 	"github.com/lxdlam/vertex/pkg/replication"
@@ -253,11 +253,11 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Infof("rebuild database by log end, success=%d", success)
 }
 
-func convertArguments(s []string) []protocol.RedisObject {
+func convertArguments(s [][]byte) []protocol.RedisObject {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
-		obj, err := protocol.Parse(strings.NewReader(item))
+		obj, err := protocol.Parse(bytes.NewReader(item))
 		if err != nil {
 			continue
 		}
diff --git a/pkg/log/log.go b/pkg/log/log.go
index 20ddf23..a8b902b 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -35,19 +35,24 @@ func NewLog(name string, index int, objects []protocol.RedisObject) *VertexLog {
 	vl.Name = name
 	vl.Index = int32(index)
 
-	var arguments []string
+	var arguments [][]byte
 	for _, item := range objects[1:] {
-		arguments = append(arguments, item.String())
+		arguments = append(arguments, item.Byte())
 	}
 
 	vl.Arguments = arguments
-	vl.RawRequest = protocol.NewRedisArray(objects).String()
+	vl.RawRequest = protocol.NewRedisArray(objects).Byte()
 
 	return vl
 }
 
 func FormatLog(vl *VertexLog) string {
-	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(vl.Arguments, ","), strconv.Quote(vl.RawRequest))
+	var arguments []string
+	for _, item := range vl.Arguments {
+		arguments = append(arguments, string(item))
+	}
+
+	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(arguments, ","), strconv.Quote(string(vl.RawRequest)))
 }
 
 // PackLog will package a log into the below form:
diff --git a/pkg/log/log.pb.go b/pkg/log/log.pb.go
index 7f63dc0..1e6c19e 100644
--- a/pkg/log/log.pb.go
+++ b/pkg/log/log.pb.go
@@ -36,8 +36,8 @@ type VertexLog struct {
 	Host       string   `protobuf:"bytes,3,opt,name=host,proto3" json:"host,omitempty"`
 	Name       string   `protobuf:"bytes,4,opt,name=name,proto3" json:"name,omitempty"`
 	Index      int32    `protobuf:"varint,5,opt,name=index,proto3" json:"index,omitempty"`
-	Arguments  []string `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
-	RawRequest string   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
+	Arguments  [][]byte `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
+	RawRequest []byte   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
 }
 
 func (x *VertexLog) Reset() {
@@ -107,18 +107,18 @@ func (x *VertexLog) GetIndex() int32 {
 	return 0
 }
 
-func (x *VertexLog) GetArguments() []string {
+func (x *VertexLog) GetArguments() [][]byte {
 	if x != nil {
 		return x.Arguments
 	}
 	return nil
 }
 
-func (x *VertexLog) GetRawRequest() string {
+func (x *VertexLog) GetRawRequest() []byte {
 	if x != nil {
 		return x.RawRequest
 	}
-	return ""
+	return nil
 }
 
 var File_log_proto protoreflect.FileDescriptor
@@ -133,9 +133,9 @@ var file_log_proto_rawDesc = []byte{
 	0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x14, 0x0a,
 	0x05, 0x69, 0x6e, 0x64, 0x65, 0x78, 0x18, 0x05, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x69, 0x6e,
 	0x64, 0x65, 0x78, 0x12, 0x1c, 0x0a, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x73,
-	0x18, 0x06, 0x20, 0x03, 0x28, 0x09, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
+	0x18, 0x06, 0x20, 0x03, 0x28, 0x0c, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
 	0x73, 0x12, 0x20, 0x0a, 0x0b, 0x72, 0x61, 0x77, 0x5f, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74,
-	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
+	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
 	0x65, 0x73, 0x74, 0x42, 0x22, 0x5a, 0x20, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63, 0x6f,
 	0x6d, 0x2f, 0x6c, 0x78, 0x64, 0x6c, 0x61, 0x6d, 0x2f, 0x76, 0x65, 0x72, 0x74, 0x65, 0x78, 0x2f,
 	0x70, 0x6b, 0x67, 0x2f, 0x6c, 0x6f, 0x67, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
diff --git a/pkg/log/log.proto b/pkg/log/log.proto
index 1e3bf6d..bd76c0b 100644
--- a/pkg/log/log.proto
+++ b/pkg/log/log.proto
@@ -9,7 +9,7 @@ message VertexLog {
     string host = 3;
     string name = 4;
     int32 index = 5;
-    repeated string arguments = 6; // The arguments are RESP string represent
+    repeated bytes arguments = 6; // The arguments are RESP string represent
 
-    string raw_request = 255;
+    bytes raw_request = 255;
 }
\ No newline at end of file
-- 
2.43.0


From 002c22a623d79e35e0523cb4db326a107c3edde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 18/47] fix: drop a torn record from the database file before
 appending to it

---
 pkg/log/log.go        | 27 +++++++++++++++++++++++++++
 pkg/network/server.go | 21 +++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/pkg/log/log.go b/pkg/log/log.go
index a8b902b..ba96df7 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strconv"
 	"time"
 
@@ -81,6 +82,32 @@ func PackLog(vl *VertexLog) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// CompleteSize returns how many bytes at the beginning of the log belong to complete records
+func CompleteSize(reader io.Reader) (int64, error) {
+	var size int64
+
+	lengthByte := make([]byte, 4)
+	r := bufio.NewReader(reader)
+
+	for {
+		if _, err := io.ReadFull(r, lengthByte); err == io.EOF || err == io.ErrUnexpectedEOF {
+			return size, nil
+		} else if err != nil {
+			return size, err
+		}
+
+		length := int64(binary.LittleEndian.Uint32(lengthByte))
+
+		if _, err := io.CopyN(ioutil.Discard, r, length); err == io.EOF {
+			return size, nil
+		} else if err != nil {
+			return size, err
+		}
+
+		size += 4 + length
+	}
+}
+
 type logReader struct {
 	reader *bufio.Reader
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..d087540 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"os"
 	"os/signal"
@@ -334,6 +335,25 @@ func (s *server) fromMaster(addr string) {
 	}
 }
 
+// dropTornTail removes an incomplete record at the end of the file, otherwise the records appended
+// from now on cannot be found by the next start.
+func dropTornTail(f *os.File) {
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		common.Warnf("seek database file failed. err=%s", err.Error())
+		return
+	}
+
+	size, err := log.CompleteSize(f)
+	if err != nil {
+		common.Warnf("find the end of complete logs failed. err=%s", err.Error())
+		return
+	}
+
+	if err := f.Truncate(size); err != nil {
+		common.Warnf("truncate database file failed. size=%d, err=%s", size, err.Error())
+	}
+}
+
 func (s *server) fromFile(file string) {
 	f, err := os.OpenFile(file, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0755)
 	if err != nil {
@@ -348,6 +368,7 @@ func (s *server) fromFile(file string) {
 	if err != nil {
 		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
 		// May contains incomplete log here, so we not return
+		dropTornTail(f)
 	}
 
 	if len(logs) > 0 {
-- 
2.43.0


From e789e7c49ace26dae59f3e583c642df4ecdaebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 19/47] fix: log writes in execution order and before they are
 acknowledged

---
 pkg/db/engine.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 9eb3898..5c23e24 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -121,13 +121,14 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 		return nil, fmt.Errorf("new commond error, name=%s, index=1, error={%w}", name, err)
 	}
 
-	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
-	}
-
 	db := e.getOrCreateDB(1)
 	db.ExecuteCommand(c)
 
+	// Log in the execution order, and before the client knows the result
+	if c.Type() == command.ModifyCommandType {
+		e.writeLog(name, 1, objects)
+	}
+
 	ret, err := c.Result()
 	if err != nil {
 		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)
-- 
2.43.0


From c62f9c3c8a5f9f95dcd147fc9f1ad6508f30ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 20/47] fix: log the members SPOP removed, since replaying SPOP
 would remove others

---
 pkg/db/engine.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5c23e24..e15e5a9 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -125,11 +125,17 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	db.ExecuteCommand(c)
 
 	// Log in the execution order, and before the client knows the result
+	ret, err := c.Result()
+
 	if c.Type() == command.ModifyCommandType {
-		e.writeLog(name, 1, objects)
+		if c.Name() != "spop" {
+			e.writeLog(name, 1, objects)
+		} else if popped := bulkStrings(ret); err == nil && len(popped) > 0 {
+			// The members are chosen at random, so log which ones are removed
+			e.writeLog("srem", 1, append([]protocol.RedisObject{protocol.NewBulkRedisString("srem"), objects[1]}, popped...))
+		}
 	}
 
-	ret, err := c.Result()
 	if err != nil {
 		return nil, fmt.Errorf("execute error. name=%s, command=%+v, err={%w}", name, c, err)
 	}
@@ -137,6 +143,24 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	return ret, nil
 }
 
+// bulkStrings returns the non null bulk strings of a response, which is one of them or an array of them
+func bulkStrings(response protocol.RedisObject) []protocol.RedisObject {
+	var ret []protocol.RedisObject
+
+	switch obj := response.(type) {
+	case protocol.RedisArray:
+		for _, item := range obj.Data() {
+			ret = append(ret, bulkStrings(item)...)
+		}
+	case protocol.RedisString:
+		if obj.String() != protocol.NullBulkStringLiteral {
+			ret = append(ret, obj)
+		}
+	}
+
+	return ret
+}
+
 func (e *engine) Start() {
 	if e.master != nil {
 		e.master.Start()
-- 
2.43.0


From c78f75f8b3339a9c6470831efd83c8efb1c114fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 21/47] fix: stopping an engine without a replica port or a
 database file must not crash

---
 pkg/db/engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index e15e5a9..00e05ce 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -222,8 +222,12 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	if e.master != nil {
+		e.master.Stop()
+	}
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
 	close(e.shutChan)
 }
 
-- 
2.43.0


From 4fdd3b17b889e8913e9092ce3839b2d1cb68f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 22/47] fix: a request that is not an array gets an error reply
 instead of none

---
 pkg/db/engine.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 00e05ce..b3ec2ec 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -94,12 +94,11 @@ func parseRequest(data types.DataMap) (id string, objects []protocol.RedisObject
 		return
 	}
 
-	obj, ok := response.(protocol.RedisArray)
-	if !ok {
-		return
+	// Anything else than an array has no objects, which is not a valid request and will be answered so
+	if obj, isArray := response.(protocol.RedisArray); isArray {
+		objects = obj.Data()
 	}
 
-	objects = obj.Data()
 	return
 }
 
-- 
2.43.0


From 5b1e87464bdea2394ab459667c6528bf37901a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 23/47] fix: an error reply must not contain line breaks

---
 pkg/db/engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index b3ec2ec..d9e5e83 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"os"
 	"reflect"
+	"strings"
 	"sync"
 
 	"github.com/lxdlam/vertex/pkg/replication"
@@ -310,7 +311,9 @@ func handleError(err error) protocol.RedisError {
 	}
 
 	// TODO: do not send raw error
-	return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%+v", err))
+	// The message may quote anything the client sent, but a RESP error cannot contain line breaks
+	message := fmt.Sprintf("ERR vertex server internal error, err=%+v", err)
+	return protocol.NewRedisError(strings.NewReplacer("\r", " ", "\n", " ").Replace(message))
 }
 
 func (e *engine) SetFile(file *os.File, filePath string) {
-- 
2.43.0


From c7164cbb90c307f769d2cc226ffcaecc0e4a96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 24/47] fix: reading or writing a closed connection must not
 block forever

---
 pkg/network/conn.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 0c53ebf..1db2119 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -73,8 +73,20 @@ func NewConnWithExpire(tcpConn net.Conn, expireTime time.Duration) Conn {
 	return c
 }
 
+// reset restarts the expire time
+func (c *conn) reset() error {
+	select {
+	case c.resetChan <- 0:
+		return nil
+	case <-c.closeChan:
+		return ErrConnIsClosed
+	}
+}
+
 func (c *conn) Read() (protocol.RedisObject, error) {
-	c.resetChan <- 0
+	if err := c.reset(); err != nil {
+		return nil, err
+	}
 
 	obj, err := c.reader.ReadObject()
 
@@ -97,7 +109,9 @@ func (c *conn) Write(s string) error {
 		return ErrConnIsClosed
 	}
 
-	c.resetChan <- 0
+	if err := c.reset(); err != nil {
+		return err
+	}
 
 	n, err := c.tcpConn.Write([]byte(s))
 
-- 
2.43.0


From cd3a48d3b8a13d40ff008cabe8ad055769c8f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 25/47] fix: closing a connection must not hang on a peer that
 does not read

---
 pkg/network/conn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 1db2119..bc00fcb 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -16,8 +16,9 @@ import (
 )
 
 var (
-	defaultExpireTime = 10 * time.Minute
-	closeMessage      = []byte("TTL expired")
+	defaultExpireTime   = 10 * time.Minute
+	closeMessage        = []byte("TTL expired")
+	closeMessageTimeout = 100 * time.Millisecond
 
 	// ErrConnIsClosed will be raised if do any operation on a closed conn
 	ErrConnIsClosed = errors.New("conn: conn is already closed")
@@ -126,6 +127,8 @@ func (c *conn) Write(s string) error {
 
 func (c *conn) Close() error {
 	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
+		// neither the message nor a pending write may hold up the close if the peer does not read
+		_ = c.tcpConn.SetWriteDeadline(time.Now().Add(closeMessageTimeout))
 		_, _ = c.tcpConn.Write(closeMessage)
 		// discard all streams
 		_ = c.tcpConn.Close()
-- 
2.43.0


From 867dc78602f77563a6bff785bcb4a0a0f98a27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 26/47] fix: a connection whose session is over must be closed
 and forgotten

---
 pkg/network/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index d087540..3de7db8 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -189,6 +189,12 @@ func (s *server) newConn(conn net.Conn) {
 	s.clients.Store(c.ID(), c)
 
 	go func() {
+		// Whatever ends the session, nothing can be read from or answered to this client anymore
+		defer func() {
+			s.clients.Delete(c.ID())
+			_ = c.Close()
+		}()
+
 		for {
 			request, err := c.Read()
 			if errors.Is(err, ErrConnIsClosed) {
@@ -292,7 +298,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
-- 
2.43.0


From 544476110b4d1c0692aeebc1d2f2a2ed26565c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 27/47] fix: no request or response may be lost or overtaken
 when the engine or the server is busy

---
 pkg/concurrency/event_bus.go | 13 +++++++++++++
 pkg/db/engine.go             |  5 ++++-
 pkg/network/server.go        |  6 +++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/event_bus.go b/pkg/concurrency/event_bus.go
index a39aff9..f75bb8a 100644
--- a/pkg/concurrency/event_bus.go
+++ b/pkg/concurrency/event_bus.go
@@ -220,6 +220,19 @@ func (e *eventBus) ExistTopic(name string) bool {
 	return exist
 }
 
+// PublishUntilDelivered publishes an event again until a subscriber has received it. It returns the error of the
+// publish if that is not possible, e.g., ErrNoSuchTopic if the topic is removed.
+func PublishUntilDelivered(bus EventBus, topic string, data interface{}, err error) error {
+	for {
+		delivered, publishErr := bus.Publish(topic, data, err).Get()
+		if publishErr != nil {
+			return publishErr
+		} else if count, ok := delivered.(int); ok && count > 0 {
+			return nil
+		}
+	}
+}
+
 // GetEventBus is an global function that returns the event bus object
 func GetEventBus() EventBus {
 	once.Do(func() {
diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index d9e5e83..eb3a61a 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -216,7 +216,10 @@ Outer:
 				responseMap.Set("response", ret)
 			}
 
-			e.eventBus.Publish("response", responseMap, err)
+			// Wait for the delivery, otherwise responses will be lost if the server is busy, or overtake each other
+			if err := concurrency.PublishUntilDelivered(e.eventBus, "response", responseMap, err); err != nil {
+				common.Warnf("response cannot be delivered. id=%s, err=%s", id, err.Error())
+			}
 		}
 	}
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 3de7db8..e583b8e 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -209,7 +209,11 @@ func (s *server) newConn(conn net.Conn) {
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
 
-			concurrency.GetEventBus().Publish("request", dataMap, nil)
+			// Wait for the delivery, otherwise requests will be lost if the engine is busy, or overtake each other
+			if err := concurrency.PublishUntilDelivered(s.eventBus, "request", dataMap, nil); err != nil {
+				common.Warnf("server: request cannot be delivered. addr=%s, err=%s", c.Addr(), err.Error())
+				return
+			}
 		}
 	}()
 }
-- 
2.43.0


From 5c6dadd158b448a0febd03f38ab24232458eafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 28/47] fix: a client that does not read its responses must not
 block all the others

---
 pkg/network/server.go | 60 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index e583b8e..c4ddb14 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -32,6 +32,9 @@ var (
 	FatalResponse = protocol.NewRedisError("fatal error by vertex. check server log.")
 )
 
+// maxPendingRequests is how many requests of a client can be served before it reads the responses
+const maxPendingRequests = 1024
+
 // Server is the main service of vertex.
 type Server interface {
 	// Prepare the resource, false if failed.
@@ -184,14 +187,55 @@ func (s *server) Stop() {
 	s.stop()
 }
 
+// client is a connection with a worker that writes its responses, so that nobody else has to wait for a client
+// that does not read.
+type client struct {
+	Conn
+	pending    chan struct{} // holds an item for each request whose response is not written yet
+	responses  chan string   // as large as pending, so sending to it never blocks
+	readDone   chan struct{}
+	writerDone chan struct{}
+}
+
+func newClient(conn net.Conn) *client {
+	return &client{
+		Conn:       NewConn(conn),
+		pending:    make(chan struct{}, maxPendingRequests),
+		responses:  make(chan string, maxPendingRequests),
+		readDone:   make(chan struct{}),
+		writerDone: make(chan struct{}),
+	}
+}
+
+func (c *client) writeWorker() {
+	defer close(c.writerDone)
+
+	for {
+		select {
+		case response := <-c.responses:
+			if err := c.Write(response); err != nil {
+				_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", c.Addr(), response)
+				_ = c.Close()
+				return
+			}
+			<-c.pending
+		case <-c.readDone:
+			return
+		}
+	}
+}
+
 func (s *server) newConn(conn net.Conn) {
-	c := NewConn(conn)
+	c := newClient(conn)
 	s.clients.Store(c.ID(), c)
 
+	go c.writeWorker()
+
 	go func() {
 		// Whatever ends the session, nothing can be read from or answered to this client anymore
 		defer func() {
 			s.clients.Delete(c.ID())
+			close(c.readDone)
 			_ = c.Close()
 		}()
 
@@ -205,6 +249,13 @@ func (s *server) newConn(conn net.Conn) {
 				return
 			}
 
+			// A client that does not take its responses has to wait
+			select {
+			case c.pending <- struct{}{}:
+			case <-c.writerDone:
+				return
+			}
+
 			dataMap := types.NewSimpleDataMap()
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
@@ -277,13 +328,10 @@ Outer:
 				break
 			}
 
-			conn, ok := s.clients.Load(id)
+			c, ok := s.clients.Load(id)
 
 			if ok {
-				if err := conn.(Conn).Write(obj.String()); err != nil {
-					_ = common.Errorf("send response to client failed. client.addr=%s, object=%s", conn.(Conn).Addr(), obj.String())
-					break
-				}
+				c.(*client).responses <- obj.String()
 			} else {
 				_ = common.Errorf("conn not exist. id=%s", id)
 			}
-- 
2.43.0


From bb66e833d49b4f26ac64eecaf404a93a6174d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 29/47] fix: Serve must not return before the shutdown is
 complete, or logs are lost

---
 pkg/network/server.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index c4ddb14..f75628b 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -11,7 +11,6 @@ import (
 	"reflect"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -56,7 +55,7 @@ type server struct {
 	eventBus         concurrency.EventBus
 	sigChan          chan os.Signal
 	shutChan         chan struct{}
-	shutdown         int32
+	shutdown         sync.Once
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
@@ -69,7 +68,6 @@ func NewServer() Server {
 		tcpListener:      nil,
 		eventBus:         concurrency.GetEventBus(),
 		shutChan:         nil,
-		shutdown:         0,
 		responseReceiver: nil,
 		cleanUpHandles:   nil,
 		clients:          sync.Map{},
@@ -340,7 +338,8 @@ Outer:
 }
 
 func (s *server) stop() {
-	if atomic.CompareAndSwapInt32(&s.shutdown, 0, 1) {
+	// Whoever comes late waits for the first to finish, since the process may exit afterwards
+	s.shutdown.Do(func() {
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
 
@@ -358,7 +357,7 @@ func (s *server) stop() {
 		})
 
 		common.Info("server shutdown")
-	}
+	})
 }
 
 func (s *server) syncExternal(file string, master string) {
-- 
2.43.0


From 85624aaf585c9ee5b3af27dfa4bfa737dc03bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 30/47] fix: the master must close every replica connection and
 file it is done with

---
 pkg/replication/master.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..6cbb567 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -92,18 +92,25 @@ func (m *master) stop() {
 }
 
 func (m *master) handleConn(conn net.Conn) {
+	defer func() { _ = conn.Close() }()
+
 	if m.file == nil {
 		_ = common.Errorf("no file provided.")
 		return
 	}
 
 	addr := conn.RemoteAddr().String()
-	defer func() { _ = conn.Close() }()
 
 	m.mutex.Lock()
 	m.conn[addr] = conn
 	m.mutex.Unlock()
 
+	defer func() {
+		m.mutex.Lock()
+		delete(m.conn, addr)
+		m.mutex.Unlock()
+	}()
+
 	filePath := fmt.Sprintf("/tmp/vertex/%s", util.GenNewUUID())
 	tmpFile, err := os.Create(filePath)
 	if err != nil {
@@ -128,6 +135,8 @@ func (m *master) handleConn(conn net.Conn) {
 		return
 	}
 
+	defer func() { _ = rawFile.Close() }()
+
 	n, err := io.Copy(tmpFile, rawFile)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
@@ -170,10 +179,6 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
 		return
 	}
-
-	m.mutex.Lock()
-	delete(m.conn, addr)
-	m.mutex.Unlock()
 }
 
 func (m *master) Start() {
-- 
2.43.0


From ce38c17f79870dd71316696beb2008f86572025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 31/47] fix: stopping the master must stop listening and not
 race with its connections

---
 pkg/replication/master.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 6cbb567..73db8d4 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -82,8 +82,10 @@ func (m *master) start() {
 
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
+		_ = m.listener.Close()
+
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
-- 
2.43.0


From 51a99c39228f812bab17f72d2a66c9d063b48df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 32/47] fix: a snapshot for a replica must not end inside a
 record that is being written

---
 pkg/log/persistent.go     | 18 ++++++++++++++++++
 pkg/replication/master.go |  5 +++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/log/persistent.go b/pkg/log/persistent.go
index cbb7353..1417a5c 100644
--- a/pkg/log/persistent.go
+++ b/pkg/log/persistent.go
@@ -49,6 +49,24 @@ func (p *PersistentFile) Flush() error {
 	return p.writer.Flush()
 }
 
+// FlushedSize flushes the buffer and returns the size of the file after that. As each Write is done as a whole,
+// the bytes before it never end inside a record.
+func (p *PersistentFile) FlushedSize() (int64, error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+
+	if err := p.writer.Flush(); err != nil {
+		return 0, err
+	}
+
+	stat, err := p.file.Stat()
+	if err != nil {
+		return 0, err
+	}
+
+	return stat.Size(), nil
+}
+
 // ReadFrom do what?
 // Not to proxy it here.
 
diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 73db8d4..ef35628 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -125,7 +125,7 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = os.Remove(filePath)
 	}()
 
-	err = m.file.Flush()
+	size, err := m.file.FlushedSize()
 	if err != nil {
 		_ = common.Errorf("save to file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
@@ -139,7 +139,8 @@ func (m *master) handleConn(conn net.Conn) {
 
 	defer func() { _ = rawFile.Close() }()
 
-	n, err := io.Copy(tmpFile, rawFile)
+	// Only what is complete now, as other records may be written at any time
+	n, err := io.CopyN(tmpFile, rawFile, size)
 	if err != nil {
 		_ = common.Errorf("copy file failed. addr=%s, path=%s, err=%s", addr, filePath, err.Error())
 		return
-- 
2.43.0


From 144bacd9c96e87e396f7b7ab9208d046c309817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 33/47] fix: the client must keep empty and partly quoted words
 and refuse an unbalanced quote

---
 cmd/client/internal/codec.go | 55 +++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index ed126fc..d134953 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -11,60 +11,71 @@ import (
 	"github.com/lxdlam/vertex/pkg/protocol"
 )
 
+var errUnbalancedQuote = errors.New("unbalanced quote")
+
 func FormatInput(input string) (string, error) {
 	var arr []protocol.RedisObject
 	reader := bufio.NewReader(strings.NewReader(input))
 
 	for {
-		s, err := parseString(reader)
+		s, exist, err := parseString(reader)
 
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				if s != "" {
-					arr = append(arr, protocol.NewBulkRedisString(s))
-				}
-				break
-			} else {
-				return "", err
-			}
+		if err != nil && !errors.Is(err, io.EOF) {
+			return "", err
 		}
 
-		if s != "" {
+		if exist {
 			arr = append(arr, protocol.NewBulkRedisString(s))
 		}
+
+		if err != nil {
+			break
+		}
 	}
 
 	return protocol.NewRedisArray(arr).String(), nil
 }
 
-func parseString(reader *bufio.Reader) (string, error) {
+// parseString reads until the next space outside of quotes. It also reports if there is a word at all, since a pair of
+// quotes is an empty one.
+func parseString(reader *bufio.Reader) (string, bool, error) {
 	var buf bytes.Buffer
+	exist := false
+
 	for {
 		b, e := reader.ReadByte()
 		if e != nil {
-			if errors.Is(e, io.EOF) {
-				return buf.String(), e
-			}
-			return "", e
+			return buf.String(), exist, e
 		}
 
-		if b == '"' {
-			return parseQuote(reader)
-		} else if b == ' ' {
+		if b == ' ' {
 			break
 		}
 
-		buf.WriteByte(b)
+		exist = true
+
+		if b == '"' {
+			quoted, e := parseQuote(reader)
+			if e != nil {
+				return "", false, e
+			}
+
+			buf.WriteString(quoted)
+		} else {
+			buf.WriteByte(b)
+		}
 	}
 
-	return buf.String(), nil
+	return buf.String(), exist, nil
 }
 
 func parseQuote(reader *bufio.Reader) (string, error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
-		if e != nil {
+		if errors.Is(e, io.EOF) {
+			return "", errUnbalancedQuote
+		} else if e != nil {
 			return "", e
 		} else if b == '"' {
 			break
-- 
2.43.0


From 435d27300aa3a435352e95a45145d00201ca7b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 34/47] fix: formatted log calls must pass on their arguments
 one by one

---
 pkg/common/logging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index 838894c..c66312d 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -98,7 +98,7 @@ func Debug(log string) {
 // Debugf works like Printf and works same as Debug
 func Debugf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Debugf(template, a)
+		logger.Debugf(template, a...)
 	}
 }
 
@@ -112,7 +112,7 @@ func Info(log string) {
 // Infof works like Printf and works same as Info
 func Infof(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Infof(template, a)
+		logger.Infof(template, a...)
 	}
 }
 
@@ -126,7 +126,7 @@ func Warn(log string) {
 // Warnf works like Printf and works same as Warn
 func Warnf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Warnf(template, a)
+		logger.Warnf(template, a...)
 	}
 }
 
@@ -159,7 +159,7 @@ func Panic(log string) {
 // Panicf works like Printf and works same as Panic
 func Panicf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Panicf(template, a)
+		logger.Panicf(template, a...)
 	}
 }
 
@@ -174,7 +174,7 @@ func Fatal(log string) {
 // Fatalf works like Printf and works same as Fatal
 func Fatalf(template string, a ...interface{}) {
 	if logger != nil {
-		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a)
-		logger.Fatalf(template, a)
+		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a...)
+		logger.Fatalf(template, a...)
 	}
 }
-- 
2.43.0


From 9859a74694ea8135bf41f17b639899ccdf7400b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 35/47] fix: Errorf must log the message of the error it
 returns, wrapped errors included

---
 pkg/common/logging.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index c66312d..a3dd66c 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -141,11 +141,13 @@ func Error(log string) error {
 
 // Errorf works like Printf and works same as Error
 func Errorf(template string, a ...interface{}) error {
+	err := fmt.Errorf(template, a...)
+
 	if logger != nil {
-		logger.Errorf(template, a...)
+		logger.Error(err.Error())
 	}
 
-	return fmt.Errorf(template, a...)
+	return err
 }
 
 // Panic will generate a new panic log into to the logger,
-- 
2.43.0


From cd452e21377ef117e954d5db7928be000e648fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 36/47] fix: the client must show an empty array

---
 cmd/client/internal/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index d134953..59d7318 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -123,7 +123,7 @@ func formatInteger(obj protocol.RedisInteger) string {
 }
 
 func formatArray(obj protocol.RedisArray) string {
-	if obj.String() == protocol.NullArrayLiteral {
+	if len(obj.Data()) == 0 {
 		return "(empty list or set)"
 	}
 
-- 
2.43.0


From 7dd624a694b97e611d84016cceea627ff99619b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 37/47] fix: a future must settle only once when it is
 cancelled concurrently

---
 pkg/concurrency/future.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 3210155..5a729e2 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync"
 	"time"
 )
 
@@ -46,6 +47,9 @@ type future struct {
 	err        error
 	doneChan   chan struct{}
 	cancelChan chan struct{}
+
+	// mutex makes sure that only one of the channels will be closed, and only once
+	mutex sync.Mutex
 }
 
 // NewFuture will start a new future with the given function.
@@ -67,6 +71,10 @@ func NewFuture(task Task) Future {
 func (f *future) start() {
 	go func() {
 		f.result, f.err = f.task.Run()
+
+		f.mutex.Lock()
+		defer f.mutex.Unlock()
+
 		select {
 		// Already cancelled, leaves the doneChan open
 		case <-f.cancelChan:
@@ -78,6 +86,9 @@ func (f *future) start() {
 }
 
 func (f *future) Cancel() error {
+	f.mutex.Lock()
+	defer f.mutex.Unlock()
+
 	select {
 	case <-f.doneChan:
 		return ErrFulfilled
-- 
2.43.0


From 29fc2aef63fc664c9f9a21989066101ef70c02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 38/47] fix: a timed wait on a settled future must not report a
 timeout

---
 pkg/concurrency/future.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 5a729e2..b995bcf 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -126,6 +126,14 @@ func (f *future) WaitFor(d time.Duration) error {
 	case <-f.cancelChan:
 		return ErrCancelled
 	case <-time.After(d):
-		return ErrTimeout
+		// It may be settled as well, which is what counts
+		select {
+		case <-f.doneChan:
+			return nil
+		case <-f.cancelChan:
+			return ErrCancelled
+		default:
+			return ErrTimeout
+		}
 	}
 }
-- 
2.43.0


From 7617ac0f4485c094ecafc6e6754ea27cf9816646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 39/47] fix: closing a data channel must wake up a waiting
 receive

---
 pkg/concurrency/data_channel.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 7e5d0f8..ca60838 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -56,7 +56,7 @@ type Sender interface {
 
 type receiver struct {
 	dataChannel  <-chan Event
-	closeChannel chan<- struct{}
+	closeChannel chan struct{}
 	closed       int32
 }
 
@@ -117,7 +117,12 @@ func (r *receiver) Receive() (Event, error) {
 		return nil, ErrChannelClosed
 	}
 
-	return <-r.dataChannel, nil
+	select {
+	case <-r.closeChannel:
+		return nil, ErrChannelClosed
+	case event := <-r.dataChannel:
+		return event, nil
+	}
 }
 
 func (r *receiver) Close() {
-- 
2.43.0


From f14d9c4d7228eadeacb5b2fc42e4997a766de675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 40/47] fix: sending to a closed data channel must never
 succeed

---
 pkg/concurrency/data_channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index ca60838..d94eb4e 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -132,6 +132,13 @@ func (r *receiver) Close() {
 }
 
 func (s *sender) Send(event Event) int {
+	// Check it first, since select chooses at random if there is also a room for the event
+	select {
+	case <-s.closeChannel:
+		return Closed
+	default:
+	}
+
 	select {
 	case <-s.closeChannel:
 		return Closed
-- 
2.43.0


From 62b018ef497337ad07fc63215680d074fb844c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 41/47] fix: a send must not expire while there is a reader or
 a room for it

---
 pkg/concurrency/data_channel.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index d94eb4e..36c6483 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -145,6 +145,14 @@ func (s *sender) Send(event Event) int {
 	case s.dataChannel <- event:
 		return Success
 	case <-time.After(s.expireTime):
-		return Expired
+		// The others may be ready as well, then it is not expired
+		select {
+		case <-s.closeChannel:
+			return Closed
+		case s.dataChannel <- event:
+			return Success
+		default:
+			return Expired
+		}
 	}
 }
-- 
2.43.0


From d907a4470aaa21333465554bc513bf5015bf7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 42/47] fix: collecting the closed subscribers of a topic must
 not race

---
 pkg/concurrency/topic.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index cdc0622..2c5989d 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -76,17 +76,10 @@ func (t *topic) Remove() {
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	var closedKeys []string
+	var mutex sync.Mutex // protects closedKeys
 	var wg sync.WaitGroup
 	var successCount int32
 
-	ch := make(chan string)
-
-	go func() {
-		for key := range ch {
-			closedKeys = append(closedKeys, key)
-		}
-	}()
-
 	t.subscribers.Range(func(k interface{}, s interface{}) bool {
 		wg.Add(1)
 
@@ -96,7 +89,9 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 		go func() {
 			status := subscriber.Send(e)
 			if status == Closed {
-				ch <- name
+				mutex.Lock()
+				closedKeys = append(closedKeys, name)
+				mutex.Unlock()
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
 			} else {
@@ -111,7 +106,6 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 
 	wg.Wait()
 	successChan <- successCount
-	close(ch)
 
 	go t.batchRemove(closedKeys)
 }
-- 
2.43.0


From 6e64f5d06a3fa5b5427eae761f1710370df925b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 43/47] fix: forgetting a closed subscriber must not remove a
 new one with the same name

---
 pkg/concurrency/topic.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index 2c5989d..fad7e43 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -40,20 +40,30 @@ func NewTopic(name string) Topic {
 type topic struct {
 	name        string
 	subscribers sync.Map
+
+	// mutex protects a new subscriber from being removed in place of the closed one with the same name
+	mutex sync.Mutex
 }
 
 func (t *topic) Subscribe(name string) Receiver {
 	r, s := NewDataChannel()
-	t.subscribers.Store(name, s)
+	t.store(name, s)
 	return r
 }
 
 func (t *topic) SubscribeWithOptions(name string, size int, duration time.Duration) Receiver {
 	r, s := NewDataChannelWithOption(size, duration)
-	t.subscribers.Store(name, s)
+	t.store(name, s)
 	return r
 }
 
+func (t *topic) store(name string, s Sender) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	t.subscribers.Store(name, s)
+}
+
 func (t *topic) Publish(e Event) (fut Future) {
 	ch := make(chan int32, 1)
 
@@ -75,8 +85,8 @@ func (t *topic) Remove() {
 }
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
-	var closedKeys []string
-	var mutex sync.Mutex // protects closedKeys
+	closedSenders := make(map[string]Sender)
+	var mutex sync.Mutex // protects closedSenders
 	var wg sync.WaitGroup
 	var successCount int32
 
@@ -90,7 +100,7 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 			status := subscriber.Send(e)
 			if status == Closed {
 				mutex.Lock()
-				closedKeys = append(closedKeys, name)
+				closedSenders[name] = subscriber
 				mutex.Unlock()
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
@@ -107,11 +117,16 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	wg.Wait()
 	successChan <- successCount
 
-	go t.batchRemove(closedKeys)
+	go t.batchRemove(closedSenders)
 }
 
-func (t *topic) batchRemove(removeKeys []string) {
-	for _, name := range removeKeys {
-		t.subscribers.Delete(name)
+func (t *topic) batchRemove(closedSenders map[string]Sender) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	for name, closed := range closedSenders {
+		if current, ok := t.subscribers.Load(name); ok && current.(Sender) == closed {
+			t.subscribers.Delete(name)
+		}
 	}
 }
-- 
2.43.0


From d2cf654caa9acb9c47d7e2234f463851c612aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 44/47] fix: a read that begins while the connection is being
 closed must not succeed

---
 pkg/network/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index bc00fcb..aeaec1d 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -85,6 +85,10 @@ func (c *conn) reset() error {
 }
 
 func (c *conn) Read() (protocol.RedisObject, error) {
+	if c.IsClosed() {
+		return nil, ErrConnIsClosed
+	}
+
 	if err := c.reset(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 53b8b2ae351fe19b5d853e1061c1bdd76030ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 45/47] fix: a shutdown signal that arrives before its receiver
 waits must not be lost

---
 pkg/network/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index f75628b..384e305 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -122,7 +122,7 @@ func (s *server) Init(c common.Config) bool {
 	s.syncExternal(c.DatabaseFile, c.MasterAddress)
 
 	s.shutChan = make(chan struct{})
-	s.sigChan = make(chan os.Signal)
+	s.sigChan = make(chan os.Signal, 1) // a signal is dropped if nobody is ready to receive it
 	signal.Notify(s.sigChan, syscall.SIGINT, syscall.SIGABRT, syscall.SIGTERM, syscall.SIGKILL)
 
 	go func() {
-- 
2.43.0


From 9da636f2de6e674a7b6d25625e5c9f1e96c3aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 46/47] fix: the client must not end at a line of 64 KiB

---
 cmd/client/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/client/main.go b/cmd/client/main.go
index d199918..4904704 100644
--- a/cmd/client/main.go
+++ b/cmd/client/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"net"
 	"os"
 
@@ -15,6 +16,8 @@ const prompt = ">>> "
 
 func main() {
 	scanner := bufio.NewScanner(os.Stdin)
+	// By default it stops at a line of 64 KiB, which would end the client as if the input was over
+	scanner.Buffer(nil, math.MaxInt32)
 
 	c, err := net.Dial("tcp", "127.0.0.1:6789")
 	if err != nil {
-- 
2.43.0


From b8b901457f5f235157bbba5d0ea74bfe663cacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:11 +0000
Subject: [PATCH 47/47] fix: an accept error must not end the replication
 service

---
 pkg/replication/master.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index ef35628..d41ed2f 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -10,12 +10,15 @@ import (
 	"strings"
 	"sync"
 	"sync/atomic"
+	"time"
 
 	"github.com/lxdlam/vertex/pkg/common"
 	"github.com/lxdlam/vertex/pkg/log"
 	"github.com/lxdlam/vertex/pkg/util"
 )
 
+const acceptRetryInterval = 10 * time.Millisecond
+
 func init() {
 	// Ensure the dir is exist
 	_ = os.Mkdir("/tmp/vertex", 0755)
@@ -69,8 +72,10 @@ func (m *master) start() {
 				if strings.HasSuffix(err.Error(), "use of closed network connection") {
 					break Outer
 				} else {
+					// It may be temporary, e.g., if too many files are open
 					common.Warnf("tcp listen error. err=%s", err)
-					break
+					time.Sleep(acceptRetryInterval)
+					continue
 				}
 			}
 
-- 
2.43.0

