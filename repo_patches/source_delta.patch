From c6447864022abc711f2a18920c922f8b56da8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/64] fix: LINDEX read the list named by the index argument

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From c2f3c4db9d2559adf505f2abb5321bbca31e3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/64] fix: hashes created by HSET, HINCRBY and HINCRBYFLOAT
 were never stored

---
 datastruct/hash_table.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..b0d0c4f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -178,6 +178,16 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
+func createHashTable(key string) *hashTable {
+	h := newHashTable()
+	defaultCache.keys.Set(key, &KeyInfo{
+		Type:  KeyTypeHashTable,
+		Value: h,
+	})
+
+	return h
+}
+
 func HDel(key, field string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
@@ -226,7 +236,7 @@ func HGetAll(key string) (map[string]interface{}, error) {
 func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
-		h = newHashTable()
+		h = createHashTable(key)
 		err = nil
 	}
 
@@ -240,7 +250,7 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
-		h = newHashTable()
+		h = createHashTable(key)
 		err = nil
 	}
 
@@ -283,7 +293,7 @@ func HMGet(key string, fields ...string) ([]interface{}, error) {
 func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
-		h = newHashTable()
+		h = createHashTable(key)
 		err = nil
 	}
 
-- 
2.43.0


From b802ffadc1e6f7306e5e7b3a4b4804abdc9727cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 03/64] fix: HDEL counted missing fields and ignored removed
 ones

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index b0d0c4f..a2a6bd5 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
-- 
2.43.0


From f358644aa95345fb3c779fc3d1d4ffb90213946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 04/64] fix: HEXISTS replied 1 for a field the hash does not
 have

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index a2a6bd5..84cb117 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -207,7 +207,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From 155569c60d67739e110e19f9897bf97c14bcd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 05/64] fix: hash values that look like numbers were rewritten
 (007 became 7, 1e3 became 1000)

---
 datastruct/hash_table.go | 29 +++++-------------------
 redis/hash_table.go      | 11 +--------
 util/strconv.go          | 49 ++++++++++++++++++++++++++++++++++++----
 3 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 84cb117..6cd4856 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,9 +1,8 @@
 package datastruct
 
 import (
-	"strconv"
-
 	smap "github.com/yusank/godis/lib/shard_map"
+	"github.com/yusank/godis/util"
 )
 
 type hashTable struct {
@@ -70,7 +69,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return i, false
 		}
 
-		i64, ok := valueInMap.(int64)
+		i64, ok := util.NumericValue(valueInMap).(int64)
 		if !ok {
 			return ErrNotInteger, true
 		}
@@ -92,7 +91,7 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return i, false
 		}
 
-		i64, ok := valueInMap.(float64)
+		i64, ok := util.NumericValue(valueInMap).(float64)
 		if !ok {
 			return ErrNotFloat, true
 		}
@@ -121,14 +120,7 @@ func (h *hashTable) mGet(fields ...string) []interface{} {
 			result[i] = value
 			continue
 		}
-		switch v := value.(type) {
-		case string:
-			result[i] = v
-		case int64:
-			result[i] = strconv.FormatInt(v, 10)
-		case float64:
-			result[i] = strconv.FormatFloat(v, 'g', -1, 64)
-		}
+		result[i] = util.FormatValue(value)
 	}
 
 	return result
@@ -143,20 +135,11 @@ func (h *hashTable) mSet(kvs []*KV) {
 func (h *hashTable) values() []string {
 	var result []string
 	h.table.Range(func(_ string, value interface{}) bool {
-		var vStr string
-		switch v := value.(type) {
-		case string:
-			vStr = v
-		case int64:
-			vStr = strconv.FormatInt(v, 10)
-		case float64:
-			vStr = strconv.FormatFloat(v, 'g', -1, 64)
-		}
-		result = append(result, vStr)
+		result = append(result, util.FormatValue(value))
 
 		return true
 	})
-	
+
 	return result
 }
 
diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..a37196b 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -53,17 +53,8 @@ func hGet(c *Command) (*protocol.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	var res string
-	switch vv := v.(type) {
-	case string:
-		res = vv
-	case int64:
-		res = strconv.FormatInt(vv, 10)
-	case float64:
-		res = strconv.FormatFloat(vv, 'g', -1, 64)
-	}
 
-	return protocol.NewResponseWithBulkString(res), nil
+	return protocol.NewResponseWithBulkString(util.FormatValue(v)), nil
 }
 
 // hGetAll .
diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..5b52dd4 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -1,21 +1,62 @@
 package util
 
 import (
+	"math"
 	"strconv"
 )
 
-// ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
+// Number is a number whose text is not the one formatting its value gives, such as "007", "1.50" or "1e3".
+type Number struct {
+	Text  string
+	Value interface{} // either int64 or float64
+}
+
+// ConvertToValidValue convert s either int64 or float64 (or Number if that would lose the text of s)
+// otherwise return s itself.
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
 	if err == nil {
-		return i64
+		return keepText(s, i64)
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
-		return f64
+	if err == nil && !math.IsNaN(f64) && !math.IsInf(f64, 0) {
+		return keepText(s, f64)
 	}
 
 	return s
 }
+
+func keepText(s string, v interface{}) interface{} {
+	if FormatValue(v) == s {
+		return v
+	}
+
+	return Number{Text: s, Value: v}
+}
+
+// NumericValue return the int64 or float64 of a value returned by ConvertToValidValue, or the value itself.
+func NumericValue(v interface{}) interface{} {
+	if n, ok := v.(Number); ok {
+		return n.Value
+	}
+
+	return v
+}
+
+// FormatValue return the text of a value returned by ConvertToValidValue.
+func FormatValue(v interface{}) string {
+	switch vv := v.(type) {
+	case string:
+		return vv
+	case int64:
+		return strconv.FormatInt(vv, 10)
+	case float64:
+		return strconv.FormatFloat(vv, 'g', -1, 64)
+	case Number:
+		return vv.Text
+	}
+
+	return ""
+}
-- 
2.43.0


From 13cb1d6f4d92cee16818ed5ab5b7632a7604bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 06/64] fix: HGETALL gave no reply for numeric values and nil
 for a key of another type

---
 redis/hash_table.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index a37196b..370171d 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -64,8 +64,8 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err == datastruct.ErrNil {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	if err != nil {
@@ -73,17 +73,17 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	var (
-		values = make([]interface{}, len(m)*2)
+		values = make([]string, len(m)*2)
 		i      int
 	)
 
 	for k, v := range m {
 		values[i] = k
-		values[i+1] = v
+		values[i+1] = util.FormatValue(v)
 		i += 2
 	}
 
-	return protocol.NewResponse(true).AppendBulkInterfaces(values...), nil
+	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
 // hIncrBy .
-- 
2.43.0


From 8827af5fbb7012447f1877e41211173b919c519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 07/64] fix: MSET, HSET and HMSET accepted incomplete pairs

---
 redis/hash_table.go | 4 ++--
 redis/string.go     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 370171d..70443f6 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -193,7 +193,7 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -219,7 +219,7 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
diff --git a/redis/string.go b/redis/string.go
index 150b931..e171016 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -20,7 +20,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 6f05d98d2a8f620a2f2ade01a5e3e89246d7bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/64] fix: integer counters wrapped around on overflow

---
 datastruct/hash_table.go | 7 ++++++-
 datastruct/string.go     | 7 ++++++-
 redis/string.go          | 3 ++-
 util/strconv.go          | 6 ++++++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 6cd4856..0efa8ae 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -74,7 +74,12 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
-		return i64 + newValue.(int64), false
+		sum, ok := util.AddInt64(i64, newValue.(int64))
+		if !ok {
+			return ErrNotInteger, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..442c419 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -2,6 +2,8 @@ package datastruct
 
 import (
 	"strconv"
+
+	"github.com/yusank/godis/util"
 )
 
 /*
@@ -53,7 +55,10 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
-	value = i64 + incrBy
+	value, ok = util.AddInt64(i64, incrBy)
+	if !ok {
+		return 0, ErrNotInteger
+	}
 	info.Value = strconv.FormatInt(value, 10)
 
 	return
diff --git a/redis/string.go b/redis/string.go
index e171016..4467fc3 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -105,7 +106,7 @@ func decrBy(c *Command) (*protocol.Response, error) {
 	}
 
 	decrement, err := strconv.ParseInt(c.Values[1], 10, 64)
-	if err != nil {
+	if err != nil || decrement == math.MinInt64 {
 		return nil, datastruct.ErrNotInteger
 	}
 
diff --git a/util/strconv.go b/util/strconv.go
index 5b52dd4..b59b426 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -60,3 +60,9 @@ func FormatValue(v interface{}) string {
 
 	return ""
 }
+
+// AddInt64 return a+b, and false if the sum does not fit in an int64.
+func AddInt64(a, b int64) (int64, bool) {
+	sum := a + b
+	return sum, (sum > a) == (b > 0)
+}
-- 
2.43.0


From d6002764221f300b5e5ffc37f00adad888d0b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 09/64] fix: HINCRBYFLOAT stored NaN and infinite sums

---
 datastruct/hash_table.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 0efa8ae..c10be50 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,6 +1,8 @@
 package datastruct
 
 import (
+	"math"
+
 	smap "github.com/yusank/godis/lib/shard_map"
 	"github.com/yusank/godis/util"
 )
@@ -101,7 +103,12 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return ErrNotFloat, true
 		}
 
-		return i64 + newValue.(float64), false
+		sum := i64 + newValue.(float64)
+		if math.IsInf(sum, 0) || math.IsNaN(sum) {
+			return ErrNotFloat, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
@@ -236,6 +243,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 }
 
 func HIncrByFloat(key, field string, f64 float64) (float64, error) {
+	if math.IsInf(f64, 0) || math.IsNaN(f64) {
+		return 0, ErrNotFloat
+	}
+
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = createHashTable(key)
-- 
2.43.0


From a50c63e16707eefc9a82cfc020ae5259a4f29d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 10/64] fix: MGET of a key that is not a string gave no reply

---
 datastruct/string.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index 442c419..db66db5 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -84,13 +84,9 @@ func MGet(keys ...string) []interface{} {
 
 	for _, key := range keys {
 		val, err := Get(key)
-		if err == ErrNil {
-			result = append(result, nil)
-			continue
-		}
-
 		if err != nil {
-			result = append(result, err)
+			// absent, or not a string
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From 1af4a79dda1b85b16fd8b67e5760fa5990e72002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 11/64] fix: a list emptied by LREM lost the values pushed to
 it afterwards

---
 datastruct/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..ffec425 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -222,6 +222,9 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
 		l.head.prev = nil
+	} else {
+		// all elements removed, l.tail must not point to dumbHead
+		l.tail = nil
 	}
 	l.length -= cnt
 	return
@@ -274,6 +277,9 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
 		l.tail.next = nil
+	} else {
+		// all elements removed, l.head must not point to dumbTail
+		l.head = nil
 	}
 
 	l.length -= cnt
-- 
2.43.0


From d6973cdac41ae4cad93af5b7bf2a554e0f5ffd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 12/64] fix: LREM with the smallest count removed nothing and
 replied 0

---
 redis/list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 5a6d262..49ef750 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -143,7 +144,8 @@ func lRem(c *Command) (*protocol.Response, error) {
 	}
 
 	count, err := strconv.Atoi(c.Values[1])
-	if err != nil {
+	if err != nil || count == math.MinInt {
+		// math.MinInt has no positive counterpart
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From 1f699ee7b9def05a341dd235af006699c993a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 13/64] fix: LPOP and RPOP without a count replied an array
 instead of a bulk string

---
 datastruct/list.go |  2 +-
 redis/list.go      | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/datastruct/list.go b/datastruct/list.go
index ffec425..f90f7c1 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -506,7 +506,7 @@ func RPush(key string, values ...string) (ln int, err error) {
 }
 
 func RPop(key string, count int) (values []string, err error) {
-	list, err := loadAndCheckList(key, false)
+	list, err := loadAndCheckList(key, true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/redis/list.go b/redis/list.go
index 49ef750..ef8152d 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -50,6 +50,11 @@ func lPop(c *Command) (*protocol.Response, error) {
 		return nil, err
 	}
 
+	if len(c.Values) == 1 {
+		// an array is only replied when the client gave a count
+		return protocol.NewResponseWithBulkString(values[0]), nil
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
@@ -92,6 +97,11 @@ func rPop(c *Command) (*protocol.Response, error) {
 		return nil, err
 	}
 
+	if len(c.Values) == 1 {
+		// an array is only replied when the client gave a count
+		return protocol.NewResponseWithBulkString(values[0]), nil
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 0dacf38118bdcb138f6b3a63e89ec6f0faada6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/64] fix: LINSERT replied an error for a missing list or
 pivot

---
 datastruct/list.go | 4 ++--
 redis/list.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/list.go b/datastruct/list.go
index f90f7c1..e9bf930 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -594,7 +594,7 @@ func LSet(key string, index int, value string) error {
 // if flag == 0 then replace target
 // if flag > 0 insert newValue after target
 // if flag < 0 insert newValue before target
-// n is new length of list after insert
+// n is new length of list after insert, or -1 if there is no target in the list
 func LInsert(key, target, newValue string, pos int) (n int, err error) {
 	list, err := loadAndCheckList(key, true)
 	if err != nil {
@@ -602,7 +602,7 @@ func LInsert(key, target, newValue string, pos int) (n int, err error) {
 	}
 
 	if !list.LInsert(target, newValue, pos) {
-		return 0, ErrNil
+		return -1, nil
 	}
 
 	return list.length, nil
diff --git a/redis/list.go b/redis/list.go
index ef8152d..6ee1ded 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -226,7 +226,7 @@ func lInsert(c *Command) (*protocol.Response, error) {
 	}
 
 	n, err := datastruct.LInsert(c.Values[0], c.Values[2], c.Values[3], flag)
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From 18b6279393f51c3f494d58aac2c3c8f201eebbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 15/64] fix: SCARD still counted the members removed by SPOP

---
 datastruct/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..4633362 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -48,6 +48,7 @@ func (s *set) sPop(cnt int) []string {
 		cnt--
 		return true, true
 	})
+	s.length -= len(result)
 
 	return result
 }
-- 
2.43.0


From f90821e19a0dcb2e86d7fc210493a18de52f7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 16/64] fix: SPOP without a count popped nothing

---
 redis/set.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index c30ea54..a5665f4 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
@@ -240,6 +240,9 @@ func SPop(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.SPop(key, cnt)
+	if err == datastruct.ErrNil && len(c.Values) == 1 {
+		return protocol.NewResponseWithNilBulk(), nil
+	}
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
 	}
@@ -247,5 +250,10 @@ func SPop(c *Command) (*protocol.Response, error) {
 		return nil, err
 	}
 
+	if len(c.Values) == 1 {
+		// an array is only replied when the client gave a count
+		return protocol.NewResponseWithBulkString(values[0]), nil
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
-- 
2.43.0


From 84e7a6fc91d0a8ead4863e571a6fc05247be7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 17/64] fix: SMOVE lost the member on a wrong-type target, left
 SCARD stale and replied errors for absent members

---
 datastruct/set.go | 14 +++++++++++---
 redis/set.go      |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 4633362..56d2a02 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -186,13 +186,21 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	// check target before touching source, so that a failed move changes nothing
+	if _, err = loadAndCheckSet(target, false); err != nil && err != ErrNil {
+		return 0, err
+	}
+
+	if sset.sRem(value) == 0 {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
diff --git a/redis/set.go b/redis/set.go
index a5665f4..84b339f 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -199,7 +199,7 @@ func sMove(c *Command) (*protocol.Response, error) {
 	)
 
 	res, err := datastruct.SMove(source, target, value)
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From 586b5428e6a229519053b871ab3a83c7310fd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 18/64] fix: SMEMBERS of an absent key replied an error

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index 84b339f..ada1284 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -179,7 +179,7 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From a2ae193dccb3e9efae9287897b8bd0f3778caed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 19/64] fix: set algebra ignored operands when a key was absent
 or alone, and the STORE forms could alias an operand

---
 datastruct/set.go | 34 ++++++++++++++++++++++------------
 redis/set.go      | 24 ------------------------
 2 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 56d2a02..863866f 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -203,17 +203,27 @@ func SMove(source, target, value string) (int, error) {
 	return 1, nil
 }
 
+// loadOperandSet load set for set algebra, where an absent key is an empty set
+func loadOperandSet(key string) (*set, error) {
+	s, err := loadAndCheckSet(key, false)
+	if err == ErrNil {
+		return newSet(), nil
+	}
+
+	return s, err
+}
+
 func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return nil, err
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // never share storage with the key
 			continue
 		}
 
@@ -231,13 +241,13 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return 0, err
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // never share storage with the key
 			continue
 		}
 
@@ -261,13 +271,13 @@ func SInter(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return nil, err
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // never share storage with the key
 			continue
 		}
 
@@ -285,13 +295,13 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return 0, err
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // never share storage with the key
 			continue
 		}
 
@@ -315,13 +325,13 @@ func SUnion(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return nil, err
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // never share storage with the key
 			continue
 		}
 
@@ -339,13 +349,13 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return 0, err
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // never share storage with the key
 			continue
 		}
 
diff --git a/redis/set.go b/redis/set.go
index ada1284..2dc1444 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -66,10 +62,6 @@ func sDiffStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SDiffStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -84,10 +76,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -106,10 +94,6 @@ func sInterStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SInterStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -124,10 +108,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -146,10 +126,6 @@ func sUnionStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SUnionStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a695d839c1d727a07f9f22cbbb753c4255d10d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 20/64] fix: ZREM, ZPOPMIN and ZPOPMAX left most members in the
 skip list

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..1b929c4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -261,7 +261,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From c40c08fb7e2c5a619e138a52f7b82bbfb8176be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 21/64] fix: members removed by ZPOPMIN and ZPOPMAX kept their
 score and could not be added again

---
 datastruct/sorted_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b929c4..56327ba 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -790,6 +790,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
@@ -812,6 +813,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
-- 
2.43.0


From 5132b4cbc72039c3037976f4cb1327c90091b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 22/64] fix: ZPOPMAX with a count above the size replied bogus
 empty members

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 56327ba..b80ebe1 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -806,7 +806,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			return result, nil
-- 
2.43.0


From be37027bfcd482cf79ffe121cbe37e0ebe85cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 23/64] fix: ZCOUNT and ZRANGEBYSCORE were wrong for intervals
 without a member, ties and infinities

---
 datastruct/sorted_set.go | 102 ++++++---------------------------------
 1 file changed, 16 insertions(+), 86 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index b80ebe1..a376424 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -308,90 +308,32 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
+	first, last := zsl.scoreRankRange(min, minOpen, max, maxOpen)
+	if first > last {
+		return 0
 	}
 
-	minRank := zsl.minScoreRank(min, minOpen)
-	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
-	}
-
-	return maxRank - minRank + 1
+	return last - first + 1
 }
 
-// return -1 if score is inf
-func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
-	var (
-		rank uint
-		x    = zsl.head
-		cur  = zsl.head
-	)
-loop:
-	for i := zsl.level - 1; i >= 0; i-- {
-		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
-			rank += x.levels[i].span
-			cur = x
-			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
-		}
-	}
-
-	return int(rank)
+// scoreRankRange return the rank of the first and the last element between min and max,
+// there is no such element if first > last.
+func (zsl *zSkipList) scoreRankRange(min float64, minOpen bool, max float64, maxOpen bool) (first, last int) {
+	return zsl.countBelow(min, minOpen) + 1, zsl.countBelow(max, !maxOpen)
 }
 
-// return -1 if score is inf
-func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
+// countBelow return the number of elements with a score less than score, or equal to it if orEqual is true.
+func (zsl *zSkipList) countBelow(score float64, orEqual bool) int {
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(orEqual && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -474,24 +416,12 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
-	minRank := zsl.minScoreRank(min, minOpen)
-	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	first, last := zsl.scoreRankRange(min, minOpen, max, maxOpen)
+	if first > last {
+		return nil
 	}
 
-	return zsl.zRange(minRank-1, maxRank-1, withScores)
+	return zsl.zRange(first-1, last-1, withScores)
 }
 
 func (zsl *zSkipList) findElementByRank(rank uint) *zSkipListNode {
-- 
2.43.0


From 3b8e2707e5c633f16d3759c6aaeebffeb985e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 24/64] fix: ZREVRANGE took its indexes in ascending order

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index a376424..88e60a5 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -397,7 +397,8 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	// start and stop are indexes of the reversed order
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From 68582f654a1d703622399ab724b7236d2a0e1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 25/64] fix: ZRANK counted from one

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 88e60a5..a0bd303 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -574,7 +574,8 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	// the skip list counts from one
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From cfba117689a39e6f127bd3e39d5436f5da4f821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 26/64] fix: sorted sets accepted scores and bounds that are
 not a number

---
 datastruct/sorted_set.go | 32 +++++++++++++++++++++++++++++++-
 redis/sorted_set.go      |  5 +++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index a0bd303..6b5fa70 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -483,6 +483,28 @@ func (zs *zSet) zAdd(score float64, value string, flag int) *zSkipListNode {
 	return nil
 }
 
+// incrIsNaN tell if incrementing the scores of members by turns gives a score that is not a number,
+// zs is nil if the key is absent.
+func (zs *zSet) incrIsNaN(members []*ZSetMember) bool {
+	sums := make(map[string]float64, len(members))
+	for _, m := range members {
+		sum, ok := sums[m.Value]
+		if !ok && zs != nil {
+			if de := zs.loadDictEntry(m.Value); de != nil {
+				sum = *(de.getValue().(*float64))
+			}
+		}
+
+		sum += m.Score
+		if math.IsNaN(sum) {
+			return true
+		}
+		sums[m.Value] = sum
+	}
+
+	return false
+}
+
 func (zs *zSet) loadDictEntry(key string) *dictEntry {
 	v, ok := zs.m.Get(key)
 	if !ok {
@@ -530,6 +552,10 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		return 0, err
 	}
 
+	if flag&ZAddInIncr != 0 && zs.incrIsNaN(members) {
+		return 0, ErrNotFloat
+	}
+
 	if zs == nil {
 		zs = newZSet()
 		defaultCache.keys.Set(key, &KeyInfo{
@@ -633,6 +659,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		return 0, err
 	}
 
+	if zs.incrIsNaN([]*ZSetMember{{Score: score, Value: value}}) {
+		return 0, ErrNotFloat
+	}
+
 	if zs == nil {
 		zs = newZSet()
 		defaultCache.keys.Set(key, &KeyInfo{
@@ -771,7 +801,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..1ef05d5 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -36,7 +37,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -156,7 +157,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From 2a65cce7b7ef9a9fd7e8e251cbbdb79b4af5c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 27/64] fix: ZINCR replied 0 when the score stayed the same

---
 datastruct/sorted_set.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 6b5fa70..34ab98b 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -671,12 +671,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		})
 	}
 
-	node := zs.zAdd(score, value, ZAddInIncr)
-	if node == nil {
-		return 0, ErrNil
-	}
+	// there is no node if the score stays the same
+	zs.zAdd(score, value, ZAddInIncr)
 
-	return node.score, nil
+	return *(zs.loadDictEntry(value).getValue().(*float64)), nil
 }
 
 // ZRange not support limit for now
-- 
2.43.0


From 88127dea4d99bc6da220143b68d2c96e45b315c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 28/64] fix: ZADD counted the members whose score it updated as
 added

---
 datastruct/sorted_set.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 34ab98b..62ddd0d 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -564,14 +564,12 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		})
 	}
 
-	var cnt int
+	before := zs.zsl.length
 	for _, m := range members {
-		if node := zs.zAdd(m.Score, m.Value, flag); node != nil {
-			cnt++
-		}
+		zs.zAdd(m.Score, m.Value, flag)
 	}
 
-	return cnt, nil
+	return zs.zsl.length - before, nil
 }
 
 func ZScore(key, value string) (float64, error) {
-- 
2.43.0


From 2dcfd3ff324ecee65a893d4fb5e53b6b2d6b4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 29/64] fix: ZADD created an empty sorted set for XX and for
 incomplete pairs

---
 datastruct/sorted_set.go |  5 +++++
 redis/sorted_set.go      | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 62ddd0d..13e84ed 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -557,6 +557,11 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 	}
 
 	if zs == nil {
+		// xx flag never adds
+		if flag&ZAddInXx != 0 {
+			return 0, nil
+		}
+
 		zs = newZSet()
 		defaultCache.keys.Set(key, &KeyInfo{
 			Type:  KeyTypeSortedSet,
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 1ef05d5..59b147a 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -23,7 +23,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		flag    int
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	for i := 1; i < len(c.Values); {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -36,6 +36,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 			i++
 		// add more
 		default:
+			if i+1 == len(c.Values) {
+				return nil, ErrCommandArgsNotEnough
+			}
+
 			score, err := strconv.ParseFloat(c.Values[i], 64)
 			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
@@ -49,6 +53,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	if len(members) == 0 {
+		return nil, ErrCommandArgsNotEnough
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bab35160fd636ffbcb0e90e709a1a56b4bd598d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 30/64] fix: ZRANGEBYSCORE ignored WITHSCORES

---
 redis/sorted_set.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 59b147a..5577537 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -220,7 +220,15 @@ func zRangeByScore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], datastruct.ZRangeInByScore)
+	flag := datastruct.ZRangeInByScore
+	for _, s := range c.Values[3:] {
+		switch strings.ToLower(s) {
+		case "withscores":
+			flag |= datastruct.ZRangeInWithScores
+		}
+	}
+
+	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], flag)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From ddd4024b6beffa004c09a97322651bbb2334036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 31/64] fix: ZRANGE, ZREVRANGE and ZRANGEBYSCORE replied a nil
 bulk for an absent key

---
 redis/sorted_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 5577537..d70f0f8 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -205,7 +205,7 @@ func zRange(c *Command) (*protocol.Response, error) {
 
 	values, err := datastruct.ZRange(key, minStr, maxStr, flag)
 	if err == datastruct.ErrNil {
-		return protocol.NewResponseWithNilBulk(), nil
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 	if err != nil {
 		return nil, err
@@ -230,7 +230,7 @@ func zRangeByScore(c *Command) (*protocol.Response, error) {
 
 	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], flag)
 	if err == datastruct.ErrNil {
-		return protocol.NewResponseWithNilBulk(), nil
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 	if err != nil {
 		return nil, err
@@ -261,7 +261,7 @@ func zRevRange(c *Command) (*protocol.Response, error) {
 
 	values, err := datastruct.ZRevRange(key, minStr, maxStr, flag)
 	if err == datastruct.ErrNil {
-		return protocol.NewResponseWithNilBulk(), nil
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4c9b3df455e4aa7be95e9db78004f15715d3efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 32/64] fix: HSET counted the fields it updated as added

---
 datastruct/hash_table.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index c10be50..f82e2fc 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -300,12 +300,12 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 		return 0, err
 	}
 
-	var cnt int
+	before := h.length
 	for _, kv := range kvs {
-		cnt += h.set(kv.Key, kv.Value, flag)
+		h.set(kv.Key, kv.Value, flag)
 	}
 
-	return cnt, err
+	return h.length - before, err
 }
 
 func HVals(key string) ([]string, error) {
-- 
2.43.0


From 45a5bf97851bc5f73b7eb8498578731cdd73321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 33/64] fix: HDEL ignored the fields after the first

---
 datastruct/hash_table.go | 9 +++++++--
 redis/hash_table.go      | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index f82e2fc..0beacd3 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -183,13 +183,18 @@ func createHashTable(key string) *hashTable {
 	return h
 }
 
-func HDel(key, field string) (int, error) {
+func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	var cnt int
+	for _, field := range fields {
+		cnt += h.del(field)
+	}
+
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index 70443f6..0c8a897 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -16,7 +16,7 @@ func hDel(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt, err := datastruct.HDel(c.Values[0], c.Values[1])
+	cnt, err := datastruct.HDel(c.Values[0], c.Values[1:]...)
 	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
-- 
2.43.0


From d7f9521c2de531cc7145d721afbd0fda4b6784e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 34/64] fix: DEL and EXISTS ignored the keys after the first

---
 datastruct/keys.go | 23 +++++++++++++++--------
 redis/keys.go      | 11 +++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..a6ebfcd 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -46,8 +46,15 @@ func loadKeyInfo(key string, tp KeyType) (info *KeyInfo, err error) {
  * Common Command
  */
 
-func Exists(key string) bool {
-	return defaultCache.keys.Has(key)
+// Exists return the number of keys which exist, a key given twice counts twice.
+func Exists(keys ...string) (cnt int) {
+	for _, key := range keys {
+		if defaultCache.keys.Has(key) {
+			cnt++
+		}
+	}
+
+	return
 }
 
 func Type(key string) (kt KeyType, found bool) {
@@ -71,12 +78,12 @@ func Keys(pattern string) (keys []string) {
 	return
 }
 
-func Del(key string) int {
-	remove := defaultCache.keys.DeleteIfExists(key)
-
-	if remove {
-		return 1
+func Del(keys ...string) (cnt int) {
+	for _, key := range keys {
+		if defaultCache.keys.DeleteIfExists(key) {
+			cnt++
+		}
 	}
 
-	return 0
+	return
 }
diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..2442614 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -23,13 +23,8 @@ func exists(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	found := datastruct.Exists(c.Values[0])
-	rsp := protocol.NewResponseWithInteger(0)
-	if found {
-		rsp = protocol.NewResponseWithInteger(1)
-	}
-
-	return rsp, nil
+	cnt := datastruct.Exists(c.Values...)
+	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
 // del .
@@ -38,7 +33,7 @@ func del(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt := datastruct.Del(c.Values[0])
+	cnt := datastruct.Del(c.Values...)
 	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
-- 
2.43.0


From 69096cc8f082fc4c424e490cf87b6621f9fb8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 35/64] fix: TYPE named sets, sorted sets and hashes
 setIfNotExists, sortedSet and hashTable

---
 datastruct/consts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..02ee5e4 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -9,9 +9,9 @@ type KeyType string
 const (
 	KeyTypeString    KeyType = "string"
 	KeyTypeList      KeyType = "list"
-	KeyTypeSet       KeyType = "setIfNotExists"
-	KeyTypeSortedSet KeyType = "sortedSet"
-	KeyTypeHashTable KeyType = "hashTable"
+	KeyTypeSet       KeyType = "set"
+	KeyTypeSortedSet KeyType = "zset"
+	KeyTypeHashTable KeyType = "hash"
 )
 
 var (
-- 
2.43.0


From 9378ba63561918e463a4a651d01cbd7aeccef1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 36/64] fix: a list without elements left still existed

---
 datastruct/list.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index e9bf930..5b2678b 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -440,6 +440,13 @@ func loadAndCheckList(key string, checkLen bool) (*List, error) {
 	return list, nil
 }
 
+// removeEmptyList remove the key of a list which has no element left
+func removeEmptyList(key string, list *List) {
+	if list.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 func LPush(key string, values ...string) (ln int, err error) {
 	list, err := loadAndCheckList(key, false)
 	if err == ErrNil {
@@ -468,6 +475,7 @@ func LPop(key string, count int) (values []string, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer removeEmptyList(key, list)
 
 	for count > 0 && list.length > 0 {
 		value, ok := list.LPop()
@@ -510,6 +518,7 @@ func RPop(key string, count int) (values []string, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer removeEmptyList(key, list)
 
 	for count > 0 && list.length > 0 {
 		value, ok := list.RPop()
@@ -550,6 +559,7 @@ func LRem(key string, count int, value string) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	defer removeEmptyList(key, list)
 
 	if count > 0 {
 		return list.LRemCountFromHead(value, count), nil
-- 
2.43.0


From 83f9ab816a534815b86f943bc624954b8d6ea493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 37/64] fix: a hash without fields left still existed

---
 datastruct/hash_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 0beacd3..dfba223 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -194,6 +194,10 @@ func HDel(key string, fields ...string) (int, error) {
 		cnt += h.del(field)
 	}
 
+	if h.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+
 	return cnt, nil
 }
 
-- 
2.43.0


From 9f42973f00ac1c6d88145f5eac3f71fe7ca5f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 38/64] fix: a set without members left still existed

---
 datastruct/set.go | 64 ++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 863866f..9227269 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -110,6 +110,13 @@ func loadAndCheckSet(key string, check bool) (*set, error) {
 	return s, nil
 }
 
+// removeEmptySet remove the key of a set which has no member left
+func removeEmptySet(key string, s *set) {
+	if s.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -152,6 +159,7 @@ func SRem(key string, values ...string) (int, error) {
 	for _, value := range values {
 		cnt += s.sRem(value)
 	}
+	removeEmptySet(key, s)
 
 	return cnt, nil
 }
@@ -199,6 +207,8 @@ func SMove(source, target, value string) (int, error) {
 	if _, err = SAdd(target, value); err != nil {
 		return 0, err
 	}
+	// after the add, source and target may be the same key
+	removeEmptySet(source, sset)
 
 	return 1, nil
 }
@@ -213,6 +223,22 @@ func loadOperandSet(key string) (*set, error) {
 	return s, err
 }
 
+// storeSet replace the value of storeKey by result and return the number of members,
+// an empty result removes the key.
+func storeSet(storeKey string, result *set) int {
+	if result == nil || result.length == 0 {
+		defaultCache.keys.Delete(storeKey)
+		return 0
+	}
+
+	defaultCache.keys.Set(storeKey, &KeyInfo{
+		Type:  KeyTypeSet,
+		Value: result,
+	})
+
+	return result.length
+}
+
 func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
@@ -254,16 +280,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		result = sDiff(result, s)
 	}
 
-	if result == nil {
-		result = newSet()
-	}
-
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 // SInter 交集
@@ -308,16 +325,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		result = sInter(result, s)
 	}
 
-	if result == nil {
-		result = newSet()
-	}
-
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 // SUnion 并集
@@ -362,16 +370,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		result = sUnion(result, s)
 	}
 
-	if result == nil {
-		result = newSet()
-	}
-
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 func SPop(key string, cnt int) ([]string, error) {
@@ -380,7 +379,10 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
-	return s.sPop(cnt), nil
+	values := s.sPop(cnt)
+	removeEmptySet(key, s)
+
+	return values, nil
 }
 
 /*
-- 
2.43.0


From cba04f14b19b1af878ec8e835ba7d0d7cc4fda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 39/64] fix: a sorted set without members left still existed

---
 datastruct/sorted_set.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 13e84ed..e9cd1cd 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -541,6 +541,13 @@ func loadAndCheckZSet(key string, checkLen bool) (*zSet, error) {
 	return zs, nil
 }
 
+// removeEmptyZSet remove the key of a sorted set which has no member left
+func removeEmptyZSet(key string, zs *zSet) {
+	if zs.zsl.length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 type ZSetMember struct {
 	Score float64
 	Value string
@@ -624,6 +631,7 @@ func ZRem(key string, values ...string) (int, error) {
 		zs.zsl.delete(score, value, nil)
 		cnt++
 	}
+	removeEmptyZSet(key, zs)
 
 	return cnt, nil
 }
@@ -745,6 +753,8 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer removeEmptyZSet(key, zs)
+
 	var result []string
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(1)
@@ -768,6 +778,8 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer removeEmptyZSet(key, zs)
+
 	var result []string
 	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
-- 
2.43.0


From ad7f9287c65b0e6aee34d8334a088be370473095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 40/64] fix: KEYS with an invalid pattern ended the process

---
 datastruct/keys.go | 8 ++++++--
 redis/keys.go      | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index a6ebfcd..883a008 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -66,8 +66,12 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, err
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/keys.go b/redis/keys.go
index 2442614..2f09955 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, err
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 2b172d8441eddbf8c4597e32d1370ea3a2524a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 41/64] fix: a panic in a command ended the process, such as
 KEYS with an unclosed alternative

---
 redis/command.go | 12 +++++++-----
 redis/consts.go  |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/redis/command.go b/redis/command.go
index b2fe090..0177418 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -45,11 +45,13 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 
 	go func() {
 		defer close(rspChan)
-		//defer func() {
-		//	if recover() != nil {
-		//		log.Println(c.Command, c.Values)
-		//	}
-		//}()
+		defer func() {
+			// one command must not end the process, but does get a reply
+			if r := recover(); r != nil {
+				log.Println("[redis/command] panic: ", c.Command, r)
+				c.setRsp(nil, ErrInternal, rspChan)
+			}
+		}()
 		f, ok := implementedCommands[c.Command]
 		if !ok {
 			c.setRsp(nil, ErrUnknownCommand, rspChan)
diff --git a/redis/consts.go b/redis/consts.go
index eb487e8..ec2d425 100644
--- a/redis/consts.go
+++ b/redis/consts.go
@@ -5,6 +5,7 @@ import "errors"
 var (
 	ErrUnknownCommand       = errors.New("unknown command key")
 	ErrCommandArgsNotEnough = errors.New("command args not enough")
+	ErrInternal             = errors.New("ERR internal error")
 	ErrValueOutOfRange      = errors.New(" ERR value is out of range, must be positive")
 )
 
-- 
2.43.0


From a14897b55b248d1aae452e60e796144a2aa5ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 42/64] fix: KEYS with deeply nested alternatives ended the
 process

---
 datastruct/consts.go | 4 ++++
 datastruct/keys.go   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 02ee5e4..d213dd5 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -19,8 +19,12 @@ var (
 	ErrKeyAndCommandNotMatch = errors.New("key type and command not match")
 	ErrNotInteger            = errors.New("value is not an integer or out of range")
 	ErrNotFloat              = errors.New("ERR value is not a valid float")
+	ErrPatternTooComplex     = errors.New("ERR pattern is too complex")
 )
 
+// maxPatternAlternatives is the limit of alternatives in a pattern for key names
+const maxPatternAlternatives = 1000
+
 // zAdd flags
 const (
 	ZAddInNone = 0
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 883a008..af8b4a8 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -3,6 +3,8 @@ package datastruct
 // keys file put functions for key operation
 
 import (
+	"strings"
+
 	"github.com/yusank/glob"
 
 	smap "github.com/yusank/godis/lib/shard_map"
@@ -67,6 +69,11 @@ func Type(key string) (kt KeyType, found bool) {
 }
 
 func Keys(pattern string) (keys []string, err error) {
+	// glob recurs for each alternative, a stack overflow would end the process
+	if strings.Count(pattern, "{") > maxPatternAlternatives {
+		return nil, ErrPatternTooComplex
+	}
+
 	g, err := glob.Compile(pattern)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a90732ca09c3717406e50d744186af755a202753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 43/64] fix: incomplete, malformed and nested requests were
 decoded into wrong arguments or panics

---
 protocol/decode.go | 194 ++++++++++++++++++++++-----------------------
 1 file changed, 97 insertions(+), 97 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..d3acaed 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,11 +1,13 @@
 package protocol
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -36,19 +38,6 @@ func (r Receive) String() string {
 	return sb.String()
 }
 
-func (r *Receive) append(ele, org string) {
-	if r.Elements == nil {
-		r.Elements = make([]string, 0)
-	}
-
-	r.Elements = append(r.Elements, ele)
-	r.OrgStr += org
-}
-
-func (r *Receive) addOrg(s string) {
-	r.OrgStr += s
-}
-
 type AsyncReceive struct {
 	ReceiveChan chan *Receive
 	ErrorChan   chan error
@@ -84,125 +73,136 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 	return ar
 }
 
+const (
+	maxBulkLength = 512 << 20 // same limit as redis
+	maxArrayDepth = 32        // arrays in arrays
+)
+
+var (
+	errUnsupportedProtocol = errors.New("unsupported protocol")
+	errInvalidLength       = errors.New("invalid length")
+	errTooDeep             = errors.New("arrays nested too deep")
+)
+
+// DecodeFromReader read exactly one message, an incomplete message is an error.
 func DecodeFromReader(r Reader) (rec *Receive, err error) {
-	rec = new(Receive)
-	b, err := r.ReadBytes('\n')
-	if err != nil {
-		//log.Println("readBytes err:", err)
+	d := &decoder{r: r}
+	if err = d.readMessage(0); err != nil {
 		return nil, err
 	}
 
-	length, desc, err := rec.decodeSingleLine(b)
+	return &Receive{Elements: d.elements, OrgStr: d.org.String()}, nil
+}
+
+// decoder keep what has been read of one message
+type decoder struct {
+	r        Reader
+	elements []string
+	org      bytes.Buffer
+}
+
+// readMessage read one message, elements of arrays are appended in order
+func (d *decoder) readMessage(depth int) error {
+	line, err := d.readLine()
 	if err != nil {
-		log.Println("init message err:", err)
-		return nil, err
+		return err
 	}
 
-	if desc == DescriptionBulkStrings {
-		err1 := rec.readBulkStrings(r, length)
-		if err1 != nil {
-			log.Println("read bulk str err:", err1)
-			return nil, err1
+	switch line[0] {
+	case DescriptionBulkStrings:
+		ln, err := parseLength(line[1:])
+		if err != nil {
+			return err
 		}
-	}
 
-	if desc == descriptionArrays {
-		// won't sava array element
-		err1 := rec.readArray(r, length)
-		if err1 != nil {
-			log.Println("read bulk str err:", err1)
-			return nil, err1
+		return d.readBulkString(ln)
+	case descriptionArrays:
+		ln, err := parseLength(line[1:])
+		if err != nil {
+			return err
+		}
+		if depth >= maxArrayDepth {
+			return errTooDeep
 		}
-	}
-
-	return
-}
-
-func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
-		return 0, 0, fmt.Errorf("unsupported protocol")
-	}
 
-	r.addOrg(string(line))
+		// won't save the array itself
+		for i := 0; i < ln; i++ {
+			if err = d.readMessage(depth + 1); err != nil {
+				return unexpectedEOF(err)
+			}
+		}
 
-	desc = line[0]
-	switch desc {
-	// bulk string
-	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		return nil
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
-		r.append(string(line[1:len(line)-CRLFLen]), "")
-		//str = string(line[1 : len(line)-CRLFLen])
+		d.elements = append(d.elements, string(line[1:]))
+		return nil
 	default:
-		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
-			return 0, DescriptionSimpleStrings, nil
+		if string(line) == "PING" {
+			d.elements = append(d.elements, "PING")
+			return nil
 		}
-		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
-	}
 
-	return
+		return errUnsupportedProtocol
+	}
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
+// readLine return the next line without its CRLF, which has at least one byte
+func (d *decoder) readLine() ([]byte, error) {
+	line, err := d.r.ReadBytes('\n')
+	if err != nil {
+		if len(line) > 0 {
+			err = unexpectedEOF(err)
+		}
+
+		return nil, err
 	}
 
-	var (
-		ln int
-	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+	d.org.Write(line)
+	if len(line) <= CRLFLen || line[len(line)-CRLFLen] != '\r' {
+		return nil, errUnsupportedProtocol
 	}
 
-	return ln
+	return line[:len(line)-CRLFLen], nil
 }
 
-func (r *Receive) readBulkStrings(rr Reader, ln int) error {
-	if ln < 0 {
-		return fmt.Errorf("invalid length")
+func (d *decoder) readBulkString(ln int) error {
+	if ln < 0 || ln > maxBulkLength {
+		return errInvalidLength
 	}
 
-	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
-	if err != nil {
-		return err
+	// a reader may return less than asked for, and the length is not to be trusted for an allocation
+	start := d.org.Len()
+	if _, err := io.CopyN(&d.org, d.r, int64(ln+CRLFLen)); err != nil {
+		return unexpectedEOF(err)
 	}
 
-	// trim last \r\n
-	r.append(string(val[:ln]), string(val))
+	val := d.org.Bytes()[start:]
+	if string(val[ln:]) != CRLF {
+		return errUnsupportedProtocol
+	}
 
+	d.elements = append(d.elements, string(val[:ln]))
 	return nil
 }
 
-func (r *Receive) readArray(rr Reader, ln int) error {
-	for i := 0; i < ln; i++ {
-		line, err := rr.ReadBytes('\n')
-		if err != nil {
-			return err
-		}
+// parseLength only accept decimal digits, and a minus sign in front of them
+func parseLength(b []byte) (int, error) {
+	if len(b) == 0 || b[0] == '+' {
+		return 0, errInvalidLength
+	}
 
-		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
-			if subErr != nil {
-				return subErr
-			}
-		}
+	ln, err := strconv.Atoi(string(b))
+	if err != nil {
+		return 0, errInvalidLength
+	}
 
-		length, desc, err := r.decodeSingleLine(line)
-		if err != nil {
-			return err
-		}
+	return ln, nil
+}
 
-		if desc == DescriptionBulkStrings {
-			err = r.readBulkStrings(rr, length)
-			if err != nil {
-				log.Println("read bulk str err:", err)
-				return err
-			}
-		}
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 5f4f9db94ec02afdf2d29d9f2c52d96eb7350598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 44/64] fix: stopping the event pool dropped queued events and
 panicked on later ones

---
 event/event_pool.go | 28 +++++++++++++++++++++++++---
 event/worker.go     | 28 +++++++---------------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..f6db4a1 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -1,13 +1,22 @@
 package event
 
 import (
+	"errors"
 	"sync"
+
+	"github.com/yusank/godis/protocol"
 )
 
+// ErrStopped is the response of events which are added to a stopped pool
+var ErrStopped = errors.New("ERR server is shutting down")
+
 type EventPool struct {
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
+
+	mu      sync.RWMutex // AddEvent holds it for reading, so that eventChan is not closed while it sends
+	stopped bool
 }
 
 func NewEventPool() *EventPool {
@@ -20,15 +29,28 @@ func NewEventPool() *EventPool {
 	return ep
 }
 
+// AddEvent queue an event, an event added after Stop is done at once with an error as response.
 func (ep *EventPool) AddEvent(e *Event) {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+
+	if ep.stopped {
+		e.Rsp = protocol.NewResponseWithError(ErrStopped)
+		close(e.done)
+		return
+	}
+
 	ep.eventChan <- e
 }
 
+// Stop refuse new events and return when all events added before are done.
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
+	ep.mu.Lock()
+	if !ep.stopped {
+		ep.stopped = true
+		close(ep.eventChan)
 	}
+	ep.mu.Unlock()
 
 	ep.wg.Wait()
 }
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..992b8d6 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -6,37 +6,23 @@ import (
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
+// run until the pool is stopped and no event is left
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
-			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
-		}
+	for e := range w.ep.eventChan {
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
 	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+	log.Println("worker done")
 }
-- 
2.43.0


From eecbfe81d8ba250a22347f248aa137561ad538da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 45/64] fix: requests were split and dropped at packet
 boundaries and pipelined requests ran concurrently

---
 server/v2/server.go | 61 +++++++++++++++++++++++++++++++++++++--------
 server/v2/stream.go | 59 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 110 insertions(+), 10 deletions(-)
 create mode 100644 server/v2/stream.go

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..436c995 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -1,8 +1,10 @@
 package v2
 
 import (
-	"bytes"
+	"bufio"
 	"context"
+	"errors"
+	"io"
 	"log"
 	"time"
 
@@ -13,6 +15,8 @@ import (
 	"github.com/yusank/godis/protocol"
 )
 
+var errProtocol = errors.New("ERR Protocol error")
+
 type Server struct {
 	*gnet.EventServer
 	pool *goroutine.Pool
@@ -41,27 +45,64 @@ func (s *Server) Stop() {
 	}
 }
 
+// OnOpened start to handle the requests of a connection one by one, in the order they are received.
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	st := newStream()
+	c.SetContext(st)
+
+	err := s.pool.Submit(func() {
+		handleRequests(st, c)
+	})
+	if err != nil {
+		log.Println("submit err:", err)
+		return nil, gnet.Close
+	}
+
+	return
+}
+
+func (s *Server) OnClosed(c gnet.Conn, _ error) (action gnet.Action) {
+	if st, ok := c.Context().(*stream); ok {
+		st.close()
+	}
+
+	return
+}
+
+// React get whatever bytes are received so far, which may be less or more than one request
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+	if st, ok := c.Context().(*stream); ok {
+		st.write(frame)
+	}
+
+	return
+}
+
+// handleRequests return when the connection is closed or the client violates the protocol
+func handleRequests(st *stream, c gnet.Conn) {
+	defer st.close()
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
-		rec, err := protocol.DecodeFromReader(buf)
+	reader := bufio.NewReader(st)
+	for {
+		rec, err := protocol.DecodeFromReader(reader)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			return
+		}
 		if err != nil {
+			// there is no way to find the next request
 			log.Println(err)
+			_ = c.AsyncWrite(protocol.NewResponseWithError(errProtocol).Encode())
+			_ = c.Close()
 			return
 		}
 
 		reply := event.HandleRequest(rec)
 		if len(reply) == 0 {
-			return
+			continue
 		}
 
 		_ = c.AsyncWrite(reply)
-	})
-
-	return
+	}
 }
 
 func (s *Server) OnShutdown(srv gnet.Server) {
diff --git a/server/v2/stream.go b/server/v2/stream.go
new file mode 100644
index 0000000..6c9d723
--- /dev/null
+++ b/server/v2/stream.go
@@ -0,0 +1,59 @@
+package v2
+
+import (
+	"bytes"
+	"io"
+	"sync"
+)
+
+// stream hold the bytes received from one connection until they are read.
+// write never blocks, as it is called by the event loop.
+type stream struct {
+	mu     sync.Mutex
+	cond   *sync.Cond
+	buf    bytes.Buffer
+	closed bool
+}
+
+func newStream() *stream {
+	s := new(stream)
+	s.cond = sync.NewCond(&s.mu)
+
+	return s
+}
+
+func (s *stream) write(p []byte) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return
+	}
+
+	s.buf.Write(p)
+	s.cond.Signal()
+}
+
+// Read block until there are bytes to read, it returns io.EOF when the stream is closed and all bytes are read.
+func (s *stream) Read(p []byte) (int, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	for s.buf.Len() == 0 {
+		if s.closed {
+			return 0, io.EOF
+		}
+
+		s.cond.Wait()
+	}
+
+	return s.buf.Read(p)
+}
+
+func (s *stream) close() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.closed = true
+	s.cond.Signal()
+}
-- 
2.43.0


From 0ac5203f0188ed18a9198d19a71adbc23e381eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 46/64] fix: the v1 server panicked on disconnects and lost
 requests received with them

---
 protocol/decode.go  | 11 +++--------
 server/v1/server.go | 13 +++++++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index d3acaed..9f8dd2f 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -5,8 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
-	"net"
 	"strconv"
 	"strings"
 )
@@ -43,6 +41,8 @@ type AsyncReceive struct {
 	ErrorChan   chan error
 }
 
+// ReceiveDataAsync decode messages until the first error, which is put in ErrorChan.
+// Then both channels are closed: all messages before the error are received when ReceiveChan is empty.
 func ReceiveDataAsync(r Reader) *AsyncReceive {
 	var ar = &AsyncReceive{
 		ReceiveChan: make(chan *Receive, 1),
@@ -58,12 +58,7 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 			rec, err := DecodeFromReader(r)
 			if err != nil {
 				ar.ErrorChan <- err
-
-				if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
-					return
-				}
-				log.Println(err)
-				continue
+				return
 			}
 
 			ar.ReceiveChan <- rec
diff --git a/server/v1/server.go b/server/v1/server.go
index 4c64bc4..63745b3 100644
--- a/server/v1/server.go
+++ b/server/v1/server.go
@@ -98,10 +98,12 @@ loop:
 		select {
 		case <-s.ctx.Done():
 			break loop
-		case <-ar.ErrorChan:
-			//log.Println("handle err:", err)
-			break loop
-		case rec := <-ar.ReceiveChan:
+		case rec, ok := <-ar.ReceiveChan:
+			if !ok {
+				// no more requests
+				break loop
+			}
+
 			reply := event.HandleRequest(rec)
 			if len(reply) == 0 {
 				continue
@@ -116,5 +118,8 @@ loop:
 	}
 
 	_ = conn.Close()
+	// let the decoding goroutine end
+	for range ar.ReceiveChan {
+	}
 	s.wg.Done()
 }
-- 
2.43.0


From 5b5d81b581d77a5f2a58f1723fb4e5c830f02d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 47/64] fix: the data of debug builds was prepared by
 concurrent commands, and after the server started

---
 cmd/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..b0437b4 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -110,7 +110,8 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		// wait for the response, commands must not run at the same time
+		<-c.ExecuteAsync()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0


From 9849c9fe09c4ebf41e4dcb1ad0035a893046793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 48/64] fix: gen_redis_cmd used the line above a handler as
 command name even if it is not a comment

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 9251e3b..3ada744 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -65,7 +65,7 @@ func readAndParseFile(fp string) ([]KV, error) {
 				FuncName: fName,
 			}
 
-			if lastLine != "" {
+			if strings.HasPrefix(lastLine, "//") {
 				kv.CmdName = strings.ToLower(
 					strings.TrimSpace(
 						strings.TrimPrefix(
-- 
2.43.0


From b7fe0bcb6b578514ebe5f86b9a13b93ad878304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 49/64] fix: gen_redis_cmd registered handlers in comments and
 skipped those with a digit in their name

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 3ada744..283c661 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -124,7 +124,7 @@ func init() {
 var fNameRegex *regexp.Regexp
 
 func init() {
-	r, err := regexp.Compile(`func\s+([A-Za-z]+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
+	r, err := regexp.Compile(`^func\s+([\pL_][\pL\p{Nd}_]*)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 4608eb588a144cc97558f189f88834d5c070f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 50/64] fix: gen_redis_cmd overwrote files other than Go files
 and used wrong names for paths with .go in a directory

---
 cmd/gen_redis_cmd/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 283c661..4bd0a75 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -22,6 +22,11 @@ func main() {
 		panic(err)
 	}
 
+	if kvs == nil {
+		log.Println("not a source file of commands: ", fPath)
+		return
+	}
+
 	if err = writeFile(fPath, kvs); err != nil {
 		panic(err)
 	}
@@ -88,7 +93,7 @@ func readAndParseFile(fp string) ([]KV, error) {
 }
 
 func writeFile(name string, kvs []KV) error {
-	name = strings.Replace(name, ".go", generatedFileSuffix, 1)
+	name = strings.TrimSuffix(name, ".go") + generatedFileSuffix
 	f, err := os.Create(name)
 	if err != nil {
 		return err
-- 
2.43.0


From f09bd0be69888d29b8b120cbfb2dbd1b205f9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 51/64] fix: gen_redis_cmd dropped all handlers after a long
 line

---
 cmd/gen_redis_cmd/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 4bd0a75..94e6bcf 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -39,6 +39,7 @@ type KV struct {
 
 const (
 	generatedFileSuffix = ".cmd.go"
+	maxLineLength       = 16 << 20
 )
 
 func readAndParseFile(fp string) ([]KV, error) {
@@ -61,6 +62,7 @@ func readAndParseFile(fp string) ([]KV, error) {
 		scanner  = bufio.NewScanner(f)
 		lastLine string // for read func comment
 	)
+	scanner.Buffer(nil, maxLineLength)
 
 	for scanner.Scan() {
 		fName := regexCmdFuncStr(scanner.Text())
@@ -83,10 +85,10 @@ func readAndParseFile(fp string) ([]KV, error) {
 			kvs = append(kvs, kv)
 		}
 		lastLine = strings.TrimSpace(scanner.Text())
+	}
 
-		if err != nil {
-			return nil, err
-		}
+	if err = scanner.Err(); err != nil {
+		return nil, err
 	}
 
 	return kvs, nil
-- 
2.43.0


From 3684bdd34d5ce5fb6ca2e68e32fd1166b871e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 52/64] fix: the error of KEYS could contain line breaks of the
 pattern

---
 datastruct/consts.go | 1 +
 datastruct/keys.go   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index d213dd5..ccb16c1 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -19,6 +19,7 @@ var (
 	ErrKeyAndCommandNotMatch = errors.New("key type and command not match")
 	ErrNotInteger            = errors.New("value is not an integer or out of range")
 	ErrNotFloat              = errors.New("ERR value is not a valid float")
+	ErrInvalidPattern        = errors.New("ERR invalid pattern")
 	ErrPatternTooComplex     = errors.New("ERR pattern is too complex")
 )
 
diff --git a/datastruct/keys.go b/datastruct/keys.go
index af8b4a8..b4c9c1c 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -76,7 +76,8 @@ func Keys(pattern string) (keys []string, err error) {
 
 	g, err := glob.Compile(pattern)
 	if err != nil {
-		return nil, err
+		// err may quote a CR or LF of the pattern
+		return nil, ErrInvalidPattern
 	}
 
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
-- 
2.43.0


From c2c319b6918fde1cfaca5083c9b5279d8f04e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 53/64] fix: ZCOUNT and the ZRANGE commands accepted malformed
 bounds when the key is absent

---
 datastruct/sorted_set.go | 41 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index e9cd1cd..8660e08 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -646,17 +646,17 @@ func ZCard(key string) (int, error) {
 }
 
 func ZCount(key, minStr, maxStr string) (int, error) {
-	zs, err := loadAndCheckZSet(key, true)
+	minScore, minOpen, err := handleFloatScoreStr(minStr)
 	if err != nil {
 		return 0, err
 	}
 
-	minScore, minOpen, err := handleFloatScoreStr(minStr)
+	maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
 	if err != nil {
 		return 0, err
 	}
 
-	maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
+	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
 		return 0, err
 	}
@@ -691,23 +691,23 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 // ZRange not support limit for now
 // todo support by lex flag
 func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
-	zs, err := loadAndCheckZSet(key, true)
-	if err != nil {
-		return nil, err
-	}
-
 	var withScores = flag&ZRangeInWithScores != 0
 
 	if flag&ZRangeInByScore != 0 {
 		// byScore flag
-		minScore, minOpen, err1 := handleFloatScoreStr(minStr)
-		if err1 != nil {
-			return nil, err1
+		minScore, minOpen, err := handleFloatScoreStr(minStr)
+		if err != nil {
+			return nil, err
+		}
+
+		maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
+		if err != nil {
+			return nil, err
 		}
 
-		maxScore, maxOpen, err1 := handleFloatScoreStr(maxStr)
-		if err1 != nil {
-			return nil, err1
+		zs, err := loadAndCheckZSet(key, true)
+		if err != nil {
+			return nil, err
 		}
 
 		return zs.zsl.zRangeByScore(minScore, minOpen, maxScore, maxOpen, withScores), nil
@@ -723,15 +723,15 @@ func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
 		return nil, ErrNotInteger
 	}
 
-	return zs.zsl.zRange(start, stop, withScores), nil
-}
-
-func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
 		return nil, err
 	}
 
+	return zs.zsl.zRange(start, stop, withScores), nil
+}
+
+func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 	var withScores = flag&ZRangeInWithScores != 0
 
 	start, err := strconv.Atoi(minStr)
@@ -744,6 +744,11 @@ func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 		return nil, ErrNotInteger
 	}
 
+	zs, err := loadAndCheckZSet(key, true)
+	if err != nil {
+		return nil, err
+	}
+
 	return zs.zsl.zRevRange(start, stop, withScores), nil
 }
 
-- 
2.43.0


From 10e92ad394fc72abee15baa79064cd23bb77b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 54/64] fix: HINCRBY and HINCRBYFLOAT count the field they
 create

---
 datastruct/hash_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index dfba223..e634509 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -68,6 +68,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -95,6 +96,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
-- 
2.43.0


From 6a2a4290029e20e0b5acf7d8bfca0cc01f5e2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 55/64] fix: ZPOPMIN and ZPOPMAX reply an error for a key of
 another type

---
 redis/sorted_set.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index d70f0f8..9577a56 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -290,12 +290,12 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
@@ -321,12 +321,12 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
-- 
2.43.0


From 800e34d8f4aae1491a1d3e946e1f0ca454190ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 56/64] fix: KEYS let the text before and after a * overlap,
 and ignored a pattern after a NUL

---
 datastruct/keys.go    | 16 ++---------
 datastruct/pattern.go | 65 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+), 13 deletions(-)
 create mode 100644 datastruct/pattern.go

diff --git a/datastruct/keys.go b/datastruct/keys.go
index b4c9c1c..7f921c6 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -3,10 +3,6 @@ package datastruct
 // keys file put functions for key operation
 
 import (
-	"strings"
-
-	"github.com/yusank/glob"
-
 	smap "github.com/yusank/godis/lib/shard_map"
 )
 
@@ -69,19 +65,13 @@ func Type(key string) (kt KeyType, found bool) {
 }
 
 func Keys(pattern string) (keys []string, err error) {
-	// glob recurs for each alternative, a stack overflow would end the process
-	if strings.Count(pattern, "{") > maxPatternAlternatives {
-		return nil, ErrPatternTooComplex
-	}
-
-	g, err := glob.Compile(pattern)
+	match, err := compilePattern(pattern)
 	if err != nil {
-		// err may quote a CR or LF of the pattern
-		return nil, ErrInvalidPattern
+		return nil, err
 	}
 
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
-		if g.Match(key) {
+		if match(key) {
 			keys = append(keys, key)
 		}
 		return true
diff --git a/datastruct/pattern.go b/datastruct/pattern.go
new file mode 100644
index 0000000..35c044a
--- /dev/null
+++ b/datastruct/pattern.go
@@ -0,0 +1,65 @@
+package datastruct
+
+import (
+	"strings"
+	"unicode/utf8"
+
+	"github.com/yusank/glob"
+)
+
+// compilePattern return a func which tells if a key matches the pattern.
+func compilePattern(pattern string) (func(key string) bool, error) {
+	// a pattern without classes, alternatives and escapes needs no glob, which ends a pattern at the first NUL
+	// and lets the text before and after a '*' overlap in the key: 'a*a' does match 'a'.
+	if !strings.ContainsAny(pattern, `[{\`) {
+		return func(key string) bool {
+			return matchWildcards(pattern, key)
+		}, nil
+	}
+
+	// glob recurs for each alternative, a stack overflow would end the process
+	if strings.Count(pattern, "{") > maxPatternAlternatives {
+		return nil, ErrPatternTooComplex
+	}
+
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		// err may quote a CR or LF of the pattern
+		return nil, ErrInvalidPattern
+	}
+
+	return g.Match, nil
+}
+
+// matchWildcards support '*' (any characters) and '?' (one character), anything else matches itself.
+func matchWildcards(pattern, key string) bool {
+	var (
+		p, k        int
+		afterStar   = -1 // position in pattern after the last '*'
+		starMatched int  // position in key up to which the last '*' matches
+	)
+
+	for k < len(key) {
+		_, size := utf8.DecodeRuneInString(key[k:])
+		switch {
+		case p < len(pattern) && pattern[p] == '*':
+			p++
+			afterStar, starMatched = p, k
+		case p < len(pattern) && pattern[p] == '?':
+			p++
+			k += size
+		case p < len(pattern) && pattern[p] == key[k]:
+			p++
+			k++
+		case afterStar >= 0:
+			// let the last '*' match one more character
+			_, size = utf8.DecodeRuneInString(key[starMatched:])
+			starMatched += size
+			p, k = afterStar, starMatched
+		default:
+			return false
+		}
+	}
+
+	return strings.Trim(pattern[p:], "*") == ""
+}
-- 
2.43.0


From dab893a5515ff2dd64659625f411275bfd8ce79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 57/64] fix: KEYS with alternatives or classes could take
 exponential time and block every client

---
 datastruct/pattern.go | 66 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/datastruct/pattern.go b/datastruct/pattern.go
index 35c044a..fbdfdb2 100644
--- a/datastruct/pattern.go
+++ b/datastruct/pattern.go
@@ -1,10 +1,13 @@
 package datastruct
 
 import (
+	"fmt"
+	"regexp"
 	"strings"
 	"unicode/utf8"
 
-	"github.com/yusank/glob"
+	"github.com/yusank/glob/syntax"
+	"github.com/yusank/glob/syntax/ast"
 )
 
 // compilePattern return a func which tells if a key matches the pattern.
@@ -17,18 +20,73 @@ func compilePattern(pattern string) (func(key string) bool, error) {
 		}, nil
 	}
 
-	// glob recurs for each alternative, a stack overflow would end the process
+	// writePattern recurs for each alternative
 	if strings.Count(pattern, "{") > maxPatternAlternatives {
 		return nil, ErrPatternTooComplex
 	}
 
-	g, err := glob.Compile(pattern)
+	tree, err := syntax.Parse(pattern)
 	if err != nil {
 		// err may quote a CR or LF of the pattern
 		return nil, ErrInvalidPattern
 	}
 
-	return g.Match, nil
+	// the matcher of glob may take exponential time, a regexp takes linear time in the length of the key
+	var expr strings.Builder
+	expr.WriteString(`(?s)^`)
+	writePattern(&expr, tree)
+	expr.WriteString(`$`)
+
+	re, err := regexp.Compile(expr.String())
+	if err != nil {
+		return nil, ErrPatternTooComplex
+	}
+
+	return re.MatchString, nil
+}
+
+// writePattern write the regexp of a parsed pattern.
+func writePattern(expr *strings.Builder, node *ast.Node) {
+	switch v := node.Value.(type) {
+	case ast.Text:
+		expr.WriteString(regexp.QuoteMeta(v.Text))
+	case ast.List:
+		expr.WriteString(classOpen(v.Not))
+		for _, r := range v.Chars {
+			fmt.Fprintf(expr, `\x{%x}`, r)
+		}
+		expr.WriteString(`]`)
+	case ast.Range:
+		fmt.Fprintf(expr, `%s\x{%x}-\x{%x}]`, classOpen(v.Not), v.Lo, v.Hi)
+	}
+
+	switch node.Kind {
+	case ast.KindAny, ast.KindSuper:
+		expr.WriteString(`.*`)
+	case ast.KindSingle:
+		expr.WriteString(`.`)
+	case ast.KindPattern:
+		for _, child := range node.Children {
+			writePattern(expr, child)
+		}
+	case ast.KindAnyOf:
+		expr.WriteString(`(?:`)
+		for i, child := range node.Children {
+			if i > 0 {
+				expr.WriteString(`|`)
+			}
+			writePattern(expr, child)
+		}
+		expr.WriteString(`)`)
+	}
+}
+
+func classOpen(not bool) string {
+	if not {
+		return `[^`
+	}
+
+	return `[`
 }
 
 // matchWildcards support '*' (any characters) and '?' (one character), anything else matches itself.
-- 
2.43.0


From ef5364ca6c500db863fdfc639cf6d861aa931fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 58/64] fix: gen_redis_cmd wrote invalid Go for a documented
 name with a quote or a backslash

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 94e6bcf..fb89b1c 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -121,7 +121,7 @@ package redis
 
 func init() {
 {{- range . }}
-	implementedCommands["{{ .CmdName }}"] = {{ .FuncName }}
+	implementedCommands[{{ printf "%q" .CmdName }}] = {{ .FuncName }}
 {{- end }}
 }
 `
-- 
2.43.0


From cd7c4fa6246e93f0ee3246907f1a80db64bc74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:15 +0000
Subject: [PATCH 59/64] fix: LRANGE walked from the head to a range near the
 tail

---
 datastruct/list.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/datastruct/list.go b/datastruct/list.go
index 5b2678b..e5fce41 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -157,18 +157,11 @@ func (l *List) LRange(start, stop int) (values []string) {
 		stop = l.length - 1
 	}
 
-	var (
-		head = l.head
-		idx  int
-	)
-
-	for head != nil && idx <= stop {
-		if idx >= start {
-			values = append(values, head.value)
-		}
-
-		idx++
-		head = head.next
+	// from the nearest end to start
+	cur := l.lIndexNode(start)
+	for idx := start; cur != nil && idx <= stop; idx++ {
+		values = append(values, cur.value)
+		cur = cur.next
 	}
 
 	return
-- 
2.43.0


From 49fe4b3ec682a6f80b96b9cf62b7a21474780e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:15 +0000
Subject: [PATCH 60/64] fix: SUNION and SUNIONSTORE copied the result for each
 key

---
 datastruct/set.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 9227269..7bfd2dd 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -82,16 +82,19 @@ func sInter(s1, s2 *set) *set {
 func sUnion(sets ...*set) *set {
 	var result = newSet()
 	for _, s := range sets {
-		s.m.Range(func(key string, _ interface{}) bool {
-			result.sAdd(key)
-			return true
-		})
-
+		result.addAll(s)
 	}
 
 	return result
 }
 
+func (s *set) addAll(other *set) {
+	other.m.Range(func(key string, _ interface{}) bool {
+		s.sAdd(key)
+		return true
+	})
+}
+
 /*
  * Commands
  */
@@ -343,7 +346,7 @@ func SUnion(keys ...string) ([]string, error) {
 			continue
 		}
 
-		result = sUnion(result, s)
+		result.addAll(s)
 	}
 
 	if result == nil || result.length == 0 {
@@ -367,7 +370,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 			continue
 		}
 
-		result = sUnion(result, s)
+		result.addAll(s)
 	}
 
 	return storeSet(storeKey, result), nil
-- 
2.43.0


From b24d36bc97c6dfc6e86cff4fafb96e17701f14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:15 +0000
Subject: [PATCH 61/64] fix: SDIFF and SDIFFSTORE copied the result for each
 key

---
 datastruct/set.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 7bfd2dd..9d0a314 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -53,17 +53,25 @@ func (s *set) sPop(cnt int) []string {
 	return result
 }
 
-func sDiff(s1, s2 *set) *set {
-	var result = newSet()
-	s1.m.Range(func(key string, _ interface{}) bool {
-		if !s2.m.Has(key) {
-			result.sAdd(key)
+// removeAll remove the members of other, by way of the smaller set
+func (s *set) removeAll(other *set) {
+	if other.length < s.length {
+		other.m.Range(func(key string, _ interface{}) bool {
+			s.sRem(key)
+			return true
+		})
+
+		return
+	}
+
+	s.m.RangeAndDelete(func(key string, _ interface{}) (del, rng bool) {
+		del = other.m.Has(key)
+		if del {
+			s.length--
 		}
 
-		return true
+		return del, true
 	})
-
-	return result
 }
 
 func sInter(s1, s2 *set) *set {
@@ -256,7 +264,7 @@ func SDiff(keys ...string) ([]string, error) {
 			continue
 		}
 
-		result = sDiff(result, s)
+		result.removeAll(s)
 	}
 
 	if result == nil || result.length == 0 {
@@ -280,7 +288,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 			continue
 		}
 
-		result = sDiff(result, s)
+		result.removeAll(s)
 	}
 
 	return storeSet(storeKey, result), nil
-- 
2.43.0


From f8405ac2294de4e8e15c3f30e8fabf75a30fea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:17 +0000
Subject: [PATCH 62/64] fix: SINTER and SINTERSTORE copied the first set,
 however small another one was

---
 datastruct/set.go | 64 ++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 9d0a314..b1e9e0c 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -234,6 +234,36 @@ func loadOperandSet(key string) (*set, error) {
 	return s, err
 }
 
+// interKeys start with the smallest set, as the result is not larger than that
+func interKeys(keys []string) (result *set, err error) {
+	var (
+		sets     = make([]*set, len(keys))
+		smallest int
+	)
+
+	for i, key := range keys {
+		if sets[i], err = loadOperandSet(key); err != nil {
+			return nil, err
+		}
+
+		if sets[i].length < sets[smallest].length {
+			smallest = i
+		}
+	}
+
+	for i, s := range sets {
+		if i == 0 {
+			result = sUnion(sets[smallest]) // never share storage with the key
+		}
+
+		if i != smallest {
+			result = sInter(result, s)
+		}
+	}
+
+	return result, nil
+}
+
 // storeSet replace the value of storeKey by result and return the number of members,
 // an empty result removes the key.
 func storeSet(storeKey string, result *set) int {
@@ -296,20 +326,9 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 
 // SInter 交集
 func SInter(keys ...string) ([]string, error) {
-	var result *set
-
-	for i, key := range keys {
-		s, err := loadOperandSet(key)
-		if err != nil {
-			return nil, err
-		}
-
-		if i == 0 {
-			result = sUnion(s) // never share storage with the key
-			continue
-		}
-
-		result = sInter(result, s)
+	result, err := interKeys(keys)
+	if err != nil {
+		return nil, err
 	}
 
 	if result == nil || result.length == 0 {
@@ -320,20 +339,9 @@ func SInter(keys ...string) ([]string, error) {
 }
 
 func SInterStore(storeKey string, keys ...string) (int, error) {
-	var result *set
-
-	for i, key := range keys {
-		s, err := loadOperandSet(key)
-		if err != nil {
-			return 0, err
-		}
-
-		if i == 0 {
-			result = sUnion(s) // never share storage with the key
-			continue
-		}
-
-		result = sInter(result, s)
+	result, err := interKeys(keys)
+	if err != nil {
+		return 0, err
 	}
 
 	return storeSet(storeKey, result), nil
-- 
2.43.0


From 5f5581fce13f51bec0f5fe770306cbb9ddae09a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:28 +0000
Subject: [PATCH 63/64] fix: the v1 server did not stop while a client did not
 read its replies

---
 server/v1/server.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/server/v1/server.go b/server/v1/server.go
index 63745b3..4ebe82b 100644
--- a/server/v1/server.go
+++ b/server/v1/server.go
@@ -11,11 +11,15 @@ import (
 	"net"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/yusank/godis/event"
 	"github.com/yusank/godis/protocol"
 )
 
+// stopTimeout is how long clients may take to receive the replies that are being written when the server stops
+const stopTimeout = time.Second * 5
+
 // Server provide tcp server based on go native net package
 type Server struct {
 	addr     string
@@ -90,6 +94,17 @@ func (s *Server) handleListener() {
 
 // handle by a new goroutine
 func (s *Server) handleConn(conn net.Conn) {
+	// a client which does not read its replies must not keep the server from stopping
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-s.ctx.Done():
+			_ = conn.SetWriteDeadline(time.Now().Add(stopTimeout))
+		case <-done:
+		}
+	}()
+
 	reader := bufio.NewReader(conn)
 	ar := protocol.ReceiveDataAsync(reader)
 loop:
-- 
2.43.0


From b648e7f9ea447c048092f8c00b33b2c98d88d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:30 +0000
Subject: [PATCH 64/64] fix: requests refused after 10 seconds were executed
 all the same

---
 event/event.go   | 9 +++++++++
 event/handler.go | 8 +++++++-
 event/worker.go  | 4 +++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/event/event.go b/event/event.go
index a204100..3b058ed 100644
--- a/event/event.go
+++ b/event/event.go
@@ -1,6 +1,8 @@
 package event
 
 import (
+	"sync/atomic"
+
 	"github.com/yusank/godis/protocol"
 	"github.com/yusank/godis/redis"
 )
@@ -9,6 +11,8 @@ type Event struct {
 	Cmd  *redis.Command
 	Rsp  *protocol.Response
 	done chan struct{}
+
+	claimed int32 // set by whoever is first to execute or to cancel the event
 }
 
 func NewEvent(cmd *redis.Command) *Event {
@@ -21,3 +25,8 @@ func NewEvent(cmd *redis.Command) *Event {
 func (e *Event) Done() <-chan struct{} {
 	return e.done
 }
+
+// claim return true once, an event is either executed or canceled.
+func (e *Event) claim() bool {
+	return atomic.CompareAndSwapInt32(&e.claimed, 0, 1)
+}
diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..86ebbfc 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -39,7 +39,13 @@ func HandleRequest(rec *protocol.Receive) []byte {
 	var rsp *protocol.Response
 	select {
 	case <-ctx.Done():
-		rsp = protocol.NewResponseWithError(ctx.Err())
+		if e.claim() {
+			rsp = protocol.NewResponseWithError(ctx.Err())
+			break
+		}
+		// it is too late to refuse it
+		<-e.Done()
+		rsp = e.Rsp
 	case <-e.Done():
 		rsp = e.Rsp
 	}
diff --git a/event/worker.go b/event/worker.go
index 992b8d6..9be4bab 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -20,7 +20,9 @@ func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
 	for e := range w.ep.eventChan {
-		e.Rsp = <-e.Cmd.ExecuteAsync()
+		if e.claim() {
+			e.Rsp = <-e.Cmd.ExecuteAsync()
+		}
 		close(e.done)
 	}
 
-- 
2.43.0

