From 9d0d91c30ce87a9b98e0235da9f13e79897f19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 01/69] fix: keep the two high bits of MEDIUMINT UNSIGNED
 values

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..fffba32 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,7 +98,7 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-- 
2.43.0


From e1321af69605d42b338dcacc012899f5154414db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 02/69] fix: read 5, 6 and 7 byte unsigned values from their
 own bytes only

---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index fffba32..f9ca8b0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -102,11 +102,11 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return MatchReadFrom4(value)<<8 | MatchReadFrom1(value[4:])
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return MatchReadFrom4(value)<<16 | MatchReadFrom2(value[4:])
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom4(value)<<24 | MatchReadFrom3(value[4:])
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 97ae5da783e2b9e40e6fb2d8f1a1eb70bbf06ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 03/69] fix: strip only the space padding of CHAR values

---
 recovery/utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index f9ca8b0..8913b6c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -642,7 +642,8 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		// Only the padding spaces at the end are not part of the value.
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From 61623de7cf17928ceac1a2d4b191a5ac59c74818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 04/69] fix: print YEAR 0 as 0000, not 1900

---
 recovery/utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 8913b6c..714c1a5 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -621,6 +621,9 @@ func ParseData(DataType uint64, MySQLType uint64,
 			DateTime := ParseDate(data)
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
+			if MatchReadFrom1(data) == 0 {
+				return "0000", nil
+			}
 			FormatYear := MatchReadFrom1(data) + 1900
 			return FormatYear, nil
 		default:
-- 
2.43.0


From f217f42194b2bfe05dcff3c837f736c40a79c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 05/69] fix: do not mix a debug line for DECIMAL columns into
 the SQL output

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 714c1a5..1aa1fa6 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -598,7 +598,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Info("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From 51c8020d82595bc32bca0b35f4d8addd9795ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 06/69] fix: always decode DATETIME in its 5 byte format

---
 recovery/utils/utils.go | 96 ++++++-----------------------------------
 1 file changed, 13 insertions(+), 83 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 1aa1fa6..3ed2ece 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -742,91 +742,21 @@ func GetMaxLength(MySQLType uint64) {
 	}
 }
 
-// GetTimeFormat ...
-func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
-	}
-
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
-		return 2
-	}
-	return 0
-}
-
 // ParseDateTime ...
 func ParseDateTime(data []byte) string {
-	format := GetTimeFormat(data)
-	if format == 1 || format == 0 {
-		ldate := MatchReadFrom8(data)
-		ldate = ldate &^ (1 << 63)
-		sec := ldate % 100
-		ldate /= 100
-		min := ldate % 100
-		ldate /= 100
-		hour := ldate % 100
-		ldate /= 100
-		day := ldate % 100
-		ldate /= 100
-		month := ldate % 100
-		ldate /= 100
-		year := ldate % 10000
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-
-	} else if format == 2 {
-		ldate := MatchReadFrom8(data)
-		yd := (ldate & 0x7FFFC00000000000) >> 46
-		year := yd / 13
-		month := yd - year*13
-		day := (ldate & 0x00003E0000000000) >> 41
-		hour := (ldate & 0x000001F000000000) >> 36
-		min := (ldate & 0x0000000FC0000000) >> 30
-		sec := (ldate & 0x000000003F000000) >> 24
-
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
-
-		return FormatTime
-	}
-
-	return ""
-
+	// DATETIME columns of this binary type always are in the 5 byte format.
+	ldate := MatchReadFrom4(data)<<8 | MatchReadFrom1(data[4:])
+	yd := (ldate & 0x7FFFC00000) >> 22
+	year := yd / 13
+	month := yd - year*13
+	day := (ldate & 0x00003E0000) >> 17
+	hour := (ldate & 0x000001F000) >> 12
+	min := (ldate & 0x0000000FC0) >> 6
+	sec := ldate & 0x000000003F
+
+	FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+
+	return FormatTime
 }
 
 // ParseDate ...
-- 
2.43.0


From c5a321bab04bc86c28a4df2ade2cb395c37399ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 07/69] fix: print DATE years with four digits

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 3ed2ece..c176c61 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -770,7 +770,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From 7a29b06b14fcb01c112bac4cf5ac899ab984bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 08/69] fix: print TIMESTAMP hours in 24 hour form and 0 as the
 zero timestamp

---
 recovery/utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index c176c61..e93a31a 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -816,7 +816,10 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	if t == 0 {
+		return "0000-00-00 00:00:00"
+	}
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From b87673cd645638753cb6468d2c2504180393847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 09/69] fix: do not replace a text value equal to Go's zero
 time by an empty string

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e93a31a..f1ee460 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -875,11 +875,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From 24789216947b6a597dd8e959dc74798e4cb6ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 10/69] fix: tell an SQL NULL from the text 'NULL' in the
 REPLACE statements

---
 recovery/ibdata/format.go | 2 +-
 recovery/ibdata/parse.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..1401d60 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -41,7 +41,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.FieldValue != nil {
 				buf.WriteByte('\'')
 				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
 				buf.WriteByte('\'')
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..19a6f74 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -935,7 +935,7 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
 			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
+				columns[i].FieldValue = nil
 			}
 			continue
 		}
-- 
2.43.0


From 6313fc928f19f07eb7e923655ee27322d0faa063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 11/69] fix: print BIT values in binary and a NULL BIT as NULL

---
 recovery/ibdata/format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 1401d60..59058cf 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -33,8 +34,9 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT {
+			if v, ok := column.FieldValue.(uint64); ok && column.MySQLType == utils.MYSQL_TYPE_BIT {
 				buf.WriteString("b")
+				column.FieldValue = strconv.FormatUint(v, 2)
 			}
 
 			if column.IsBinary {
-- 
2.43.0


From 3c467021d784710bf983b59f44e72549fc0a0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 12/69] fix: keep the SQL NULL flag of REDUNDANT records

---
 recovery/ibdata/parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 19a6f74..228dc5f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1090,7 +1090,6 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1111,11 +1110,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From e7b435af2ff49c66cee9c55dd5a6c8d3cf111a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 13/69] fix: sort the columns of a table and the fields of an
 index by position

---
 recovery/ibdata/parse.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 228dc5f..6985cde 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -299,14 +300,17 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 // sortColumns sort columns by field position.
 // // TODO: why some table fields is not sort?
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+		for _, idx := range table.Indexes {
+			fields := idx.Fields
+			sort.SliceStable(fields, func(i, j int) bool {
+				return fields[i].ColumnPos < fields[j].ColumnPos
+			})
 		}
-		table.Columns = sortedColumns
 	}
 }
 
-- 
2.43.0


From fc0ea806b289d1f167e77354ac71da7827b931be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 14/69] fix: move the clustered key columns first in key order

---
 recovery/ibdata/parse.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 6985cde..bf5e763 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -329,12 +329,13 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
+	for j, field := range fields {
+		for i := j; i < len(columns); i++ {
 			if field.ColumnName == columns[i].FieldName {
 				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+				columns = append(columns[:i], columns[i+1:]...)
+				columns = addColumns(columns, j, tempField)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 610a5d9006711fbecc513f5e52b8d2a4112b2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 15/69] fix: take the clustered index from its type, not from
 its name

---
 recovery/ibdata/parse.go     | 4 ++--
 recovery/ibdata/structure.go | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index bf5e763..484b241 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -319,7 +319,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.isClustered() {
 				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
 			}
 		}
@@ -349,7 +349,7 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.isClustered() && idx.Name != "GEN_CLUST_INDEX" {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..80e9eca 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -48,6 +48,13 @@ type Indexes struct {
 }
 
 // Fields store the fields of the table index.
+// isClustered reports whether the index holds the rows of its table: the
+// PRIMARY KEY or, without one, the first UNIQUE index of NOT NULL columns.
+func (idx Indexes) isClustered() bool {
+	// #define DICT_CLUSTERED	1
+	return idx.IndexType&1 != 0
+}
+
 type Fields struct {
 	ColumnPos  uint64
 	ColumnName string
-- 
2.43.0


From 461c4ea85dc8789e35b2c12c5db07eb81af551b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 16/69] fix: print the values of a REPLACE statement in the
 table's column order

---
 recovery/ibdata/format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 59058cf..81f18a8 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
@@ -16,6 +17,12 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 	for _, columns := range AllColumns {
 
+		// The record stores the clustered key first.
+		columns = append([]Columns{}, columns...)
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
-- 
2.43.0


From 91053a271764a5ce26077e7414941c4ff1200144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 17/69] fix: read the length of a VARBINARY longer than 255
 from two bytes

---
 recovery/ibdata/parse.go     | 3 ++-
 recovery/ibdata/structure.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 484b241..42c3c7f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -465,6 +465,7 @@ func (parse *Parse) getAllColumns() error {
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
+					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -1165,7 +1166,7 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			//      if (debug) printf("Variable-length field: read the length\n");
 			/* Variable-length field: read the length */
 
-			if table.Columns[i].FieldLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
+			if table.Columns[i].MaxLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
 
 				if length&0x80 != 0 {
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 80e9eca..28080ca 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -31,6 +31,7 @@ type Columns struct {
 	MySQLType  uint64
 	FieldPos   uint64
 	FieldLen   uint64
+	MaxLen     uint64
 	FieldValue interface{}
 	IsNUll     bool
 	IsBinary   bool
-- 
2.43.0


From 858ee538ed1f2c8e727ef2963991f58a32187ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 18/69] fix: treat latin1 VARCHAR columns as variable length

---
 recovery/ibdata/parse.go | 16 ++++++++--------
 recovery/utils/utils.go  |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 42c3c7f..339a513 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -969,8 +969,8 @@ func (parse *Parse) makeSysTablesColumns() []Columns {
 
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 0, FieldLen: 0})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 1, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 2, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 8, FieldPos: 1, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 8, FieldPos: 2, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 3, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "N_COLS", FieldType: 6, FieldPos: 4, FieldLen: 4})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
@@ -989,8 +989,8 @@ func (parse *Parse) makeSysColumnsColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 8, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 8, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "MTYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "PRTYPE", FieldType: 6, FieldPos: 6, FieldLen: 4, IsUnsigned: true})
@@ -1007,8 +1007,8 @@ func (parse *Parse) makeSysIndexesColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "TABLE_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 1, FieldLen: 8})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 8, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 8, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "N_FIELDS", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 6, FieldLen: 4, IsUnsigned: true})
@@ -1025,8 +1025,8 @@ func (parse *Parse) makeSysFieldsColumns() []Columns {
 	var columns []Columns
 	columns = append(columns, Columns{FieldName: "INDEX_ID", FieldType: 4, FieldPos: 0, FieldLen: 8})
 	columns = append(columns, Columns{FieldName: "POS", FieldType: 6, FieldPos: 1, FieldLen: 4, IsUnsigned: true})
-	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 1, FieldPos: 2, FieldLen: 6})
-	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 1, FieldPos: 3, FieldLen: 7})
+	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 8, FieldPos: 2, FieldLen: 6})
+	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 8, FieldPos: 3, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "COL_NAME", FieldType: 4, FieldPos: 4, FieldLen: 0})
 
 	return columns
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index f1ee460..e2a0437 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -705,8 +705,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From 3aed3bdfc205d0aaf7cd9a6a5e2729fcd35cc3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 19/69] fix: read dictionary rows from the leaf pages of the
 index only

---
 recovery/ibdata/parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 339a513..09a0cb9 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -65,6 +65,11 @@ func (parse *Parse) ParseDictPage(path string) error {
 	// Get all dict pages, and use map to store all dict page's data.
 	for _, page := range pages {
 
+		// Other pages may have anything where an index page has its index id.
+		if page.fh.FIL_PAGE_TYPE != FilPageIndex {
+			continue
+		}
+
 		// TODO: Parse undo page from sys data file.
 		//if parse.fh.FIL_PAGE_TYPE == uint64(2) {
 		//	P.ParseUndoPageHeader(&parse)
@@ -807,6 +812,11 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 
 	var allColumns [][]Columns
 
+	// Only the leaf pages have rows, the other ones have node pointers.
+	if utils.MatchReadFrom2(data[38+26:]) != 0 {
+		return allColumns
+	}
+
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
 
-- 
2.43.0


From 1958ab04eda30a17d6a80dc27fe05548da9a67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 20/69] fix: prefer the page at its own position over its
 doublewrite copies

---
 recovery/ibdata/parse.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 09a0cb9..219b6ce 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -215,9 +215,9 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	pageMap := make(map[uint64]string)
+	pageMap := make(map[uint64]int)
 
-	for {
+	for pageNo := uint64(0); ; pageNo++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if len(data) < DefaultPageSize {
@@ -243,9 +243,12 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 
 		// TODO: why have the same pages?
 		// Store the page into the pageMap.
-		if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+		if i, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+			pageMap[page.fh.FIL_PAGE_OFFSET] = len(pages)
 			pages = append(pages, page)
-			pageMap[page.fh.FIL_PAGE_OFFSET] = "have"
+		} else if page.fh.FIL_PAGE_OFFSET == pageNo {
+			// The earlier one is a copy, for example in the doublewrite buffer.
+			pages[i] = page
 		}
 	}
 	return pages, err
-- 
2.43.0


From e6da5f6e787f97712040326a4fdce7683a5181af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 21/69] fix: report a table which the dictionary does not have

---
 recovery/ibdata/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 219b6ce..a74ff70 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1070,6 +1070,9 @@ func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]
 			columns = table.Columns
 		}
 	}
+	if len(columns) == 0 {
+		return nil, fmt.Errorf("table %s.%s not found in the data dictionary", dbName, tableName)
+	}
 	return columns, nil
 }
 
-- 
2.43.0


From 75f3b7af389751d7bf430603af2edc9b153e2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 22/69] fix: contain a damaged page: stop at its first broken
 record, keep what was read before

---
 recovery/ibdata/parse.go | 57 ++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index a74ff70..2a42d46 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -189,8 +189,11 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			page.ph.PAGE_LEVEL == uint64(0) &&
 			page.ph.PAGE_MAX_TRX_ID == uint64(0) &&
 			!(isRecovery && page.ph.PAGE_FREE == 0) {
-			allColumns := parse.parsePage(page.OriginalData, len(page.OriginalData)-len(page.data),
+			allColumns, err := parse.parsePage(page.OriginalData, len(page.OriginalData)-len(page.data),
 				fields, isRecovery, page.ph.PAGE_FREE)
+			if err != nil {
+				logs.Error("page ", page.fh.FIL_PAGE_OFFSET, ": ", err.Error())
+			}
 			if len(allColumns) == 0 {
 				logs.Info("have no data")
 				continue
@@ -421,7 +424,10 @@ func (parse *Parse) getAllColumns() error {
 	for _, dt := range dts {
 
 		// Start parse sys column table page.
-		AllColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		AllColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		if err != nil {
+			return err
+		}
 		AllPageColumns = append(AllPageColumns, AllColumns...)
 	}
 
@@ -502,7 +508,10 @@ func (parse *Parse) getAllIndexes() error {
 	dts := v.([]DataDict)
 	for _, dt := range dts {
 		// Start parse sys indexes table pages.
-		allColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		allColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		if err != nil {
+			return err
+		}
 		allPageColumns = append(allPageColumns, allColumns...)
 
 	}
@@ -553,7 +562,10 @@ func (parse *Parse) getAllFields() error {
 	dts := v.([]DataDict)
 	for _, dt := range dts {
 		// Start parse sys fields table pages.
-		alColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		alColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		if err != nil {
+			return err
+		}
 		allPageColumns = append(allPageColumns, alColumns...)
 	}
 
@@ -612,7 +624,10 @@ func (parse *Parse) getAllTables() error {
 	for _, dt := range dts {
 
 		// parse sys table page.
-		allColumns := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		allColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+		if err != nil {
+			return err
+		}
 
 		for _, columns := range allColumns {
 			// database and table name, for example: zbdba3/jingbo_test
@@ -804,20 +819,18 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
-
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) (allColumns [][]Columns, err error) {
 
-	var allColumns [][]Columns
+	// catch panic, the records which were parsed before it are good.
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("the page is damaged: %v", e)
+		}
+	}()
 
 	// Only the leaf pages have rows, the other ones have node pointers.
 	if utils.MatchReadFrom2(data[38+26:]) != 0 {
-		return allColumns
+		return allColumns, nil
 	}
 
 	// The PAGE_BTR_SEG_LEAF length
@@ -875,9 +888,15 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	}
 
 	var totalLen uint64
+	visited := make(map[uint64]bool)
 	for {
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
+			if visited[offset] {
+				return allColumns, errors.New("the page is damaged: its record list has a cycle")
+			}
+			visited[offset] = true
+
 			var c []Columns
 			logs.Debug("offset is ", offset, " supremum is ", supremum)
 
@@ -911,6 +930,9 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			}
 
 			c, _ = parse.parseRecords(data, origin, offsets, columns)
+			if c == nil {
+				return allColumns, errors.New("the page is damaged: a record exceeds it")
+			}
 			totalLen += utils.RecOffsSize(&offsets)
 			allColumns = append(allColumns, c)
 
@@ -941,7 +963,7 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			break
 		}
 	}
-	return allColumns
+	return allColumns, nil
 }
 
 // Parse cluster index leaf page records, it corresponds to a row of data in the table.
@@ -955,8 +977,9 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		if uint64(len(data)) < fieldLen {
 			if fieldLen == 0xFFFFFFFF {
 				columns[i].FieldValue = nil
+				continue
 			}
-			continue
+			return nil, 0
 		}
 
 		// Parse the page record.
-- 
2.43.0


From d2d96d8bb8b66f05cfaae0ffbb39435836fc8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 23/69] fix: report a damaged data dictionary instead of
 crashing

---
 recovery/ibdata/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2a42d46..3f7f9f6 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -43,7 +43,15 @@ func NewParse() *Parse {
 }
 
 // ParseDictPage get table struct in dict page.
-func (parse *Parse) ParseDictPage(path string) error {
+func (parse *Parse) ParseDictPage(path string) (err error) {
+
+	// The values of a damaged dictionary may be missing.
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("the data dictionary is damaged: %v", e)
+			logs.Error(err.Error())
+		}
+	}()
 
 	pages, err := parse.parseFile(path)
 	if err != nil {
-- 
2.43.0


From c010e30574449dfa269b5878d3278baf78605848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 24/69] fix: report failures on stderr and by the exit code

---
 cmd/db-recovery/command.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..76cf9f2 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -17,6 +17,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"os"
 	"runtime"
 	"strings"
 
@@ -99,8 +100,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	flag.Parse()
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		exitWithError(err)
 	}
 
 	isRecovery := false
@@ -108,8 +108,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	p := ibdata.NewParse()
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		exitWithError(err)
 	}
 
 	if OpType == "RecoveryData" {
@@ -118,8 +117,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
-		fmt.Println(err)
-		return
+		exitWithError(err)
 	}
 
 	// flush logs
@@ -152,28 +150,31 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	flag.Parse()
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
-		fmt.Println(err.Error())
-		return
+		exitWithError(err)
 	}
 
 	p := redo.NewParse(TableName, DBName)
 
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
-		logs.Error("parse redo failed, error: ", err.Error())
-		return
+		exitWithError(fmt.Errorf("parse redo failed, error: %s", err.Error()))
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
-		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		exitWithError(fmt.Errorf("parse redo failed, error: %s", err.Error()))
 	}
 
 	// flush logs
 	logs.FlushLogs()
 }
 
+func exitWithError(err error) {
+	logs.FlushLogs()
+	fmt.Fprintln(os.Stderr, err.Error())
+	os.Exit(1)
+}
+
 func NewVersionCommand() *cobra.Command {
 	vc := &cobra.Command{
 		Use:   "version",
-- 
2.43.0


From 23dda083ec5918e71f570d63bb926f515a04e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 25/69] fix: skip the second name of a redo file rename record

---
 recovery/redo/mlog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..d982be4 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -384,6 +384,11 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		newNameLen := utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += newNameLen
+	}
 }
 
 // MLOG_REC_MARK ...
-- 
2.43.0


From d0d2b1e4f50102c52c135e9e2ebc30ff1ca236aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 26/69] fix: MLOG_DUMMY_RECORD has no space id and page number

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..0a710e0 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -265,7 +265,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		// Get redo log type.
 		logType = uint64(int(logType) & ^MLOG_SINGLE_REC_FLAG)
 
-		if logType != MLOG_CHECKPOINT {
+		if logType != MLOG_CHECKPOINT && logType != MLOG_DUMMY_RECORD {
 			// Get space id
 			spaceID, num, err := utils.MatchParseCompressed(data, pos)
 			pos += num
-- 
2.43.0


From 44eb0ae158143ad5ffc299c4047f1afa9a5bcad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 27/69] fix: skip the body of MLOG_COMP_REC_SEC_DELETE_MARK
 records

---
 recovery/redo/mlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index d982be4..81fd413 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -470,6 +470,9 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+
+		// btr_cur_parse_del_mark_set_sec_rec: the value and the page offset.
+		*pos += 3
 	}
 	return err
 }
-- 
2.43.0


From c9eecfd67ea8584c05c6ad43f0c71a3db709ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 28/69] fix: an SQL NULL in an update in place record has no
 data

---
 recovery/redo/mlog.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 81fd413..629696d 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -547,7 +547,10 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				// UNIV_SQL_NULL
+				if fieldLen != 0xFFFFFFFF {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
-- 
2.43.0


From 9d1a7bb2bff5e29a9279babc31bf343cf6d2a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 29/69] fix: read the low half of a compressed 64 bit value
 right after its high half

---
 recovery/utils/utils.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e2a0437..21a3964 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -406,13 +406,8 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
-- 
2.43.0


From 0717df74f3d9a097a5574da69b532517f9e04375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 30/69] fix: keep the high half of a much compressed 64 bit
 value and count its marker byte

---
 recovery/utils/utils.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 21a3964..eaa0d4f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -425,7 +425,7 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		n, _, err = MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
@@ -434,6 +434,7 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 			fmt.Println(err.Error())
 		}
 		size = 1 + v
+		n <<= 32
 	}
 	value, _, err := MatchParseCompressed(b, size)
 	if err != nil {
@@ -462,7 +463,8 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	// The high half follows a 0xFF byte.
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From 6db2f86b909faf87a9e665dad13f936b4aef4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 31/69] fix: continue after an undo record which can not be
 used at its end

---
 recovery/redo/mlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 629696d..8645a7e 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -81,8 +81,9 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		// the record ends there, however far it was parsed.
+		*pos = startPos + dataLen
 	}()
 
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
-- 
2.43.0


From 9f0ff187aea76bebe3bf6f8efd62fe36ea837734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 32/69] fix: restrict the statements to the given database even
 if a table name is given too

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8645a7e..cda7104 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -224,7 +224,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryFields, columns)
 		}
 	}
-- 
2.43.0


From f1f084718988c1ce899ce5e6914bb1942cedc944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 33/69] fix: use the clustered key of a table without PRIMARY
 KEY in the UPDATE statements

---
 recovery/redo/mlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index cda7104..522ac38 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -276,7 +276,8 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if strings.TrimSpace(idx.Name) == "PRIMARY" || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		// #define DICT_CLUSTERED	1
+		if idx.IndexType&1 != 0 {
 			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
-- 
2.43.0


From bde71f17a13b667956fd086a1f1c78cdc12bea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 34/69] fix: separate the assignments of an UPDATE statement by
 commas

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 0a710e0..8f4393f 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -533,7 +533,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
-- 
2.43.0


From ed031e477b36a8ceaefddc95442bdaf0ad3869e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 35/69] fix: write the values of UPDATE statements as valid SQL
 literals

---
 recovery/ibdata/format.go | 50 ++++++++++++++++++++++-----------------
 recovery/redo/mlog.go     | 12 ++++++----
 recovery/redo/parse.go    | 13 +++-------
 3 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 81f18a8..f2b348b 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -41,28 +41,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if v, ok := column.FieldValue.(uint64); ok && column.MySQLType == utils.MYSQL_TYPE_BIT {
-				buf.WriteString("b")
-				column.FieldValue = strconv.FormatUint(v, 2)
-			}
-
-			if column.IsBinary {
-				buf.WriteString("unhex(")
-			}
-
-			if column.FieldValue != nil {
-				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
-				buf.WriteByte('\'')
-			} else {
-				//buf.WriteByte('\'')
-				//buf.WriteByte('\'')
-				buf.WriteString("NULL")
-			}
-
-			if column.IsBinary {
-				buf.WriteString(")")
-			}
+			buf.WriteString(column.SQLValue())
 		}
 
 		buf.WriteString(");")
@@ -75,3 +54,30 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 	}
 
 }
+
+// SQLValue returns the value of the column as an SQL literal.
+func (column Columns) SQLValue() string {
+	var buf bytes.Buffer
+
+	if v, ok := column.FieldValue.(uint64); ok && column.MySQLType == utils.MYSQL_TYPE_BIT {
+		buf.WriteString("b")
+		column.FieldValue = strconv.FormatUint(v, 2)
+	}
+
+	if column.IsBinary {
+		buf.WriteString("unhex(")
+	}
+
+	if column.FieldValue != nil {
+		buf.WriteByte('\'')
+		buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
+		buf.WriteByte('\'')
+	} else {
+		buf.WriteString("NULL")
+	}
+
+	if column.IsBinary {
+		buf.WriteString(")")
+	}
+	return buf.String()
+}
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 522ac38..1e13535 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -137,6 +137,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		return err
 	}
 
+	var primaryColumns []*ibdata.Columns
 	for _, v := range primaryFields {
 		column := parse.getColumnsByName(Table, v.ColumnName)
 		// get the unique key.
@@ -156,7 +157,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		}
 
 		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
-		v.ColumnValue = value
+		column.FieldValue = value
+		primaryColumns = append(primaryColumns, &column)
 
 		*pos += FiledLen
 	}
@@ -218,14 +220,14 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		// if user don't identify table and database name, print all sql statement.
 		if Table.DBName == parse.DBName {
 			if Table.TableName == parse.TableName {
-				parse.makeSQL(Table, primaryFields, columns)
+				parse.makeSQL(Table, primaryColumns, columns)
 			} else if parse.TableName == "" {
-				parse.makeSQL(Table, primaryFields, columns)
+				parse.makeSQL(Table, primaryColumns, columns)
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
-			parse.makeSQL(Table, primaryFields, columns)
+			parse.makeSQL(Table, primaryColumns, columns)
 		} else if parse.DBName == "" && parse.TableName == Table.TableName {
-			parse.makeSQL(Table, primaryFields, columns)
+			parse.makeSQL(Table, primaryColumns, columns)
 		}
 	}
 
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 8f4393f..f558e9c 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -517,19 +517,12 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
-func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
-
-	// TODO: deal with null value.
+func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Columns, columns []*ibdata.Columns) {
 
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		var SetValue string
-		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
-		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
-		}
+		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, c.SQLValue())
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
@@ -540,7 +533,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.FieldName, v.SQLValue())
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From 5fbcf9492a62b912b57e6ecb705d734ff99c6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 36/69] fix: do not take the zeros after a short read for data

---
 recovery/utils/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index eaa0d4f..5edbb96 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,9 +210,9 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
+	n, err := io.ReadFull(file, bytes)
 	if err != nil {
-		return nil, err
+		return bytes[:n], err
 	}
 
 	return bytes, nil
-- 
2.43.0


From c3f40ea419b43f5eb4c208e7cf7f13d58ca1642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 37/69] fix: stop at a damaged redo block, header or record
 instead of crashing

---
 recovery/redo/parse.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index f558e9c..dbd7a10 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -101,6 +101,11 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				break
 			}
 
+			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
+				logs.Error("redo block is damaged, its data length is ", blockHeader.BlockDataLen)
+				break
+			}
+
 			// LOG_BLOCK_TRL_SIZE, for checksum.
 			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
@@ -165,7 +170,10 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
+	creator := data[pos : pos+32]
+	if end := bytes.IndexByte(creator, 0x00); end >= 0 {
+		creator = creator[:end]
+	}
 	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
@@ -242,8 +250,16 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // There are about 55 redo log type, and every redo log type have different data.
 // We just want get the MLOG_UNDO_INSERT type redo record which store the undo info.
 // But due to the design of redo, we must parse out each type in order.
-func (parse *Parse) parseRedoBlockData(data []byte) error {
+func (parse *Parse) parseRedoBlockData(data []byte) (err error) {
 	var pos uint64
+
+	// A damaged or truncated record may exceed the data.
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("the redo log is damaged: %v", e)
+		}
+	}()
+
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
 			break
-- 
2.43.0


From c6ec5db9ca51cac5defc2248c65de75031a8338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 38/69] fix: do not print a statement for a truncated undo
 record

---
 recovery/redo/mlog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 1e13535..dce5b42 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -76,6 +76,10 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	dataLen := utils.MatchReadFrom2(data[*pos:])
 	*pos += 2
 	startPos := *pos
+	if startPos+dataLen > uint64(len(data)) {
+		*pos = uint64(len(data))
+		return fmt.Errorf("the undo record is truncated")
+	}
 
 	// catch panic
 	defer func() {
-- 
2.43.0


From f6877a003558315b6ee3d9f06c13075642083ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 39/69] fix: quote backticks in the column names of UPDATE
 statements

---
 recovery/redo/parse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index dbd7a10..3e54950 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
 	"github.com/zbdba/db-recovery/recovery/logs"
@@ -533,12 +534,17 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
+// quoteName doubles the backticks of a name which goes between backticks.
+func quoteName(name string) string {
+	return strings.Replace(name, "`", "``", -1)
+}
+
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Columns, columns []*ibdata.Columns) {
 
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-		SetValue := fmt.Sprintf("`%s`=%s", c.FieldName, c.SQLValue())
+		SetValue := fmt.Sprintf("`%s`=%s", quoteName(c.FieldName), c.SQLValue())
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
@@ -549,7 +555,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`=%s", v.FieldName, v.SQLValue())
+		whereCondition := fmt.Sprintf("`%s`=%s", quoteName(v.FieldName), v.SQLValue())
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From 1ee79e6087438d3016857a195d958366009abfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 40/69] fix: report an error of reading a data file

---
 recovery/ibdata/parse.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 3f7f9f6..ebbae2a 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -156,9 +157,10 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 // You should identify the IsRecovery to confirm
 // whether recovery table data or just read table data.
 func (parse *Parse) ParseDataPage(path string, dbName string, tableName string, isRecovery bool) error {
-	pages, err := parse.parseFile(path)
-	if err != nil {
-		return err
+	// The pages before a read error are good.
+	pages, readErr := parse.parseFile(path)
+	if readErr != nil && len(pages) == 0 {
+		return readErr
 	}
 
 	// Get table fields info from data dict.
@@ -211,7 +213,7 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			parse.makeReplaceIntoStatement(allColumns, tableName, dbName)
 		}
 	}
-	return nil
+	return readErr
 }
 
 // parseFile parse innodb data file
@@ -231,16 +233,16 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for pageNo := uint64(0); ; pageNo++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			logs.Error("read data from file failed, error: ", err.Error())
+			return pages, err
+		}
 		if len(data) < DefaultPageSize {
 			if len(data) != 0 {
 				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
 			}
 			break
 		}
-		if err != nil {
-			logs.Error("read data from file failed, error: ", err.Error())
-			return pages, err
-		}
 
 		// Parse the page file header.
 		page, err := parse.parseFilHeader(data)
-- 
2.43.0


From d05fbd8ec41cdcf8857e838d23f5c93eef584e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 41/69] fix: keep error texts out of the printed SQL

---
 recovery/utils/utils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 5edbb96..9181c97 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -405,7 +405,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -432,7 +432,7 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		}
 		v, err := MatchGetCompressedSize(n)
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		size = 1 + v
 		n <<= 32
@@ -462,7 +462,7 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	Num, err := strconv.ParseInt("FFFFFFFF", 16, 64)
 	n2, err := MatchGetCompressedSize(num & uint64(Num))
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	// The high half follows a 0xFF byte.
 	return 1 + n1 + n2
@@ -548,14 +548,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
-- 
2.43.0


From 0805ec9c777060f4a324eeaeaf507db09fbe91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 42/69] fix: do not print an UPDATE statement without
 assignments or key

---
 recovery/redo/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 3e54950..6590323 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -541,6 +541,12 @@ func quoteName(name string) string {
 
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Columns, columns []*ibdata.Columns) {
 
+	// Without a column to set or a key there is no valid statement.
+	if len(columns) == 0 || len(primaryColumns) == 0 {
+		logs.Error("no columns or no key for an update of table ", table.TableName)
+		return
+	}
+
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-- 
2.43.0


From a1ba626f48a796466e42a72908d880d0491c3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 43/69] fix: do not refuse a dictionary with index records of a
 dropped table

---
 recovery/ibdata/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index ebbae2a..4452e15 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -549,11 +549,11 @@ func (parse *Parse) getAllIndexes() error {
 			t.Indexes = index
 			parse.TableMap[columns[0].FieldValue.(uint64)] = t
 		} else {
-			err = errors.New("Table ID have not found " + fmt.Sprint(columns[0].FieldValue))
-			logs.Error(err.Error())
+			// A dropped table may leave index records behind until they are purged.
+			logs.Warn("Table ID have not found ", fmt.Sprint(columns[0].FieldValue))
 		}
 	}
-	return err
+	return nil
 }
 
 // Get all fields from sys fields dict table.
-- 
2.43.0


From d78f4f00fbc2daef0fb608ff41b4b4f256bf8f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 44/69] fix: do not refuse a dictionary with a partly purged
 table

---
 recovery/ibdata/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 4452e15..aa8ad9a 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -370,6 +370,13 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
+			if idx.FieldNum > uint64(len(table.Columns)) {
+				// The table was dropped and is partly purged.
+				logs.Warn("columns are missing, table id ", fmt.Sprint(tableID))
+				table.Columns = nil
+				parse.TableMap[tableID] = table
+				break
+			}
 			if idx.isClustered() && idx.Name != "GEN_CLUST_INDEX" {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
-- 
2.43.0


From 70f16a6bb25cf52c79541a50af73bc59c41d917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 45/69] fix: use the current name of a renamed table

---
 recovery/ibdata/parse.go     |  8 +++++++-
 recovery/ibdata/structure.go |  2 ++
 recovery/utils/utils.go      | 12 ++++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index aa8ad9a..2d2a394 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -657,12 +657,17 @@ func (parse *Parse) getAllTables() error {
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
+			// A rename leaves the old name behind until it is purged.
+			if t, ok := parse.TableMap[columns[3].FieldValue.(uint64)]; ok && columns[0].deleted && !t.deleted {
+				continue
+			}
 			parse.TableMap[columns[3].FieldValue.(uint64)] =
 				Tables{
 					DBName:    databaseName,
 					TableName: tableName,
 					NullCount: 0,
-					SpaceId:   columns[9].FieldValue.(uint64)}
+					SpaceId:   columns[9].FieldValue.(uint64),
+					deleted:   columns[0].deleted}
 		}
 	}
 	return nil
@@ -950,6 +955,7 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			if c == nil {
 				return allColumns, errors.New("the page is damaged: a record exceeds it")
 			}
+			c[0].deleted = utils.RecIsDeleted(data, offset)
 			totalLen += utils.RecOffsSize(&offsets)
 			allColumns = append(allColumns, c)
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 28080ca..a725ef4 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -22,6 +22,7 @@ type Tables struct {
 	Indexes   map[uint64]Indexes
 	NullCount int
 	SpaceId   uint64
+	deleted   bool
 }
 
 // Columns store the table columns info.
@@ -37,6 +38,7 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
+	deleted    bool
 }
 
 // Indexes store the table index info.
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9181c97..3a7ba3d 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -39,6 +39,18 @@ func RecGetStatus(rec []byte, offset uint64) uint64 {
 	return RecGetBitField1(rec, offset, 3, 0x7, 0)
 }
 
+// RecIsDeleted reference MySQL rec_get_deleted_flag method
+func RecIsDeleted(page []byte, offset uint64) bool {
+	// #define REC_NEW_INFO_BITS	5
+	infoBits := uint64(5)
+	if PageIsCompact(page) == 0 {
+		// #define REC_OLD_INFO_BITS	6
+		infoBits = 6
+	}
+	// #define REC_INFO_DELETED_FLAG	0x20UL
+	return RecGetBitField1(page, offset, infoBits, 0x20, 0) != 0
+}
+
 // UtAlignOffset reference MySQL ut_align_offset method
 func UtAlignOffset(rec []byte, AlignNo uint64) uint64 {
 	return uint64(rec[0]) & (AlignNo - 1)
-- 
2.43.0


From 575bdacfd02954ed7a283bdd48c30d6574e64bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 46/69] fix: print the fractional seconds of TIME, DATETIME and
 TIMESTAMP

---
 recovery/utils/utils.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 3a7ba3d..70f044c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -596,13 +596,13 @@ func ParseData(DataType uint64, MySQLType uint64,
 		switch MySQLType {
 		// TODO: deal with version 2.
 		case MYSQL_TYPE_TIME:
-			FormatTime := ParseTime(data)
+			FormatTime := ParseTime(data[:FieldLen])
 			return FormatTime, nil
 		case MYSQL_TYPE_TIMESTAMP:
-			FormatTimeStamp := ParseTimeStamp(data)
+			FormatTimeStamp := ParseTimeStamp(data[:FieldLen])
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
-			FormatDateTime := ParseDateTime(data)
+			FormatDateTime := ParseDateTime(data[:FieldLen])
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
 			return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -766,7 +766,15 @@ func ParseDateTime(data []byte) string {
 
 	FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
-	return FormatTime
+	return FormatTime + formatFraction(GetUintValue(len(data)-5, data[5:]), len(data)-5)
+}
+
+// formatFraction formats the fractional seconds, each byte of them has two digits.
+func formatFraction(frac uint64, size int) string {
+	if size == 0 {
+		return ""
+	}
+	return fmt.Sprintf(".%0*d", 2*size, frac)
 }
 
 // ParseDate ...
@@ -787,14 +795,20 @@ func ParseDate(data []byte) string {
 // ParseTime ...
 func ParseTime(data []byte) string {
 
-	// TODO: add time_precision and fixed_length.
 	var hour, min, sec uint
 	var IsNegative bool
 
 	ltime := int64(MatchReadFrom3(data))
 	ltime = ltime - 0x800000
+	size := len(data) - 3
+	frac := GetUintValue(size, data[3:])
 	if ltime < 0 {
 		IsNegative = true
+		if frac != 0 {
+			// The two parts are stored as one negative number.
+			ltime++
+			frac = 1<<(8*uint(size)) - frac
+		}
 		ltime = -ltime
 	}
 
@@ -805,7 +819,7 @@ func ParseTime(data []byte) string {
 		min = uint((ltime & 0xFC0) >> 6)
 		sec = uint(ltime & 0x3F)
 
-		FormatTime := fmt.Sprintf("%02d:%02d:%02d", hour, min, sec)
+		FormatTime := fmt.Sprintf("%02d:%02d:%02d", hour, min, sec) + formatFraction(frac, size)
 		if IsNegative {
 			FormatTime = "-" + FormatTime
 		}
@@ -824,13 +838,12 @@ func ParseTime(data []byte) string {
 
 // ParseTimeStamp ...
 func ParseTimeStamp(data []byte) string {
-	// TODO: add time_precision
 	t := MatchReadFrom4(data)
 	if t == 0 {
 		return "0000-00-00 00:00:00"
 	}
 	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
-	return tm
+	return tm + formatFraction(GetUintValue(len(data)-4, data[4:]), len(data)-4)
 }
 
 // ParseFloat ...
-- 
2.43.0


From 0064799ef850eeb629e666dda80d731e6a41f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 47/69] fix: read CHAR columns of one-byte character sets as
 fixed length

---
 recovery/ibdata/parse.go |  9 ++++++++-
 recovery/utils/utils.go  | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 2d2a394..7ee0d23 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -484,6 +484,13 @@ func (parse *Parse) getAllColumns() error {
 				}
 			}
 
+			// The CHAR type is fixed length when every character takes the same space.
+			fieldType := c[5].FieldValue.(uint64)
+			if fieldType == utils.DATA_MYSQL &&
+				utils.IsFixedWidthCollation((c[6].FieldValue.(uint64)>>16)&0x7FFF) {
+				fieldType = utils.DATA_CHAR
+			}
+
 			var TempFieldLen uint64 = 0
 			if c[5].FieldValue.(uint64) != utils.DATA_BINARY {
 				TempFieldLen = c[7].FieldValue.(uint64)
@@ -492,7 +499,7 @@ func (parse *Parse) getAllColumns() error {
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
-					FieldType: c[5].FieldValue.(uint64),
+					FieldType: fieldType,
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 70f044c..06e43ed 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -745,6 +745,45 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 	}
 }
 
+// IsFixedWidthCollation tells whether all the characters of the character set
+// of a collation take the same number of bytes.
+// reference mysql-5.7.19/strings/ctype-*.c, mbminlen and mbmaxlen
+func IsFixedWidthCollation(id uint64) bool {
+	switch id {
+	case 2, 9, 21, 27, 77, // latin2
+		3, 69, // dec8
+		4, 80, // cp850
+		5, 8, 15, 31, 47, 48, 49, 94, // latin1
+		6, 72, // hp8
+		7, 74, // koi8r
+		10, 82, // swe7
+		11, 65, // ascii
+		14, 23, 50, 51, 52, // cp1251
+		16, 71, // hebrew
+		18, 89, // tis620
+		20, 41, 42, 79, // latin7
+		22, 75, // koi8u
+		25, 70, // greek
+		26, 34, 44, 66, 99, // cp1250
+		29, 58, 59, // cp1257
+		30, 78, // latin5
+		32, 64, // armscii8
+		36, 68, // cp866
+		37, 73, // keybcs2
+		38, 43, // macce
+		39, 53, // macroman
+		40, 81, // cp852
+		57, 67, // cp1256
+		63,     // binary
+		92, 93, // geostd8
+		35, 90, 159, // ucs2
+		60, 61: // utf32
+		return true
+	}
+	// ucs2 and utf32
+	return (id >= 128 && id <= 151) || (id >= 160 && id <= 183)
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From c827b0769758b0e5619c5c705d30980de0bc1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 48/69] fix: print off-page values instead of the reference to
 them

---
 recovery/ibdata/const.go |  4 +++
 recovery/ibdata/parse.go | 65 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 69 insertions(+)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index d15552b..8fa7e00 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -24,6 +24,10 @@ const DefaultPageSize int = 16384
 // #define FIL_PAGE_INDEX		17855	/*!< B-tree node */
 const FilPageIndex uint64 = 17855
 
+// FilPageTypeBlob ...
+// #define FIL_PAGE_TYPE_BLOB	10	/*!< Uncompressed BLOB page */
+const FilPageTypeBlob uint64 = 10
+
 // The root page number of the data dictionary.
 // Use it can find the sys tables index root page.
 const (
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7ee0d23..d79be52 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -33,6 +33,8 @@ type Parse struct {
 	TableMap map[uint64]Tables
 	// TODO: change to map. store page data.
 	D *sync.Map
+	// The pages of off-page values of the data file, by page number.
+	blobPages map[uint64][]byte
 }
 
 // NewParse create parse
@@ -170,6 +172,14 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		return err
 	}
 
+	// The off-page values of the rows are in other pages of the file.
+	parse.blobPages = make(map[uint64][]byte)
+	for _, page := range pages {
+		if page.fh.FIL_PAGE_TYPE == FilPageTypeBlob {
+			parse.blobPages[page.fh.FIL_PAGE_OFFSET] = page.OriginalData
+		}
+	}
+
 	for _, page := range pages {
 
 		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page.fh.FIL_PAGE_TYPE, "page.fh.FIL_PAGE_OFFSET", page.fh.FIL_PAGE_OFFSET)
@@ -1012,6 +1022,16 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 			return nil, 0
 		}
 
+		// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
+		if offsets[2:][1+i]&(1<<30) != 0 {
+			var err error
+			data, err = parse.readExternal(data[:fieldLen])
+			if err != nil {
+				logs.Error("column ", columns[i].FieldName, ": ", err.Error())
+			}
+			fieldLen = uint64(len(data))
+		}
+
 		// Parse the page record.
 		value, err := utils.ParseData(columns[i].FieldType, columns[i].MySQLType, data, fieldLen,
 			int(utils.GetFixedLength(columns[i].FieldType, columns[i].FieldLen)),
@@ -1029,6 +1049,51 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 	return c, dataLen
 }
 
+// readExternal returns the value of an externally stored field. The record has
+// a prefix of the value and, in the last 20 bytes, a reference to the rest.
+// When some of it can't be read the error tells why.
+// Reference mysql-5.7.19/storage/innobase/btr/btr0cur.cc
+// btr_copy_externally_stored_field_prefix_low
+func (parse *Parse) readExternal(field []byte) ([]byte, error) {
+	// #define BTR_EXTERN_FIELD_REF_SIZE	20
+	if len(field) < 20 {
+		return field, errors.New("the reference to the off-page value is truncated")
+	}
+	ref := field[len(field)-20:]
+	value := append([]byte{}, field[:len(field)-20]...)
+
+	// BTR_EXTERN_PAGE_NO, BTR_EXTERN_OFFSET, the low half of BTR_EXTERN_LEN
+	pageNo := utils.MatchReadFrom4(ref[4:])
+	offset := utils.MatchReadFrom4(ref[8:])
+	left := utils.MatchReadFrom4(ref[16:])
+
+	if left == 0 {
+		return value, errors.New("the off-page value was freed")
+	}
+
+	visited := make(map[uint64]bool)
+	for left > 0 {
+		page, ok := parse.blobPages[pageNo]
+		if !ok || visited[pageNo] || offset+8 > uint64(DefaultPageSize) {
+			return value, fmt.Errorf("%d bytes of the off-page value are not in the data file", left)
+		}
+		visited[pageNo] = true
+
+		// BTR_BLOB_HDR_PART_LEN, BTR_BLOB_HDR_NEXT_PAGE_NO
+		partLen := utils.MatchReadFrom4(page[offset:])
+		if partLen > left || offset+8+partLen > uint64(DefaultPageSize) {
+			return value, fmt.Errorf("page %d of an off-page value is damaged", pageNo)
+		}
+		value = append(value, page[offset+8:offset+8+partLen]...)
+		left -= partLen
+
+		// FIL_PAGE_DATA
+		pageNo = utils.MatchReadFrom4(page[offset+4:])
+		offset = 38
+	}
+	return value, nil
+}
+
 // Make the sys tables column info
 // Reference mysql-5.7.19/storage/innobase/dict/dict0boot.cc
 func (parse *Parse) makeSysTablesColumns() []Columns {
-- 
2.43.0


From b005f0409a708cd4b2258e76b4a931f4780e869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 49/69] fix: do not lose an update because the old value of a
 column is off-page

---
 recovery/redo/const.go | 10 ++++++++++
 recovery/redo/mlog.go  | 23 +++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index e3b06e2..5abc0e5 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -237,6 +237,16 @@ const (
 	MLOG_BIGGEST_TYPE = MLOG_TEST
 )
 
+// The lengths of the old values in the undo records which are no lengths.
+// Reference mysql-5.7.19/storage/innobase/include/univ.i
+const (
+	// the value is NULL
+	UNIV_SQL_NULL = 0xFFFFFFFF
+
+	// the value is stored off-page
+	UNIV_EXTERN_STORAGE_FIELD = UNIV_SQL_NULL - 16384
+)
+
 // Define the Undo record type.
 // Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
 const (
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index dce5b42..0909652 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -199,6 +199,29 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
 			*pos += num
 
+			// The log has a prefix of the old value of an off-page column.
+			if fLen >= UNIV_EXTERN_STORAGE_FIELD && fLen != UNIV_SQL_NULL {
+				if fLen == UNIV_EXTERN_STORAGE_FIELD {
+					// The length of the value, then the length of a longer prefix.
+					_, num, err = utils.MatchParseCompressed(data, *pos)
+					if err != nil {
+						return err
+					}
+					*pos += num
+					fLen, num, err = utils.MatchParseCompressed(data, *pos)
+					if err != nil {
+						return err
+					}
+					*pos += num
+				} else {
+					fLen -= UNIV_EXTERN_STORAGE_FIELD
+				}
+				*pos += fLen
+				logs.Error("table ", Table.TableName, " column ", c.FieldName,
+					": the old value is stored off-page, it is not in the redo log")
+				continue
+			}
+
 			var value interface{}
 			if *pos+fLen > uint64(len(data)) {
 				value = nil
-- 
2.43.0


From efa2a001ffc304b62ba84ffbe8049ce6313963a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 50/69] fix: read redo logs which were written over in a circle

---
 recovery/redo/parse.go | 99 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 91 insertions(+), 8 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 6590323..444d2c6 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -69,7 +70,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* https://dev.mysql.com/doc/dev/mysql-server/8.0.11/PAGE_INNODB_REDO_LOG_FORMAT.html
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
-	var data []byte
+	var runs []*logRun
 	for _, LogFile := range logFileList {
 		file, err := os.Open(LogFile)
 		if err != nil {
@@ -98,13 +99,18 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			// Parse the redo block blockHeader.
 			// The redo block consists of redo log blockHeader and redo log data.
 			blockHeader, err := parse.readRedoBlockHeader(block)
-			if err != nil || blockHeader.BlockDataLen == 0 {
+			if err != nil {
 				break
 			}
 
+			// A block which was not written yet, older ones may follow.
+			if blockHeader.BlockDataLen == 0 {
+				continue
+			}
+
 			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
 				logs.Error("redo block is damaged, its data length is ", blockHeader.BlockDataLen)
-				break
+				continue
 			}
 
 			// LOG_BLOCK_TRL_SIZE, for checksum.
@@ -113,19 +119,96 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			}
 
 			// Add all redo block data.
-			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
+			runs = addLogBlock(runs, blockHeader, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen])
 		}
 		file.Close()
 	}
 
-	// Start parse redo log data.
-	err := parse.parseRedoBlockData(data)
-	if err != nil {
-		logs.Error("parse redo block data failed, error: ", err.Error())
+	// Start parse redo log data, the oldest first.
+	var err error
+	for _, run := range joinLogRuns(runs) {
+		err = parse.parseRedoBlockData(run.data)
+		if err != nil {
+			logs.Error("parse redo block data failed, error: ", err.Error())
+		}
 	}
+	// All but the last run were cut where the log was written over.
 	return err
 }
 
+// The redo log files are written in a circle, so the blocks of the files are
+// runs of consecutive blocks: after the newest block comes the oldest one.
+type logRun struct {
+	// The numbers of the first block and of the one after the last block.
+	first, next uint64
+	data        []byte
+	// Where the first log record starts in the data, -1 if none does.
+	start int
+}
+
+// #define LOG_BLOCK_FLUSH_BIT_MASK	0x80000000UL, the block numbers are 1..0x40000000.
+const maxLogBlockNo = 0x40000000
+
+// addLogBlock adds the data of the next block of the files.
+func addLogBlock(runs []*logRun, header BlockHeader, data []byte) []*logRun {
+	no := uint64(header.BlockNumber) &^ 0x80000000
+
+	var run *logRun
+	if len(runs) > 0 && runs[len(runs)-1].next == no {
+		run = runs[len(runs)-1]
+	} else {
+		run = &logRun{first: no, start: -1}
+		runs = append(runs, run)
+	}
+
+	// The data before the first record belongs to a record of the previous block.
+	first := int(header.FirstRecOffset) - LOG_BLOCK_HDR_SIZE
+	if run.start < 0 && first >= 0 && first < len(data) {
+		run.start = len(run.data) + first
+	}
+	run.data = append(run.data, data...)
+	run.next = no%maxLogBlockNo + 1
+	return runs
+}
+
+// joinLogRuns brings the runs in the order they were written, joins the
+// ones which continue each other, and lets them start with a log record.
+func joinLogRuns(runs []*logRun) []*logRun {
+	// After the highest block number comes 1.
+	order := func(run *logRun) uint64 { return run.first }
+	for _, run := range runs {
+		if run.first >= maxLogBlockNo/4*3 {
+			order = func(run *logRun) uint64 { return (run.first + maxLogBlockNo/2) % maxLogBlockNo }
+		}
+	}
+	sort.SliceStable(runs, func(i, j int) bool {
+		return order(runs[i]) < order(runs[j])
+	})
+
+	var joined []*logRun
+	for _, run := range runs {
+		if len(joined) > 0 && joined[len(joined)-1].next == run.first {
+			last := joined[len(joined)-1]
+			if last.start < 0 && run.start >= 0 {
+				last.start = len(last.data) + run.start
+			}
+			last.data = append(last.data, run.data...)
+			last.next = run.next
+		} else {
+			joined = append(joined, run)
+		}
+	}
+
+	var started []*logRun
+	for _, run := range joined {
+		if run.start >= 0 {
+			run.data = run.data[run.start:]
+			started = append(started, run)
+		}
+	}
+	return started
+}
+
 //	storage/innobase/include/log0log.ic
 //
 //	void meb_log_print_file_hdr(byte *block) {
-- 
2.43.0


From b14ec9fac09a3ffb582bf10f8df05255432ce026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 51/69] fix: refuse a table whose definition is partly purged

---
 recovery/ibdata/parse.go     | 21 +++++++++++++--------
 recovery/ibdata/structure.go | 14 ++++++++++++++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index d79be52..091d102 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -379,14 +379,14 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 // otherwise there should have three internal fields: DB_ROW_ID, DB_TRX_ID, DB_ROLL_PTR.
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
+		if !table.isComplete() {
+			// The table was dropped and is partly purged.
+			logs.Warn("the definition is incomplete, table id ", fmt.Sprint(tableID))
+			table.Columns = nil
+			parse.TableMap[tableID] = table
+			continue
+		}
 		for _, idx := range table.Indexes {
-			if idx.FieldNum > uint64(len(table.Columns)) {
-				// The table was dropped and is partly purged.
-				logs.Warn("columns are missing, table id ", fmt.Sprint(tableID))
-				table.Columns = nil
-				parse.TableMap[tableID] = table
-				break
-			}
 			if idx.isClustered() && idx.Name != "GEN_CLUST_INDEX" {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
@@ -678,8 +678,13 @@ func (parse *Parse) getAllTables() error {
 			if t, ok := parse.TableMap[columns[3].FieldValue.(uint64)]; ok && columns[0].deleted && !t.deleted {
 				continue
 			}
+			// The low bits are the number of stored columns, the high bits the number
+			// of virtual ones, the highest bit is set unless the format is REDUNDANT.
+			nCols := columns[4].FieldValue.(uint64)
+
 			parse.TableMap[columns[3].FieldValue.(uint64)] =
 				Tables{
+					columnNum: nCols&0xFFFF + nCols>>16&0x7FFF,
 					DBName:    databaseName,
 					TableName: tableName,
 					NullCount: 0,
@@ -1103,7 +1108,7 @@ func (parse *Parse) makeSysTablesColumns() []Columns {
 	columns = append(columns, Columns{FieldName: "DB_TRX_ID", FieldType: 8, FieldPos: 1, FieldLen: 6})
 	columns = append(columns, Columns{FieldName: "DB_ROLL_PTR", FieldType: 8, FieldPos: 2, FieldLen: 7})
 	columns = append(columns, Columns{FieldName: "ID", FieldType: 4, FieldPos: 3, FieldLen: 8})
-	columns = append(columns, Columns{FieldName: "N_COLS", FieldType: 6, FieldPos: 4, FieldLen: 4})
+	columns = append(columns, Columns{FieldName: "N_COLS", FieldType: 6, FieldPos: 4, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "TYPE", FieldType: 6, FieldPos: 5, FieldLen: 4, IsUnsigned: true})
 	columns = append(columns, Columns{FieldName: "MIX_ID", FieldType: 4, FieldPos: 6, FieldLen: 0})
 	columns = append(columns, Columns{FieldName: "MIX_LEN", FieldType: 6, FieldPos: 7, FieldLen: 4, IsUnsigned: true})
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index a725ef4..98a29c7 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -23,6 +23,20 @@ type Tables struct {
 	NullCount int
 	SpaceId   uint64
 	deleted   bool
+	// The number of columns according to the table's own record.
+	columnNum uint64
+}
+
+// isComplete tells whether the dictionary has all the columns and the clustered
+// index of the table. When the table was dropped, they are purged one by one.
+func (table Tables) isComplete() bool {
+	clustered := false
+	for _, idx := range table.Indexes {
+		if idx.isClustered() && idx.FieldNum == uint64(len(idx.Fields)) {
+			clustered = true
+		}
+	}
+	return clustered && uint64(len(table.Columns)) == table.columnNum
 }
 
 // Columns store the table columns info.
-- 
2.43.0


From 11d957860277be7076841085ce272e1a5b63c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 52/69] fix: do not print the hidden FTS_DOC_ID column

---
 recovery/ibdata/format.go | 11 ++++++++++-
 recovery/redo/mlog.go     |  4 +++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index f2b348b..12a8d90 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -31,7 +31,8 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			// Skip internal field.
 			if column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
-				column.FieldName == "DB_ROLL_PTR" {
+				column.FieldName == "DB_ROLL_PTR" ||
+				column.IsHiddenDocID() {
 				continue
 			}
 
@@ -55,6 +56,14 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 }
 
+// IsHiddenDocID reports whether it is the column which InnoDB adds to a table
+// with a FULLTEXT index when there is none of that name.
+func (column Columns) IsHiddenDocID() bool {
+	// #define DATA_FTS_DOC_ID	3
+	return column.FieldName == "FTS_DOC_ID" && column.FieldType == utils.DATA_INT &&
+		column.MySQLType == 3 && column.FieldLen == 8
+}
+
 // SQLValue returns the value of the column as an SQL literal.
 func (column Columns) SQLValue() string {
 	var buf bytes.Buffer
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 0909652..b6ac82e 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -236,7 +236,9 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			c.FieldValue = value
-			columns = append(columns, c)
+			if !c.IsHiddenDocID() {
+				columns = append(columns, c)
+			}
 			*pos += fLen
 
 			logs.Debug("values is ", value)
-- 
2.43.0


From 7adea22270b590694c24053d29ad76f73a3d1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 53/69] fix: report when a statement can't be written to
 standard output

---
 recovery/ibdata/format.go |  9 ++++++---
 recovery/ibdata/parse.go  |  5 ++++-
 recovery/redo/parse.go    | 11 ++++++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 12a8d90..6eb4a6a 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -11,7 +11,8 @@ import (
 )
 
 // Make row data to replace into statement, it will be more convenient when restoring data.
-func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) {
+// It returns an error when a statement can't be written.
+func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) error {
 	var buf bytes.Buffer
 	var query string
 
@@ -49,11 +50,13 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		query = buf.String()
 		buf.Reset()
 
-		fmt.Println(query)
+		if _, err := fmt.Println(query); err != nil {
+			return err
+		}
 		logs.Debug("query is ", query)
 
 	}
-
+	return nil
 }
 
 // IsHiddenDocID reports whether it is the column which InnoDB adds to a table
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 091d102..02f07dd 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -220,7 +220,10 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			}
 
 			// Make replace into statement.
-			parse.makeReplaceIntoStatement(allColumns, tableName, dbName)
+			if err := parse.makeReplaceIntoStatement(allColumns, tableName, dbName); err != nil {
+				logs.Error("write the statements failed, error: ", err.Error())
+				return err
+			}
 		}
 	}
 	return readErr
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 444d2c6..fd97210 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -38,6 +38,9 @@ type Parse struct {
 
 	// The database name which you want to recovery.
 	DBName string
+
+	// The first error of writing a statement.
+	writeErr error
 }
 
 // NewParse ...
@@ -132,6 +135,10 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			logs.Error("parse redo block data failed, error: ", err.Error())
 		}
 	}
+	if parse.writeErr != nil {
+		logs.Error("write the statements failed, error: ", parse.writeErr.Error())
+		return parse.writeErr
+	}
 	// All but the last run were cut where the log was written over.
 	return err
 }
@@ -656,5 +663,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 		table.TableName, SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
-	fmt.Println(query)
+	if parse.writeErr == nil {
+		_, parse.writeErr = fmt.Println(query)
+	}
 }
-- 
2.43.0


From 73c85e7d2e52dc672c8b2233094cfd6c90405831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 54/69] fix: an error of reading a redo log file is not its end

---
 recovery/redo/parse.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index fd97210..9ea7053 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -17,6 +17,7 @@ package redo
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -74,6 +75,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	var runs []*logRun
+	var readErr error
 	for _, LogFile := range logFileList {
 		file, err := os.Open(LogFile)
 		if err != nil {
@@ -96,6 +98,10 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
 			if err != nil {
+				if err != io.EOF && err != io.ErrUnexpectedEOF {
+					logs.Error("read data from file failed, error: ", err.Error())
+					readErr = err
+				}
 				break
 			}
 
@@ -125,6 +131,11 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			runs = addLogBlock(runs, blockHeader, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen])
 		}
 		file.Close()
+
+		// The blocks before a read error are good.
+		if readErr != nil {
+			break
+		}
 	}
 
 	// Start parse redo log data, the oldest first.
@@ -139,6 +150,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		logs.Error("write the statements failed, error: ", parse.writeErr.Error())
 		return parse.writeErr
 	}
+	if readErr != nil {
+		return readErr
+	}
 	// All but the last run were cut where the log was written over.
 	return err
 }
-- 
2.43.0


From 46cceb75d6afd32d869385ee14ff66d2394b2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 55/69] fix: an error of reading the block between the
 checkpoints was ignored

---
 recovery/redo/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 9ea7053..a6b26ce 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -305,7 +305,9 @@ func (parse *Parse) readRedoLogFileCheckpoint(file *os.File) error {
 	logs.Debugf("Checkpoint1 Number: 0x%X, LSN: 0x%X, Offset: 0x%d, BufferSize: %d, ArchivedLSN: 0x%X, Checksum1: 0x%X, Checksum2: 0x%X, CurrentFSP: 0x%X, Magic: 0x%X",
 		checkpoint1.Number, checkpoint1.LSN, checkpoint1.Offset, checkpoint1.BufferSize, checkpoint1.ArchivedLSN, checkpoint1.Checksum1, checkpoint1.Checksum2, checkpoint1.CurrentFSP, checkpoint1.Magic)
 
-	utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+	if _, err = utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE); err != nil {
+		return err
+	}
 
 	checkpoint2 := Checkpoint{}
 	err = utils.ReadIntoStruct(file, &checkpoint2, OS_FILE_LOG_BLOCK_SIZE)
-- 
2.43.0


From ce2269d56efe198524ca40be5078f925497ec9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 56/69] fix: an unknown or unsupported OpType printed the rows
 as PrintData does

---
 cmd/db-recovery/command.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 76cf9f2..dc9d0a8 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -104,6 +104,14 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	}
 
 	isRecovery := false
+	switch OpType {
+	case "RecoveryData":
+		isRecovery = true
+	case "", "PrintData":
+	default:
+		// TODO: support RecoveryStruct.
+		exitWithError(fmt.Errorf("the OpType %s is not supported", OpType))
+	}
 
 	p := ibdata.NewParse()
 	err = p.ParseDictPage(SysDataFile)
@@ -111,10 +119,6 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 		exitWithError(err)
 	}
 
-	if OpType == "RecoveryData" {
-		isRecovery = true
-	}
-
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
 		exitWithError(err)
-- 
2.43.0


From 980afaf3dcc3beb0c30a8df3b6e11a468da4b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 57/69] fix: read the rows of a table whose primary key has
 column prefixes

---
 recovery/ibdata/format.go    |  1 +
 recovery/ibdata/parse.go     | 10 +++++++++-
 recovery/ibdata/structure.go |  6 +++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 6eb4a6a..2a2e3d3 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,6 +33,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			if column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
 				column.FieldName == "DB_ROLL_PTR" ||
+				column.PrefixLen != 0 ||
 				column.IsHiddenDocID() {
 				continue
 			}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 02f07dd..f7ccfe6 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -367,7 +367,15 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 		for i := j; i < len(columns); i++ {
 			if field.ColumnName == columns[i].FieldName {
 				tempField := columns[i]
-				columns = append(columns[:i], columns[i+1:]...)
+				if j == 0 || field.ColumnPos > 0xFFFF {
+					tempField.PrefixLen = field.ColumnPos & 0xFFFF
+				}
+				if tempField.PrefixLen == 0 {
+					columns = append(columns[:i], columns[i+1:]...)
+				} else if tempField.FieldLen > tempField.PrefixLen {
+					// The record has both, the prefix and the column.
+					tempField.FieldLen = tempField.PrefixLen
+				}
 				columns = addColumns(columns, j, tempField)
 				break
 			}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 98a29c7..872dbf1 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -52,7 +52,9 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
-	deleted    bool
+	// Not 0: a prefix of this many bytes of the column, as a part of the key.
+	PrefixLen uint64
+	deleted   bool
 }
 
 // Indexes store the table index info.
@@ -73,6 +75,8 @@ func (idx Indexes) isClustered() bool {
 }
 
 type Fields struct {
+	// The position in the index; when it has column prefixes, the position in the
+	// high half and the length of the prefix or 0 in the low half.
 	ColumnPos  uint64
 	ColumnName string
 	//ColumnType  uint64
-- 
2.43.0


From c280da27d24a9b09c6184db44d461af8430612a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 58/69] fix: compare only the prefix of a key column in the
 UPDATE statements

The undo record has only the prefix of the column which the key has, so the
row was not found by an equation with the whole column. A table with such a
key also counts as complete.
---
 recovery/ibdata/parse.go     |  5 +++--
 recovery/ibdata/structure.go | 13 ++++++++++---
 recovery/redo/parse.go       |  4 ++++
 recovery/utils/utils.go      | 26 ++++++++++++++++++++++++++
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index f7ccfe6..5317495 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -526,8 +526,9 @@ func (parse *Parse) getAllColumns() error {
 					FieldLen:  TempFieldLen,
 					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
-					TableID:  c[0].FieldValue.(uint64),
-					IsBinary: IsBinary})
+					TableID:    c[0].FieldValue.(uint64),
+					MaxCharLen: utils.MaxCharLength((c[6].FieldValue.(uint64) >> 16) & 0x7FFF),
+					IsBinary:   IsBinary})
 
 			parse.TableMap[c[0].FieldValue.(uint64)] = t
 		}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 872dbf1..4c694e4 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -36,7 +36,13 @@ func (table Tables) isComplete() bool {
 			clustered = true
 		}
 	}
-	return clustered && uint64(len(table.Columns)) == table.columnNum
+	columns := uint64(0)
+	for _, column := range table.Columns {
+		if column.PrefixLen == 0 {
+			columns++
+		}
+	}
+	return clustered && columns == table.columnNum
 }
 
 // Columns store the table columns info.
@@ -53,8 +59,9 @@ type Columns struct {
 	IsUnsigned bool
 	TableID    uint64
 	// Not 0: a prefix of this many bytes of the column, as a part of the key.
-	PrefixLen uint64
-	deleted   bool
+	PrefixLen  uint64
+	MaxCharLen uint64
+	deleted    bool
 }
 
 // Indexes store the table index info.
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index a6b26ce..bad897a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -668,6 +668,10 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 
 	for j, v := range primaryColumns {
 		whereCondition := fmt.Sprintf("`%s`=%s", quoteName(v.FieldName), v.SQLValue())
+		if v.PrefixLen != 0 {
+			// The key has only the first characters of the column.
+			whereCondition = fmt.Sprintf("left(`%s`,%d)=%s", quoteName(v.FieldName), v.PrefixLen/v.MaxCharLen, v.SQLValue())
+		}
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 06e43ed..2ab6607 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -784,6 +784,32 @@ func IsFixedWidthCollation(id uint64) bool {
 	return (id >= 128 && id <= 151) || (id >= 160 && id <= 183)
 }
 
+// MaxCharLength returns how many bytes the longest character of the character
+// set of a collation takes.
+// reference mysql-5.7.19/strings/ctype-*.c, mbmaxlen
+func MaxCharLength(id uint64) uint64 {
+	switch {
+	case id == 1, id == 84, // big5
+		id == 13, id == 88, // sjis
+		id == 19, id == 85, // euckr
+		id == 24, id == 86, // gb2312
+		id == 28, id == 87, // gbk
+		id == 95, id == 96, // cp932
+		id == 35, id == 90, id >= 128 && id <= 151, id == 159: // ucs2
+		return 2
+	case id == 12, id == 91, // ujis
+		id == 97, id == 98, // eucjpms
+		id == 33, id == 76, id == 83, id >= 192 && id <= 215, id == 223: // utf8
+		return 3
+	case id == 45, id == 46, id >= 224 && id <= 247, // utf8mb4
+		id == 54, id == 55, id == 56, id == 62, id >= 101 && id <= 124, // utf16
+		id == 60, id == 61, id >= 160 && id <= 183, // utf32
+		id >= 248 && id <= 250: // gb18030
+		return 4
+	}
+	return 1
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From de445bd650f8c0f40fc60d7a585c7ed36708401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 59/69] fix: an update of an internal table was printed as a
 statement without a database

---
 recovery/redo/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index bad897a..544bb93 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -653,6 +653,12 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 		return
 	}
 
+	// InnoDB's own tables, such as SYS_FOREIGN, can't be updated by a statement.
+	if table.DBName == "" {
+		logs.Info("skip an update of the internal table ", table.TableName)
+		return
+	}
+
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-- 
2.43.0


From bfda9a7b80335f653aadab73e9429b654824c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 60/69] fix: print the numbers of ENUM and SET values without
 quotes

In quotes MySQL takes them for the names of members: the value 1 of an
ENUM('0','1') was stored as its second member, and in a WHERE condition no
row was found.
---
 recovery/ibdata/format.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 2a2e3d3..8bb1688 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -68,6 +68,12 @@ func (column Columns) IsHiddenDocID() bool {
 		column.MySQLType == 3 && column.FieldLen == 8
 }
 
+// isEnumOrSet reports whether it is an ENUM or SET column, whose values are
+// stored as numbers while MySQL's type is that of strings.
+func (column Columns) isEnumOrSet() bool {
+	return column.FieldType == utils.DATA_INT && column.MySQLType == utils.MYSQL_TYPE_STRING
+}
+
 // SQLValue returns the value of the column as an SQL literal.
 func (column Columns) SQLValue() string {
 	var buf bytes.Buffer
@@ -81,7 +87,10 @@ func (column Columns) SQLValue() string {
 		buf.WriteString("unhex(")
 	}
 
-	if column.FieldValue != nil {
+	if v, ok := column.FieldValue.(uint64); ok && column.isEnumOrSet() {
+		// In quotes it would be the name of a member.
+		buf.WriteString(strconv.FormatUint(v, 10))
+	} else if column.FieldValue != nil {
 		buf.WriteByte('\'')
 		buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
 		buf.WriteByte('\'')
-- 
2.43.0


From 130496554791d3f12c8b6f047e40420a60f67c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 61/69] fix: compare a FLOAT key with its exact value in the
 UPDATE statements

MySQL compares a FLOAT column as a DOUBLE, so the condition with the
shortest decimal number of the FLOAT found no row.
---
 recovery/redo/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 544bb93..0bf3407 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -673,6 +673,10 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 	var whereConditions string
 
 	for j, v := range primaryColumns {
+		// MySQL compares a FLOAT as a DOUBLE.
+		if value, ok := v.FieldValue.(float32); ok {
+			v.FieldValue = float64(value)
+		}
 		whereCondition := fmt.Sprintf("`%s`=%s", quoteName(v.FieldName), v.SQLValue())
 		if v.PrefixLen != 0 {
 			// The key has only the first characters of the column.
-- 
2.43.0


From 6c55b30a59a589adf97cb2d167b7606458c6668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:34 +0000
Subject: [PATCH 62/69] fix: print FLOAT values such that MySQL reads the same
 value

MySQL reads a number as a DOUBLE and rounds that to a FLOAT: the shortest
decimal number of the greatest FLOAT is out of range, and that of
7.0385307e-26 gives its neighbour.
---
 recovery/ibdata/format.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 8bb1688..0b67ef4 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -83,6 +84,14 @@ func (column Columns) SQLValue() string {
 		column.FieldValue = strconv.FormatUint(v, 2)
 	}
 
+	if f, ok := column.FieldValue.(float32); ok {
+		// MySQL reads it as a DOUBLE, which has to be in the range of a FLOAT, and rounds that.
+		d, err := strconv.ParseFloat(fmt.Sprint(f), 64)
+		if err == nil && (float32(d) != f || math.Abs(d) > math.MaxFloat32) {
+			column.FieldValue = float64(f)
+		}
+	}
+
 	if column.IsBinary {
 		buf.WriteString("unhex(")
 	}
-- 
2.43.0


From c8fbe4733afbded4b025dc986768c049ab5e8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 63/69] fix: a damaged page of the data dictionary made every
 table unreadable

---
 recovery/ibdata/parse.go | 42 +++++++++++++++++++++++++---------------
 recovery/redo/parse.go   |  7 +++++++
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 5317495..0409fd1 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -33,6 +33,8 @@ type Parse struct {
 	TableMap map[uint64]Tables
 	// TODO: change to map. store page data.
 	D *sync.Map
+	// Not nil: definitions of tables may be missing.
+	DictErr error
 	// The pages of off-page values of the data file, by page number.
 	blobPages map[uint64][]byte
 }
@@ -444,6 +446,26 @@ func (parse *Parse) addInternalColumn(fieldName string, tableID uint64, fieldPos
 	return columns
 }
 
+// parseDictTablePage gives the records of a page of a dictionary table. When it
+// is damaged, the tables whose definitions are complete can be read nevertheless.
+// The given columns are never NULL.
+func (parse *Parse) parseDictTablePage(dt DataDict, columns []Columns, notNull ...int) [][]Columns {
+	allColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
+	for i, c := range allColumns {
+		for _, j := range notNull {
+			if c[j].FieldValue == nil && err == nil {
+				err = errors.New("the page is damaged: " + c[j].FieldName + " is NULL")
+				allColumns = allColumns[:i]
+			}
+		}
+	}
+	if err != nil {
+		logs.Error("page ", dt.PageOffset, " of the data dictionary: ", err.Error())
+		parse.DictErr = fmt.Errorf("page %d of the data dictionary: %s", dt.PageOffset, err.Error())
+	}
+	return allColumns
+}
+
 // Get all column info from sys column dict tables.
 func (parse *Parse) getAllColumns() error {
 	logs.Debug("start parse sys_columns.")
@@ -462,10 +484,7 @@ func (parse *Parse) getAllColumns() error {
 	for _, dt := range dts {
 
 		// Start parse sys column table page.
-		AllColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
-		if err != nil {
-			return err
-		}
+		AllColumns := parse.parseDictTablePage(dt, columns, 0, 1, 4, 5, 6, 7)
 		AllPageColumns = append(AllPageColumns, AllColumns...)
 	}
 
@@ -554,10 +573,7 @@ func (parse *Parse) getAllIndexes() error {
 	dts := v.([]DataDict)
 	for _, dt := range dts {
 		// Start parse sys indexes table pages.
-		allColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
-		if err != nil {
-			return err
-		}
+		allColumns := parse.parseDictTablePage(dt, columns, 0, 1, 4, 5, 6)
 		allPageColumns = append(allPageColumns, allColumns...)
 
 	}
@@ -608,10 +624,7 @@ func (parse *Parse) getAllFields() error {
 	dts := v.([]DataDict)
 	for _, dt := range dts {
 		// Start parse sys fields table pages.
-		alColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
-		if err != nil {
-			return err
-		}
+		alColumns := parse.parseDictTablePage(dt, columns, 0, 1, 4)
 		allPageColumns = append(allPageColumns, alColumns...)
 	}
 
@@ -670,10 +683,7 @@ func (parse *Parse) getAllTables() error {
 	for _, dt := range dts {
 
 		// parse sys table page.
-		allColumns, err := parse.parsePage(dt.data, dt.pos, columns, false, 0)
-		if err != nil {
-			return err
-		}
+		allColumns := parse.parseDictTablePage(dt, columns, 0, 3, 4, 9)
 
 		for _, columns := range allColumns {
 			// database and table name, for example: zbdba3/jingbo_test
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 0bf3407..60bc63a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -42,6 +42,9 @@ type Parse struct {
 
 	// The first error of writing a statement.
 	writeErr error
+
+	// Not nil: the updates of some tables can't be recovered.
+	dictErr error
 }
 
 // NewParse ...
@@ -59,6 +62,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 	ibdataParse := ibdata.NewParse()
 	err := ibdataParse.ParseDictPage(ibdataPath)
 	parse.TableMap = ibdataParse.TableMap
+	parse.dictErr = ibdataParse.DictErr
 	return err
 }
 
@@ -153,6 +157,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	if readErr != nil {
 		return readErr
 	}
+	if parse.dictErr != nil {
+		return parse.dictErr
+	}
 	// All but the last run were cut where the log was written over.
 	return err
 }
-- 
2.43.0


From 528115502afefa6cae777ebc9f144cf929e88f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 64/69] fix: CHAR values in UTF-16 lost the last byte of their
 padding

The spaces of utf16 and utf16le take two bytes. Half of the last one was cut
off, or of a character which ends in the byte 0x20.
---
 recovery/ibdata/parse.go | 11 ++++++++---
 recovery/utils/utils.go  |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 0409fd1..7767e3b 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -526,9 +526,14 @@ func (parse *Parse) getAllColumns() error {
 
 			// The CHAR type is fixed length when every character takes the same space.
 			fieldType := c[5].FieldValue.(uint64)
-			if fieldType == utils.DATA_MYSQL &&
-				utils.IsFixedWidthCollation((c[6].FieldValue.(uint64)>>16)&0x7FFF) {
-				fieldType = utils.DATA_CHAR
+			if fieldType == utils.DATA_MYSQL {
+				collation := (c[6].FieldValue.(uint64) >> 16) & 0x7FFF
+				if utils.IsFixedWidthCollation(collation) {
+					fieldType = utils.DATA_CHAR
+				} else if utils.IsUTF16Collation(collation) {
+					// The padding is made of two-byte spaces and left as it is.
+					fieldType = utils.DATA_VARMYSQL
+				}
 			}
 
 			var TempFieldLen uint64 = 0
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 2ab6607..b164c37 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -784,6 +784,11 @@ func IsFixedWidthCollation(id uint64) bool {
 	return (id >= 128 && id <= 151) || (id >= 160 && id <= 183)
 }
 
+// IsUTF16Collation tells whether a collation is one of utf16 or utf16le.
+func IsUTF16Collation(id uint64) bool {
+	return id == 54 || id == 55 || id == 56 || id == 62 || (id >= 101 && id <= 124)
+}
+
 // MaxCharLength returns how many bytes the longest character of the character
 // set of a collation takes.
 // reference mysql-5.7.19/strings/ctype-*.c, mbmaxlen
-- 
2.43.0


From 6fa936454371fd501c6993d2b594392165c6a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:02 +0000
Subject: [PATCH 65/69] fix: statements named tables by their stored names

InnoDB stores my-table as my@002dtable and the partitions of t as t#P#p0.
The statements named tables like that, which MySQL does not know.
---
 recovery/ibdata/format.go    | 39 +++++++++++++++++++++++++++++++++++-
 recovery/ibdata/parse.go     | 11 ++++++++--
 recovery/ibdata/structure.go |  2 ++
 recovery/redo/mlog.go        |  5 +++++
 recovery/redo/parse.go       |  4 ++--
 5 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 0b67ef4..b0642a1 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"sort"
 	"strconv"
+	"strings"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -25,7 +26,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			return columns[i].FieldPos < columns[j].FieldPos
 		})
 
-		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
+		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", quoteName(database), quoteName(table)))
 		firstCol := true
 
 		for _, column := range columns {
@@ -112,3 +113,39 @@ func (column Columns) SQLValue() string {
 	}
 	return buf.String()
 }
+
+// decodeName turns a name as InnoDB stores it into that of SQL. MySQL writes the
+// characters which a file name may not have as an @ and four hexadecimal digits.
+// TODO: the letters which MySQL has codes of two characters for.
+func decodeName(name string) string {
+	var buf bytes.Buffer
+	for i := 0; i < len(name); i++ {
+		if name[i] == '@' && i+5 <= len(name) {
+			if code, err := strconv.ParseUint(name[i+1:i+5], 16, 16); err == nil {
+				buf.WriteRune(rune(code))
+				i += 4
+				continue
+			}
+		}
+		buf.WriteByte(name[i])
+	}
+	return buf.String()
+}
+
+// tableNames returns the name of a table to ask for and the one in SQL statements.
+// A partition p of the table t is a table with the name t#P#p of its own.
+func tableNames(name string) (string, string) {
+	end := len(name)
+	for _, part := range []string{"#P#", "#p#"} {
+		if i := strings.Index(name, part); i >= 0 {
+			end = i
+		}
+	}
+	sqlName := decodeName(name[:end])
+	return sqlName + decodeName(name[end:]), sqlName
+}
+
+// quoteName doubles the backticks of a name which goes between backticks.
+func quoteName(name string) string {
+	return strings.Replace(name, "`", "``", -1)
+}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7767e3b..dc3d7e2 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -174,6 +174,11 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		return err
 	}
 
+	table, err := parse.getTableFromDict(dbName, tableName)
+	if err != nil {
+		return err
+	}
+
 	// The off-page values of the rows are in other pages of the file.
 	parse.blobPages = make(map[uint64][]byte)
 	for _, page := range pages {
@@ -222,7 +227,7 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			}
 
 			// Make replace into statement.
-			if err := parse.makeReplaceIntoStatement(allColumns, tableName, dbName); err != nil {
+			if err := parse.makeReplaceIntoStatement(allColumns, table.SQLName, dbName); err != nil {
 				logs.Error("write the statements failed, error: ", err.Error())
 				return err
 			}
@@ -696,11 +701,12 @@ func (parse *Parse) getAllTables() error {
 			var databaseName string
 			if strings.Contains(columns[0].FieldValue.(string), "/") {
 				n := strings.Split(columns[0].FieldValue.(string), "/")
-				databaseName = n[0]
+				databaseName = decodeName(n[0])
 				tableName = n[1]
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
+			tableName, sqlName := tableNames(tableName)
 			// A rename leaves the old name behind until it is purged.
 			if t, ok := parse.TableMap[columns[3].FieldValue.(uint64)]; ok && columns[0].deleted && !t.deleted {
 				continue
@@ -714,6 +720,7 @@ func (parse *Parse) getAllTables() error {
 					columnNum: nCols&0xFFFF + nCols>>16&0x7FFF,
 					DBName:    databaseName,
 					TableName: tableName,
+					SQLName:   sqlName,
 					NullCount: 0,
 					SpaceId:   columns[9].FieldValue.(uint64),
 					deleted:   columns[0].deleted}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 4c694e4..1799313 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -18,6 +18,8 @@ package ibdata
 type Tables struct {
 	DBName    string
 	TableName string
+	// The name in SQL statements: a partition has that of its table.
+	SQLName   string
 	Columns   []Columns
 	Indexes   map[uint64]Indexes
 	NullCount int
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index b6ac82e..5a81f36 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -244,6 +244,11 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("values is ", value)
 		}
 
+		// The name of a partitioned table is that of all its partitions.
+		if Table.SQLName == parse.TableName {
+			Table.TableName = Table.SQLName
+		}
+
 		// Make data to sql statement, only for update statement.
 		// Print sql statement when user identify the table name or the database name,
 		// if user don't identify table and database name, print all sql statement.
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 60bc63a..19c3e30 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -696,8 +696,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Column
 		}
 	}
 
-	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", table.DBName,
-		table.TableName, SetValues, whereConditions)
+	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", quoteName(table.DBName),
+		quoteName(table.SQLName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
 	if parse.writeErr == nil {
-- 
2.43.0


From dbc88c23094bb8bc368dc145ffdb501832686434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:13 +0000
Subject: [PATCH 66/69] fix: TIME, DATETIME and TIMESTAMP values of tables from
 before MySQL 5.6.4 were printed as plain numbers

---
 recovery/utils/utils.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index b164c37..cfe06c0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -636,6 +636,12 @@ func ParseData(DataType uint64, MySQLType uint64,
 			}
 			FormatYear := MatchReadFrom1(data) + 1900
 			return FormatYear, nil
+		case MYSQL_TYPE_TIME, MYSQL_TYPE_DATETIME, MYSQL_TYPE_TIMESTAMP:
+			value := GetIntValue(FixLength, data[:FieldLen])
+			if IsUnsigned {
+				value = GetUintValue(FixLength, data[:FieldLen])
+			}
+			return formatOldTemporal(MySQLType, value), nil
 		default:
 			if IsUnsigned {
 				return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -669,6 +675,33 @@ func ParseData(DataType uint64, MySQLType uint64,
 	return nil, nil
 }
 
+// formatOldTemporal formats a TIME, DATETIME or TIMESTAMP value as stored before
+// MySQL 5.6.4: the number HHMMSS, the number YYYYMMDDHHMMSS or the Unix time.
+func formatOldTemporal(MySQLType uint64, value interface{}) interface{} {
+	n, err := strconv.ParseInt(fmt.Sprint(value), 10, 64)
+	if err != nil {
+		return value
+	}
+
+	switch MySQLType {
+	case MYSQL_TYPE_TIME:
+		sign := ""
+		if n < 0 {
+			sign = "-"
+			n = -n
+		}
+		return fmt.Sprintf("%s%02d:%02d:%02d", sign, n/10000, n/100%100, n%100)
+	case MYSQL_TYPE_DATETIME:
+		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", n/10000000000, n/100000000%100, n/1000000%100,
+			n/10000%100, n/100%100, n%100)
+	default:
+		if n == 0 {
+			return "0000-00-00 00:00:00"
+		}
+		return time.Unix(n, 0).Format("2006-01-02 15:04:05")
+	}
+}
+
 // GetFixedLengthByMySQLType ...
 func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 
-- 
2.43.0


From c8740b3d63588a13338c51f1c5a2f6327ff61856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 67/69] fix: the rows and updates of tables with virtual
 columns were misread

---
 recovery/ibdata/format.go    | 24 +++++++++++++++++++++++-
 recovery/ibdata/parse.go     | 10 +++++++++-
 recovery/ibdata/structure.go |  4 +++-
 recovery/redo/const.go       |  5 +++++
 recovery/redo/mlog.go        | 32 ++++++++++++++++++++++++++++++++
 5 files changed, 72 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index b0642a1..d82b422 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -14,7 +14,8 @@ import (
 
 // Make row data to replace into statement, it will be more convenient when restoring data.
 // It returns an error when a statement can't be written.
-func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string) error {
+func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table string, database string,
+	virtualPos []uint64) error {
 	var buf bytes.Buffer
 	var query string
 
@@ -28,6 +29,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", quoteName(database), quoteName(table)))
 		firstCol := true
+		place := uint64(0)
 
 		for _, column := range columns {
 
@@ -46,7 +48,16 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
+			for isVirtual(place, virtualPos) {
+				buf.WriteString("DEFAULT,")
+				place++
+			}
 			buf.WriteString(column.SQLValue())
+			place++
+		}
+		for isVirtual(place, virtualPos) {
+			buf.WriteString(",DEFAULT")
+			place++
 		}
 
 		buf.WriteString(");")
@@ -62,6 +73,17 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 	return nil
 }
 
+// isVirtual reports whether it is the place of a virtual column, which has no
+// value but DEFAULT in a REPLACE statement.
+func isVirtual(place uint64, virtualPos []uint64) bool {
+	for _, pos := range virtualPos {
+		if pos == place {
+			return true
+		}
+	}
+	return false
+}
+
 // IsHiddenDocID reports whether it is the column which InnoDB adds to a table
 // with a FULLTEXT index when there is none of that name.
 func (column Columns) IsHiddenDocID() bool {
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index dc3d7e2..074d469 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -227,7 +227,7 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			}
 
 			// Make replace into statement.
-			if err := parse.makeReplaceIntoStatement(allColumns, table.SQLName, dbName); err != nil {
+			if err := parse.makeReplaceIntoStatement(allColumns, table.SQLName, dbName, table.virtualPos); err != nil {
 				logs.Error("write the statements failed, error: ", err.Error())
 				return err
 			}
@@ -499,6 +499,14 @@ func (parse *Parse) getAllColumns() error {
 		if ok {
 			t := v
 
+			// #define DATA_VIRTUAL	8192
+			// The low bits of the position are the place among all the columns.
+			if c[6].FieldValue.(uint64)&8192 != 0 {
+				t.virtualPos = append(t.virtualPos, c[1].FieldValue.(uint64)&0xFFFF)
+				parse.TableMap[c[0].FieldValue.(uint64)] = t
+				continue
+			}
+
 			IsNull := false
 			IsUnsigned := false
 			var MySQLType uint64
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 1799313..60cbd04 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -27,6 +27,8 @@ type Tables struct {
 	deleted   bool
 	// The number of columns according to the table's own record.
 	columnNum uint64
+	// The places of the virtual columns, of which nothing is stored, in the table.
+	virtualPos []uint64
 }
 
 // isComplete tells whether the dictionary has all the columns and the clustered
@@ -44,7 +46,7 @@ func (table Tables) isComplete() bool {
 			columns++
 		}
 	}
-	return clustered && columns == table.columnNum
+	return clustered && columns+uint64(len(table.virtualPos)) == table.columnNum
 }
 
 // Columns store the table columns info.
diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index 5abc0e5..8e0396d 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -245,6 +245,11 @@ const (
 
 	// the value is stored off-page
 	UNIV_EXTERN_STORAGE_FIELD = UNIV_SQL_NULL - 16384
+
+	// Field numbers from here on are virtual columns.
+	REC_MAX_N_FIELDS = 1024 - 1
+	// The mark of an undo record with the indexes of its virtual columns.
+	VIRTUAL_COL_UNDO_FORMAT_1 = 0xF1
 )
 
 // Define the Undo record type.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 5a81f36..e8e6bbc 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -181,6 +181,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		*pos += num
 
 		var i uint64
+		firstVirtual, hasIndexList := true, false
 		for i = 0; i < columnNum; i++ {
 			Pos, num, err := utils.MatchParseCompressed(data, *pos)
 			if err != nil {
@@ -190,6 +191,14 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("Pos is ", Pos, " num is ", num)
 			*pos += num
 
+			if Pos >= REC_MAX_N_FIELDS {
+				if err := parse.skipVirtualColumn(data, pos, &hasIndexList, firstVirtual); err != nil {
+					return err
+				}
+				firstVirtual = false
+				continue
+			}
+
 			c, err := parse.getColumnByPos(Table, Pos)
 			if err != nil {
 				return err
@@ -307,6 +316,29 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	return nil
 }
 
+// skipVirtualColumn skips the old and the new value of a virtual column which is
+// in an index. A list of the indexes is before them when the first one has a mark.
+func (parse *Parse) skipVirtualColumn(data []byte, pos *uint64, hasIndexList *bool, first bool) error {
+	if first && data[*pos] == VIRTUAL_COL_UNDO_FORMAT_1 {
+		*hasIndexList = true
+		*pos++
+	}
+	if *hasIndexList {
+		*pos += utils.MatchReadFrom2(data[*pos:])
+	}
+	for i := 0; i < 2; i++ {
+		fLen, num, err := utils.MatchParseCompressed(data, *pos)
+		if err != nil {
+			return err
+		}
+		*pos += num
+		if fLen != UNIV_SQL_NULL {
+			*pos += fLen
+		}
+	}
+	return nil
+}
+
 func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error) {
 
 	var fields []*ibdata.Fields
-- 
2.43.0


From 47c9b8bc24cc38dc1a6668de4812bba93435be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 68/69] fix: the rows of tables with GEOMETRY columns of MySQL
 5.7 were misread

---
 recovery/ibdata/parse.go | 4 ++++
 recovery/utils/const.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 074d469..551758f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -547,6 +547,10 @@ func (parse *Parse) getAllColumns() error {
 					// The padding is made of two-byte spaces and left as it is.
 					fieldType = utils.DATA_VARMYSQL
 				}
+			} else if fieldType == utils.DATA_GEOMETRY {
+				// MySQL 5.7 has a type of its own for what was a BLOB, and is stored like one.
+				fieldType = utils.DATA_BLOB
+				IsBinary = true
 			}
 
 			var TempFieldLen uint64 = 0
diff --git a/recovery/utils/const.go b/recovery/utils/const.go
index 0ac0a2b..3611018 100644
--- a/recovery/utils/const.go
+++ b/recovery/utils/const.go
@@ -63,6 +63,9 @@ const (
 	// tables created with it can also be latin1_swedish_ci
 	DATA_MYSQL
 
+	// geometry datatype of variable length
+	DATA_GEOMETRY
+
 	// dtype_store_for_order_and_null_size()
 	DATA_MTYPE_MAX
 )
-- 
2.43.0


From 1887ef6d7c89725ed7348b6ec4ee0135b1be0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:47 +0000
Subject: [PATCH 69/69] fix: compressed and encrypted tables were passed over
 in silence or misread

---
 recovery/ibdata/const.go     |  9 +++++++++
 recovery/ibdata/parse.go     | 20 +++++++++++++++++---
 recovery/ibdata/structure.go |  2 ++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index 8fa7e00..d2b1a5e 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -28,6 +28,15 @@ const FilPageIndex uint64 = 17855
 // #define FIL_PAGE_TYPE_BLOB	10	/*!< Uncompressed BLOB page */
 const FilPageTypeBlob uint64 = 10
 
+// #define FIL_PAGE_COMPRESSED	14	/*!< Compressed page */
+// #define FIL_PAGE_ENCRYPTED	15	/*!< Encrypted page */
+// #define FIL_PAGE_COMPRESSED_AND_ENCRYPTED 16
+const (
+	FilPageCompressed             uint64 = 14
+	FilPageEncrypted              uint64 = 15
+	FilPageCompressedAndEncrypted uint64 = 16
+)
+
 // The root page number of the data dictionary.
 // Use it can find the sys tables index root page.
 const (
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 551758f..522a043 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -179,11 +179,20 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		return err
 	}
 
+	// TODO: support compressed pages.
+	if table.compressed {
+		return fmt.Errorf("the row format of table %s.%s is COMPRESSED, which is not supported", dbName, tableName)
+	}
+
 	// The off-page values of the rows are in other pages of the file.
 	parse.blobPages = make(map[uint64][]byte)
+	unreadable := 0
 	for _, page := range pages {
-		if page.fh.FIL_PAGE_TYPE == FilPageTypeBlob {
+		switch page.fh.FIL_PAGE_TYPE {
+		case FilPageTypeBlob:
 			parse.blobPages[page.fh.FIL_PAGE_OFFSET] = page.OriginalData
+		case FilPageCompressed, FilPageEncrypted, FilPageCompressedAndEncrypted:
+			unreadable++
 		}
 	}
 
@@ -233,6 +242,9 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			}
 		}
 	}
+	if readErr == nil && unreadable > 0 {
+		return fmt.Errorf("%d pages are compressed or encrypted, which is not supported", unreadable)
+	}
 	return readErr
 }
 
@@ -705,7 +717,7 @@ func (parse *Parse) getAllTables() error {
 	for _, dt := range dts {
 
 		// parse sys table page.
-		allColumns := parse.parseDictTablePage(dt, columns, 0, 3, 4, 9)
+		allColumns := parse.parseDictTablePage(dt, columns, 0, 3, 4, 5, 9)
 
 		for _, columns := range allColumns {
 			// database and table name, for example: zbdba3/jingbo_test
@@ -735,7 +747,9 @@ func (parse *Parse) getAllTables() error {
 					SQLName:   sqlName,
 					NullCount: 0,
 					SpaceId:   columns[9].FieldValue.(uint64),
-					deleted:   columns[0].deleted}
+					// DICT_TF_GET_ZIP_SSIZE
+					compressed: columns[5].FieldValue.(uint64)>>1&0xF != 0,
+					deleted:    columns[0].deleted}
 		}
 	}
 	return nil
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 60cbd04..e0b0cda 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -25,6 +25,8 @@ type Tables struct {
 	NullCount int
 	SpaceId   uint64
 	deleted   bool
+	// The row format is COMPRESSED, the pages are not of the size of the others.
+	compressed bool
 	// The number of columns according to the table's own record.
 	columnNum uint64
 	// The places of the virtual columns, of which nothing is stored, in the table.
-- 
2.43.0

