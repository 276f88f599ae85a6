From e08aaf60fc8f26d6dc9f78395b66beea48d523d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 01/46] fix: ignore a csv header row whatever its column count,
 and accept an empty file

---
 pkg/input/csv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..9a2cd91 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -183,6 +183,11 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 
 	if csvInput.config.IgnoreFirstRow {
 		_, err = csvReader.Read()
+		if err == io.EOF || errors.Is(err, csv.ErrFieldCount) {
+			// The header row does not need to have the configured
+			// columns, and there is nothing to skip in an empty file
+			err = nil
+		}
 		if err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 99df3731ed2e717c4165f3349ebbcb93ef12835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 02/46] fix: report unexpected content at the end of a json
 input instead of dropping it

---
 pkg/input/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..514867f 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -128,6 +128,12 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 
 	iterator := func() (record.Record, error) {
 		if !jsonDecoder.More() {
+			// The decoder also stops on a stray closing delimiter or
+			// on a read error, which are not the end of the file
+			if _, err := jsonDecoder.Token(); err != io.EOF {
+				return nil, fmt.Errorf("Cannot read json data: unexpected content after the last object: %w", err)
+			}
+
 			return nil, nil
 		}
 
-- 
2.43.0


From 0e115d04aec77e50c3d45e9ab14b2e0309e93ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 03/46] fix: escape '-' among the ignored characters in the
 numeric route patterns

---
 pkg/parser/float.go   | 1 +
 pkg/parser/integer.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..6237580 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -30,6 +30,7 @@ func (float *Float) Primitive() bool {
 func (float *Float) GetRegexpPattern() string {
 	separator := regexp.QuoteMeta(float.config.DecimalSeparator)
 	ignore := regexp.QuoteMeta(float.config.IgnoreCharacters)
+	ignore = strings.ReplaceAll(ignore, "-", "\\-") // QuoteMeta does not escape what is only special between brackets
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
diff --git a/pkg/parser/integer.go b/pkg/parser/integer.go
index b202783..1a22409 100644
--- a/pkg/parser/integer.go
+++ b/pkg/parser/integer.go
@@ -4,6 +4,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/util"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type Integer struct {
@@ -28,6 +29,7 @@ func (integer *Integer) Primitive() bool {
 
 func (integer *Integer) GetRegexpPattern() string {
 	ignore := regexp.QuoteMeta(integer.config.IgnoreCharacters)
+	ignore = strings.ReplaceAll(ignore, "-", "\\-") // QuoteMeta does not escape what is only special between brackets
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
-- 
2.43.0


From a0eeb943b07450ce892324674e4856c3606cf167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 04/46] fix: a negative array index in a path is a missing
 value, not a panic

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..c9021ba 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -225,7 +225,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From 9dc0a4639bc971cbade0090a467d164af23767ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 05/46] fix: index each value of an array in the map index, and
 refuse non-primitive filters

---
 pkg/index/map.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..3e7d3ce 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -101,11 +101,18 @@ func (mapIndex *Map) addValueToIndex(
 	position record.Position,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
-		for _, valueArrayValue := range valueArray {
+		for valueArrayIndex, valueArrayValue := range valueArray {
+			if isValueInArray(valueArray[:valueArrayIndex], valueArrayValue) {
+				// This record must only be found once for this value
+				continue
+			}
+
 			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
@@ -123,6 +130,16 @@ func (mapIndex *Map) addValueToIndex(
 	return nil
 }
 
+func isValueInArray(array []interface{}, value interface{}) bool {
+	for _, arrayValue := range array {
+		if reflect.DeepEqual(arrayValue, value) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (mapIndex *Map) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
@@ -141,6 +158,11 @@ func (mapIndex *Map) GetRecordPositions(
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
 
+		switch filter.(type) {
+		case []interface{}, map[string]interface{}:
+			return nil, fmt.Errorf("Cannot filter the value '%v' from property '%v' because it is not a primitive.", filter, propertyName)
+		}
+
 		indexedValues, foundIndexedValues := mapIndex.index[propertyName]
 		if !foundIndexedValues {
 			return record.EmptyIterator, nil
-- 
2.43.0


From 32d5e577128a2b34c9c4d21127d036315fe1dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 06/46] fix: index each value of an array in the wildcard index

---
 pkg/index/wildcard.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..035575f 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From c7421e8a8eded854b6f2bb96129d7d029c016886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 07/46] fix: write the wildcard index data before marking the
 index as completed

---
 pkg/index/wildcard.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 035575f..f49de47 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,11 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The data must be in the file before the flag that makes it usable
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
-- 
2.43.0


From 233cf58998dc8d7e301d9aa449f34909c1bb1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 08/46] fix: do not panic when the noop index compares arrays
 or objects

---
 pkg/index/noop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..89cd11d 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -70,7 +70,7 @@ func (noop *Noop) GetRecordPositions(
 				}
 
 				value = reflect.ValueOf(value).Interface()
-				if value != filter {
+				if !reflect.DeepEqual(value, filter) {
 					matches = false
 					break
 				}
-- 
2.43.0


From 6853aefa5ae7651cc64e6f7c9a70b4025d55388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 09/46] fix: release the sqlite connection after each query and
 report the errors met while reading the rows

---
 pkg/index/fts5.go   | 27 +++++++++++++++------------
 pkg/index/sqlite.go | 27 +++++++++++++++------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..b625f3d 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -244,20 +244,23 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// Reading everything right away: the connection must be released
+	// even when the caller does not iterate up to the end
+	defer rows.Close()
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var positionValue int64
+		if err := rows.Scan(&positionValue); err != nil {
+			return nil, err
 		}
 
-		return nil, nil
-	}, nil
+		positions = append(positions, record.Position(positionValue))
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..96677b5 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -254,20 +254,23 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// Reading everything right away: the connection must be released
+	// even when the caller does not iterate up to the end
+	defer rows.Close()
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var positionValue int64
+		if err := rows.Scan(&positionValue); err != nil {
+			return nil, err
 		}
 
-		return nil, nil
-	}, nil
+		positions = append(positions, record.Position(positionValue))
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Sqlite) Close() error {
-- 
2.43.0


From 20e557e7e32db27fd50f153a6998915f2b37ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 10/46] fix: use a single sqlite connection, because each one
 has its own in-memory database

---
 pkg/index/sqlite/open.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..6839104 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -13,6 +13,10 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// Each connection has its own pragmas, and its own (empty) database when
+	// it is in memory: everything must go through a single one
+	db.SetMaxOpenConns(1)
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 92df3713cf1ffeb52f7e7284917f13304279da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 11/46] fix: accept the documented rtrim collation

---
 pkg/index/sqlite_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..1990465 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From 4d1d0efa0cb816242c7352905bcef928c51c68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 12/46] fix: a null filter on the sqlite index matches the null
 values, like the other indexes

---
 pkg/index/sqlite.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 96677b5..79b65f6 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -241,6 +241,11 @@ func (sqlite *Sqlite) GetRecordPositions(
 			return nil, err
 		}
 
+		if filter == nil {
+			clauses = append(clauses, columnIdentifier+" IS NULL")
+			continue
+		}
+
 		clauses = append(clauses, columnIdentifier+" = ?")
 		values = append(values, filter)
 	}
-- 
2.43.0


From 4b8a992bdc6c594939fa6b327c53adf9ec17d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 13/46] fix: do not capture groups inside the parser patterns,
 because they shift the route parameters

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 6237580..950d643 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -35,7 +35,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
-- 
2.43.0


From 01371203578adb834e7c2a108b656076dd53c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 14/46] fix: match the literal parts of a route path literally

---
 pkg/service/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From ff2f3b301ea0d4785d1e4afd4f258360f86e90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 15/46] fix: send an error rather than an empty successful
 response when the data cannot be encoded

---
 pkg/output/json_array.go  | 10 +++++++++-
 pkg/output/json_object.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..6a2b660 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -132,7 +133,14 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	// Encoding before sending anything: it's too late to send an error afterwards
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(rowsData); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..782c8bc 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -115,7 +116,14 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	// Encoding before sending anything: it's too late to send an error afterwards
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From b6ddda088d1157acf0591ae647af10bc003492d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 16/46] fix: wait for the requests being handled before
 considering an http service as stopped

---
 pkg/service/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index a884e18..f57b19a 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -86,6 +86,11 @@ func NewHttp(
 		go func() {
 			defer service.waitGroup.Done()
 			service.lastHttpError = service.httpServer.Serve(service.httpListener)
+			if service.lastHttpError == http.ErrServerClosed {
+				// Serve returns as soon as the shutdown begins, so
+				// we still have to wait for the requests being handled
+				_ = service.httpServer.Shutdown(context.Background())
+			}
 		}()
 	}
 	if config.Https != nil {
@@ -102,6 +107,9 @@ func NewHttp(
 				config.Https.CertificatePath,
 				config.Https.PrivateKeyPath,
 			)
+			if service.lastHttpsError == http.ErrServerClosed {
+				_ = service.httpsServer.Shutdown(context.Background())
+			}
 		}()
 	}
 
-- 
2.43.0


From 6d32ead76131ffd107c19af4a203201f2de4b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 17/46] fix: do not panic when loading a wildcard index from a
 file that is not one

---
 pkg/index/wildcard/metadata.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..4fd2766 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -156,11 +156,14 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+	// Not trusting this value to allocate memory, because the file may be anything
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var rootNodeOffset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &rootNodeOffset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, rootNodeOffset)
 	}
 
 	return nil
-- 
2.43.0


From 57b91333bb2d2613119381eea5b29fafd6f88ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 18/46] fix: report an error when filtering a persisted sqlite
 index on a property it does not have

---
 pkg/index/sqlite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 79b65f6..636e87b 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -241,6 +241,10 @@ func (sqlite *Sqlite) GetRecordPositions(
 			return nil, err
 		}
 
+		// Sqlite considers an identifier as a string when this column does not
+		// exist (the index has other properties), unless it comes with a table name
+		columnIdentifier = tableIdentifier + "." + columnIdentifier
+
 		if filter == nil {
 			clauses = append(clauses, columnIdentifier+" IS NULL")
 			continue
-- 
2.43.0


From 6e9e5f3ca66d8622516edb58db5a4290aa177565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 19/46] fix: give distinct names to the sqlite indexes of two
 rodb indexes sharing a database

---
 pkg/index/sqlite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 636e87b..45892a5 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -204,7 +204,7 @@ func (sqlite *Sqlite) getPropertyIdentifier(propertyName string) (string, error)
 func (sqlite *Sqlite) getIndexIdentifier(propertyName string) (string, error) {
 	return sqlitePackage.SanitizeIdentifier(
 		sqlite.db,
-		fmt.Sprintf("index_%v_%v", sqlite.config.Name, propertyName),
+		fmt.Sprintf("index_%q_%q", sqlite.config.Name, propertyName),
 	)
 }
 
-- 
2.43.0


From 5b8ef014a1736beee0200b60efe89c1fad69234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 20/46] fix: compare with the configured collation when the
 persisted sqlite index was created with another one

---
 pkg/index/sqlite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 45892a5..c21c8dd 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -231,6 +231,10 @@ func (sqlite *Sqlite) GetRecordPositions(
 
 	clauses := make([]string, 0, len(filters))
 	values := make([]interface{}, 0, len(filters))
+	collates := make(map[string]string, len(sqlite.config.Properties))
+	for _, property := range sqlite.config.Properties {
+		collates[property.Name] = property.Collate
+	}
 	for propertyName, filter := range filters {
 		if !sqlite.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
@@ -250,7 +254,8 @@ func (sqlite *Sqlite) GetRecordPositions(
 			continue
 		}
 
-		clauses = append(clauses, columnIdentifier+" = ?")
+		// The persisted column may have been created with another collation
+		clauses = append(clauses, columnIdentifier+" = ? COLLATE "+collates[propertyName])
 		values = append(values, filter)
 	}
 
-- 
2.43.0


From 5acb13ef308a7f5f32b69a938ddcf22677e79535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 21/46] fix: close the sqlite database when the index is
 refused

---
 pkg/index/fts5.go        | 19 ++++++++++++++-----
 pkg/index/sqlite.go      | 19 ++++++++++++++-----
 pkg/index/sqlite/open.go |  2 ++
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index b625f3d..af24663 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -42,26 +42,35 @@ func NewFts5(
 		db:     db,
 	}
 
+	if err := sqlite.loadOrCreateIndex(); err != nil {
+		db.Close()
+		return nil, err
+	}
+
+	return sqlite, nil
+}
+
+func (sqlite *Fts5) loadOrCreateIndex() error {
 	metadataExists, err := sqlitePackage.HasMetadata(sqlite.db, sqlite.config.Name)
 	if err != nil {
-		return nil, fmt.Errorf("Error while checking metadata from the index: %w", err)
+		return fmt.Errorf("Error while checking metadata from the index: %w", err)
 	}
 	if metadataExists {
 		metadata, err := sqlitePackage.LoadMetadata(sqlite.db, sqlite.config.Name)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		if err := metadata.AssertValid(sqlite.input); err != nil {
-			return nil, err
+			return err
 		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
-			return nil, fmt.Errorf("Error while creating the index: %w", err)
+			return fmt.Errorf("Error while creating the index: %w", err)
 		}
 	}
 
-	return sqlite, nil
+	return nil
 }
 
 func (sqlite *Fts5) Name() string {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index c21c8dd..f79ea23 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -40,26 +40,35 @@ func NewSqlite(
 		db:     db,
 	}
 
+	if err := sqlite.loadOrCreateIndex(); err != nil {
+		db.Close()
+		return nil, err
+	}
+
+	return sqlite, nil
+}
+
+func (sqlite *Sqlite) loadOrCreateIndex() error {
 	metadataExists, err := sqlitePackage.HasMetadata(sqlite.db, sqlite.config.Name)
 	if err != nil {
-		return nil, fmt.Errorf("Error while checking metadata from the index: %w", err)
+		return fmt.Errorf("Error while checking metadata from the index: %w", err)
 	}
 	if metadataExists {
 		metadata, err := sqlitePackage.LoadMetadata(sqlite.db, sqlite.config.Name)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		if err := metadata.AssertValid(sqlite.input); err != nil {
-			return nil, err
+			return err
 		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
-			return nil, fmt.Errorf("Error while creating the index: %w", err)
+			return fmt.Errorf("Error while creating the index: %w", err)
 		}
 	}
 
-	return sqlite, nil
+	return nil
 }
 
 func (sqlite *Sqlite) Name() string {
diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 6839104..e590fdb 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -18,9 +18,11 @@ func Open(dsn string) (*sql.DB, error) {
 	db.SetMaxOpenConns(1)
 
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
+		db.Close()
 		return nil, err
 	}
 	if _, err = db.Exec(`PRAGMA journal_mode = OFF;`); err != nil {
+		db.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 018ab07c87d18e34740d76319323b47d388baab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 22/46] fix: match the route parameters containing a line feed

---
 pkg/parser/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..85f1e76 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -41,7 +41,7 @@ func (str *String) Primitive() bool {
 }
 
 func (str *String) GetRegexpPattern() string {
-	return ".+"
+	return "(?s:.+)" // Including line feeds
 }
 
 func (str *String) Parse(value string) (interface{}, error) {
-- 
2.43.0


From f5df1f8d92a2d00664de397de7054df2a08e6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 23/46] fix: sort the null values and the mixed types
 consistently

---
 pkg/input/record/sort.go | 55 ++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/pkg/input/record/sort.go b/pkg/input/record/sort.go
index 4ff1408..282311d 100644
--- a/pkg/input/record/sort.go
+++ b/pkg/input/record/sort.go
@@ -34,26 +34,65 @@ func (sorter *recordListSorter) Less(i int, j int) bool {
 			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
 		}
 
-		result, err := parser.Compare(iValue, jValue)
-		if err != nil {
-			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
-		}
-
-		if result == nil {
+		isLess := false
+		if iRank, jRank := sortRank(iValue), sortRank(jValue); iRank != jRank {
+			// Null or mixed types: considering them as equal would not be consistent
+			isLess = iRank < jRank
+		} else if iRank == sortRankNull || iRank == sortRankOther {
 			// Equal for this criteria: go to the next one
 			continue
+		} else {
+			result, err := parser.Compare(iValue, jValue)
+			if err != nil {
+				sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
+			}
+
+			if result == nil {
+				// Equal for this criteria: go to the next one
+				continue
+			}
+			isLess = *result
 		}
 
 		if sort.IsAscending() {
-			return *result
+			return isLess
 		} else {
-			return !*result
+			return !isLess
 		}
 	}
 
 	// If we end-up here, both are equal
 	return false
 }
+
+const (
+	sortRankNull = iota
+	sortRankBoolean
+	sortRankInteger
+	sortRankFloat
+	sortRankString
+	sortRankOther
+)
+
+// The values of different types cannot be compared,
+// so they are grouped by type, starting with the nulls
+func sortRank(value interface{}) int {
+	switch value.(type) {
+	case nil:
+		return sortRankNull
+	case bool:
+		return sortRankBoolean
+	case int64:
+		return sortRankInteger
+	case float64:
+		return sortRankFloat
+	case string:
+		return sortRankString
+	default:
+		return sortRankOther
+	}
+}
+
 func (sorter *recordListSorter) Swap(i int, j int) {
 	iRecord, jRecord := sorter.records[i], sorter.records[j]
 	sorter.records[i], sorter.records[j] = jRecord, iRecord
-- 
2.43.0


From 95620bac0f1b801dd2ca3cdc27c83a283177d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 24/46] fix: report the errors met while sorting instead of
 answering in the wrong order

---
 pkg/input/record/sort.go  | 22 ++++++++++++++++++----
 pkg/output/json_common.go |  5 ++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/input/record/sort.go b/pkg/input/record/sort.go
index 282311d..1173dee 100644
--- a/pkg/input/record/sort.go
+++ b/pkg/input/record/sort.go
@@ -1,20 +1,28 @@
 package record
 
 import (
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"sort"
 )
 
 func (records List) Sort(config []*SortConfig) List {
-	sorter := &recordListSorter{records, config}
+	sorted, _ := records.TrySort(config)
+	return sorted
+}
+
+// Same as Sort, but also returns the first error met while reading the values
+func (records List) TrySort(config []*SortConfig) (List, error) {
+	sorter := &recordListSorter{records: records, config: config}
 	sort.Sort(sorter)
-	return sorter.records
+	return sorter.records, sorter.err
 }
 
 // Implementing sort.Interface
 type recordListSorter struct {
 	records List
 	config  []*SortConfig
+	err     error
 }
 
 func (sorter *recordListSorter) Len() int {
@@ -26,12 +34,12 @@ func (sorter *recordListSorter) Less(i int, j int) bool {
 	for _, sort := range sorter.config {
 		iValue, err := iRecord.Get(sort.Property)
 		if err != nil {
-			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
+			sorter.addError(sort, err)
 		}
 
 		jValue, err := jRecord.Get(sort.Property)
 		if err != nil {
-			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
+			sorter.addError(sort, err)
 		}
 
 		isLess := false
@@ -93,6 +101,12 @@ func sortRank(value interface{}) int {
 	}
 }
 
+func (sorter *recordListSorter) addError(sort *SortConfig, err error) {
+	if sorter.err == nil {
+		sorter.err = fmt.Errorf("Error while sorting on the property '%v': %w", sort.Property, err)
+	}
+}
+
 func (sorter *recordListSorter) Swap(i int, j int) {
 	iRecord, jRecord := sorter.records[i], sorter.records[j]
 	sorter.records[i], sorter.records[j] = jRecord, iRecord
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..592ae75 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -147,7 +147,10 @@ func loadRelationships(
 		}
 
 		if len(relationshipConfig.Sort) > 0 {
-			relationshipRecords = relationshipRecords.Sort(relationshipConfig.Sort)
+			relationshipRecords, err = relationshipRecords.TrySort(relationshipConfig.Sort)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		count := 0
-- 
2.43.0


From fcd766e0a664fdd071f77186c31352d238df6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 25/46] fix: close the wildcard index file when the index is
 closed or refused

---
 pkg/index/wildcard.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index f49de47..7272554 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -14,6 +14,7 @@ import (
 type Wildcard struct {
 	config *WildcardConfig
 	input  input.Input
+	file   *os.File
 	index  map[string]*wildcardPackage.TreeNode
 }
 
@@ -34,12 +35,14 @@ func NewWildcard(
 	_, err := os.Stat(wildcard.config.Path)
 	if os.IsNotExist(err) {
 		if err := wildcard.createIndex(); err != nil {
+			wildcard.closeFile()
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
 		}
 	} else if err != nil {
 		return nil, err
 	} else {
 		if err := wildcard.loadIndex(); err != nil {
+			wildcard.closeFile()
 			return nil, fmt.Errorf("Error while loading the index: %w", err)
 		}
 	}
@@ -57,6 +60,8 @@ func (wildcard *Wildcard) createIndex() error {
 		return err
 	}
 
+	wildcard.file = indexFile
+
 	indexStream := wildcardPackage.NewStream(indexFile, 0)
 
 	metadata, err := wildcardPackage.NewMetadata(indexStream, wildcardPackage.MetadataInput{
@@ -156,6 +161,8 @@ func (wildcard *Wildcard) loadIndex() error {
 		return err
 	}
 
+	wildcard.file = indexFile
+
 	indexFileStat, err := indexFile.Stat()
 	if err != nil {
 		return err
@@ -273,5 +280,13 @@ func (wildcard *Wildcard) GetRecordPositions(
 }
 
 func (wildcard *Wildcard) Close() error {
-	return nil
+	return wildcard.closeFile()
+}
+
+func (wildcard *Wildcard) closeFile() error {
+	if wildcard.file == nil {
+		return nil
+	}
+
+	return wildcard.file.Close()
 }
-- 
2.43.0


From 164a5e970617f09307aec088c018720584aee944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 26/46] fix: end the error log goroutine of an http service
 when it is closed

---
 pkg/service/http.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index f57b19a..4906413 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -25,6 +25,7 @@ type Http struct {
 	httpsListener  net.Listener
 	httpServer     *http.Server
 	httpsServer    *http.Server
+	errorLogs      []io.Closer
 	waitGroup      *sync.WaitGroup
 	routes         []*httpRoute
 	lastHttpError  error
@@ -122,8 +123,11 @@ func (service *Http) createServer(listen string) (net.Listener, *http.Server, er
 		return nil, nil, err
 	}
 
+	errorLog := service.config.Logger.WriterLevel(logrus.ErrorLevel)
+	service.errorLogs = append(service.errorLogs, errorLog)
+
 	server := &http.Server{
-		ErrorLog: goLog.New(service.config.Logger.WriterLevel(logrus.ErrorLevel), "", 0),
+		ErrorLog: goLog.New(errorLog, "", 0),
 		Handler:  service.getHandlerFunc(),
 	}
 
@@ -331,5 +335,12 @@ func (service *Http) Close() error {
 		}
 	}
 
+	// The writers given by the logger run a goroutine until they are closed
+	defer func() {
+		for _, errorLog := range service.errorLogs {
+			_ = errorLog.Close()
+		}
+	}()
+
 	return service.Wait()
 }
-- 
2.43.0


From 0117129a12c00c088c8b09075323ab22bb9cd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 27/46] fix: do not share the state of a charset decoder
 between concurrent requests

---
 pkg/parser/string.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 85f1e76..41f2eb2 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -9,26 +9,25 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var encoding encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		encoding, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-
-		decoder = encoding.NewDecoder()
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: encoding,
 	}, nil
 }
 
@@ -46,7 +45,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// A decoder has a state, so it cannot be shared between the requests
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b0488d467ce4fc3a130dcb54d132a2a8a39ff69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 28/46] fix: do not evaluate a compiled xpath expression
 concurrently

---
 pkg/input/xml_config.go |  4 ++++
 pkg/input/xml_record.go | 21 +++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..5c49571 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -7,6 +7,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +36,9 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+
+	// Evaluating a compiled expression changes its internal state
+	evaluationLock sync.Mutex
 }
 
 func (config *XmlConfig) GetName() string {
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index c9021ba..6dccceb 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -86,6 +86,19 @@ func (record *XmlRecord) nodeIteratorToObject(
 	return values, nil
 }
 
+// The compiled expressions are shared between all the records of the input
+func (record *XmlRecord) evaluate(
+	node *xmlquery.Node,
+	currentConfig *XmlPropertyConfig,
+) interface{} {
+	currentConfig.evaluationLock.Lock()
+	defer currentConfig.evaluationLock.Unlock()
+
+	return currentConfig.CompiledXPath.Evaluate(
+		xmlquery.CreateXPathNavigator(node),
+	)
+}
+
 func (record *XmlRecord) getAllValues(
 	node *xmlquery.Node,
 	currentConfig *XmlPropertyConfig,
@@ -98,9 +111,7 @@ func (record *XmlRecord) getAllValues(
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := record.evaluate(node, currentConfig)
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -275,9 +286,7 @@ func (record *XmlRecord) getSubValue(
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := record.evaluate(node, currentConfig)
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From ad3ab8513ab789b3576c3f9800e440579b4deee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 29/46] fix: handle the interruptions from the creation of the
 services

---
 cmd/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 97af3f1..9ff8517 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -93,6 +93,11 @@ func main() {
 		}
 	})()
 
+	// The services answer requests as soon as they are created, so
+	// an interruption must not end the process abruptly from now on
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, os.Kill)
+
 	services, err := service.NewFromConfigs(config.Services, outputs, log)
 	if err != nil {
 		log.Errorf("Error initializing services: %v", err)
@@ -100,8 +105,6 @@ func main() {
 		return
 	}
 	go (func() {
-		signals := make(chan os.Signal, 1)
-		signal.Notify(signals, os.Interrupt, os.Kill)
 		signal := <-signals
 		log.Printf("Received signal '%v'. Shutting down...", signal.String())
 
-- 
2.43.0


From 9438507c2d72484531caf590a39fe21c08b39757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 30/46] fix: refuse the empty items of a configuration instead
 of panicking

---
 pkg/config/config.go              | 16 ++++++++++++++++
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 50 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..0fe590d 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -1,6 +1,7 @@
 package config
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -66,6 +67,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 	}
 
 	for _, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, errors.New("An empty item was found in the parsers list.")
+		}
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
@@ -73,6 +77,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Parsers[name] = parser.parser
 	}
 	for _, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, errors.New("An empty item was found in the inputs list.")
+		}
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
@@ -80,6 +87,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Inputs[name] = input.input
 	}
 	for _, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, errors.New("An empty item was found in the indexes list.")
+		}
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
@@ -87,6 +97,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Indexes[name] = index.index
 	}
 	for _, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, errors.New("An empty item was found in the services list.")
+		}
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
@@ -94,6 +107,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Services[name] = service.service
 	}
 	for _, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, errors.New("An empty item was found in the outputs list.")
+		}
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 1990465..1489937 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("the property is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..79f3f88 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -98,6 +98,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("the column is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..0049584 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the sort is empty")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 5c49571..7309937 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -101,6 +101,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the property is empty")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..2a71927 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("the parameter is empty")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..9e16575 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the relationship is empty")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("the match is empty")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..917dd73 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -128,6 +128,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("the route is empty")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From 2fdd3ffcbd05fed145b256509bc1bd0d38c1aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 31/46] fix: refuse a path that cannot be accessed instead of
 panicking

---
 pkg/input/csv_config.go    | 3 +++
 pkg/input/json_config.go   | 4 ++++
 pkg/input/xml_config.go    | 3 +++
 pkg/service/http_config.go | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 79f3f88..4d97bba 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -68,6 +68,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot access the csv file: %w", err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..32448a2 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -40,6 +41,9 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot access the json file: %w", err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 7309937..cc81a58 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -75,6 +75,9 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot access the xml file: %w", err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 917dd73..42c5417 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -109,6 +109,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("certificatePath: Cannot access the file: %w", err)
+	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
 	}
@@ -120,6 +123,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("privateKeyFile: Cannot access the file: %w", err)
+	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
-- 
2.43.0


From 28912b2d3d9e65e2484a0ad60d525ad8201258ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 32/46] fix: refuse the settings named after internal fields

---
 pkg/index/fts5_config.go         | 16 ++++++++--------
 pkg/index/map_config.go          | 10 +++++-----
 pkg/index/noop_config.go         |  6 +++---
 pkg/index/sqlite_config.go       |  2 +-
 pkg/index/wildcard_config.go     | 14 +++++++-------
 pkg/input/csv_config.go          |  4 ++--
 pkg/input/json_config.go         | 10 +++++-----
 pkg/input/record/sort_config.go  |  6 +++---
 pkg/input/xml_config.go          |  4 ++--
 pkg/output/graphql_config.go     |  6 +++---
 pkg/output/json_array_config.go  |  2 +-
 pkg/output/json_object_config.go |  2 +-
 pkg/parser/boolean_config.go     | 10 +++++-----
 pkg/parser/float_config.go       | 10 +++++-----
 pkg/parser/integer_config.go     |  8 ++++----
 pkg/parser/json_config.go        |  6 +++---
 pkg/parser/split_config.go       | 14 +++++++-------
 pkg/parser/string_config.go      |  8 ++++----
 pkg/service/http_config.go       |  2 +-
 19 files changed, 70 insertions(+), 70 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..ff8bd77 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -10,14 +10,14 @@ import (
 var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
 
 type Fts5Config struct {
-	Name       string   `yaml:"name"`
-	Type       string   `yaml:"type"`
-	Dsn        string   `yaml:"dsn"`
-	Input      string   `yaml:"input"`
-	Prefix     []int    `yaml:"prefix"`
-	Tokenize   string   `yaml:"tokenize"`
-	Properties []string `yaml:"properties"`
-	Logger     *logrus.Entry
+	Name       string        `yaml:"name"`
+	Type       string        `yaml:"type"`
+	Dsn        string        `yaml:"dsn"`
+	Input      string        `yaml:"input"`
+	Prefix     []int         `yaml:"prefix"`
+	Tokenize   string        `yaml:"tokenize"`
+	Properties []string      `yaml:"properties"`
+	Logger     *logrus.Entry `yaml:"-"`
 }
 
 func (config *Fts5Config) Validate(inputs map[string]input.Config, log *logrus.Entry) error {
diff --git a/pkg/index/map_config.go b/pkg/index/map_config.go
index 14a4063..27c7cc1 100644
--- a/pkg/index/map_config.go
+++ b/pkg/index/map_config.go
@@ -8,11 +8,11 @@ import (
 )
 
 type MapConfig struct {
-	Name       string   `yaml:"name"`
-	Type       string   `yaml:"type"`
-	Input      string   `yaml:"input"`
-	Properties []string `yaml:"properties"`
-	Logger     *logrus.Entry
+	Name       string        `yaml:"name"`
+	Type       string        `yaml:"type"`
+	Input      string        `yaml:"input"`
+	Properties []string      `yaml:"properties"`
+	Logger     *logrus.Entry `yaml:"-"`
 }
 
 func (config *MapConfig) Validate(inputs map[string]input.Config, log *logrus.Entry) error {
diff --git a/pkg/index/noop_config.go b/pkg/index/noop_config.go
index c2af024..9509ac6 100644
--- a/pkg/index/noop_config.go
+++ b/pkg/index/noop_config.go
@@ -7,9 +7,9 @@ import (
 )
 
 type NoopConfig struct {
-	Name   string `yaml:"name"`
-	Type   string `yaml:"type"`
-	Logger *logrus.Entry
+	Name   string        `yaml:"name"`
+	Type   string        `yaml:"type"`
+	Logger *logrus.Entry `yaml:"-"`
 }
 
 func (config *NoopConfig) Validate(inputs map[string]input.Config, log *logrus.Entry) error {
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 1489937..e7cdb63 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -17,7 +17,7 @@ type SqliteConfig struct {
 	Dsn        string                  `yaml:"dsn"`
 	Input      string                  `yaml:"input"`
 	Properties []*SqlitePropertyConfig `yaml:"properties"`
-	Logger     *logrus.Entry
+	Logger     *logrus.Entry           `yaml:"-"`
 }
 
 type SqlitePropertyConfig struct {
diff --git a/pkg/index/wildcard_config.go b/pkg/index/wildcard_config.go
index d8cba6d..b6e4a67 100644
--- a/pkg/index/wildcard_config.go
+++ b/pkg/index/wildcard_config.go
@@ -9,13 +9,13 @@ import (
 )
 
 type WildcardConfig struct {
-	Name       string   `yaml:"name"`
-	Type       string   `yaml:"type"`
-	Path       string   `yaml:"path"`
-	Input      string   `yaml:"input"`
-	Properties []string `yaml:"properties"`
-	IgnoreCase *bool    `yaml:"ignoreCase"`
-	Logger     *logrus.Entry
+	Name       string        `yaml:"name"`
+	Type       string        `yaml:"type"`
+	Path       string        `yaml:"path"`
+	Input      string        `yaml:"input"`
+	Properties []string      `yaml:"properties"`
+	IgnoreCase *bool         `yaml:"ignoreCase"`
+	Logger     *logrus.Entry `yaml:"-"`
 }
 
 func (config *WildcardConfig) ShouldIgnoreCase() bool {
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 4d97bba..763200e 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -17,8 +17,8 @@ type CsvConfig struct {
 	AutodetectColumns bool               `yaml:"autodetectColumns"`
 	Delimiter         string             `yaml:"delimiter"`
 	Columns           []*CsvColumnConfig `yaml:"columns"`
-	ColumnIndexByName map[string]int
-	Logger            *logrus.Entry
+	ColumnIndexByName map[string]int     `yaml:"-"`
+	Logger            *logrus.Entry      `yaml:"-"`
 }
 
 type CsvColumnConfig struct {
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 32448a2..f570a9d 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -9,11 +9,11 @@ import (
 )
 
 type JsonConfig struct {
-	Name             string `yaml:"name"`
-	Type             string `yaml:"type"`
-	Path             string `yaml:"path"`
-	DieOnInputChange *bool  `yaml:"dieOnInputChange"`
-	Logger           *logrus.Entry
+	Name             string        `yaml:"name"`
+	Type             string        `yaml:"type"`
+	Path             string        `yaml:"path"`
+	DieOnInputChange *bool         `yaml:"dieOnInputChange"`
+	Logger           *logrus.Entry `yaml:"-"`
 }
 
 func (config *JsonConfig) GetName() string {
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 0049584..1f0d65c 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -6,9 +6,9 @@ import (
 )
 
 type SortConfig struct {
-	Logger    *logrus.Entry
-	Property  string `yaml:"property"`
-	Ascending *bool  `yaml:"ascending"`
+	Logger    *logrus.Entry `yaml:"-"`
+	Property  string        `yaml:"property"`
+	Ascending *bool         `yaml:"ascending"`
 }
 
 func (config *SortConfig) IsAscending() bool {
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index cc81a58..e5c3e84 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -25,7 +25,7 @@ type XmlConfig struct {
 	DieOnInputChange *bool                `yaml:"dieOnInputChange"`
 	Properties       []*XmlPropertyConfig `yaml:"properties"`
 	RecordXPath      string               `yaml:"recordXpath"`
-	Logger           *logrus.Entry
+	Logger           *logrus.Entry        `yaml:"-"`
 }
 
 type XmlPropertyConfig struct {
@@ -35,7 +35,7 @@ type XmlPropertyConfig struct {
 	XPath         string               `yaml:"xpath"`
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
-	CompiledXPath *xpath.Expr
+	CompiledXPath *xpath.Expr          `yaml:"-"`
 
 	// Evaluating a compiled expression changes its internal state
 	evaluationLock sync.Mutex
diff --git a/pkg/output/graphql_config.go b/pkg/output/graphql_config.go
index bc744e1..6ac62f9 100644
--- a/pkg/output/graphql_config.go
+++ b/pkg/output/graphql_config.go
@@ -9,9 +9,9 @@ import (
 )
 
 type GraphQLConfig struct {
-	Name   string `yaml:"name"`
-	Type   string `yaml:"type"`
-	Logger *logrus.Entry
+	Name   string        `yaml:"name"`
+	Type   string        `yaml:"type"`
+	Logger *logrus.Entry `yaml:"-"`
 }
 
 func (config *GraphQLConfig) GetName() string {
diff --git a/pkg/output/json_array_config.go b/pkg/output/json_array_config.go
index a9c0e24..9c36fe1 100644
--- a/pkg/output/json_array_config.go
+++ b/pkg/output/json_array_config.go
@@ -19,7 +19,7 @@ type JsonArrayConfig struct {
 	Offset        JsonArrayOffsetConfig                              `yaml:"offset"`
 	Parameters    map[string]*parameterPackage.ParameterConfig       `yaml:"parameters"`
 	Relationships map[string]*relationshipPackage.RelationshipConfig `yaml:"relationships"`
-	Logger        *logrus.Entry
+	Logger        *logrus.Entry                                      `yaml:"-"`
 }
 
 type JsonArrayLimitConfig struct {
diff --git a/pkg/output/json_object_config.go b/pkg/output/json_object_config.go
index c648c7d..f0ee2e2 100644
--- a/pkg/output/json_object_config.go
+++ b/pkg/output/json_object_config.go
@@ -17,7 +17,7 @@ type JsonObjectConfig struct {
 	Input         string                                             `yaml:"input"`
 	Parameters    map[string]*parameterPackage.ParameterConfig       `yaml:"parameters"`
 	Relationships map[string]*relationshipPackage.RelationshipConfig `yaml:"relationships"`
-	Logger        *logrus.Entry
+	Logger        *logrus.Entry                                      `yaml:"-"`
 }
 
 func (config *JsonObjectConfig) GetName() string {
diff --git a/pkg/parser/boolean_config.go b/pkg/parser/boolean_config.go
index 72f5240..00f9e27 100644
--- a/pkg/parser/boolean_config.go
+++ b/pkg/parser/boolean_config.go
@@ -6,11 +6,11 @@ import (
 )
 
 type BooleanConfig struct {
-	Name        string   `yaml:"name"`
-	Type        string   `yaml:"type"`
-	TrueValues  []string `yaml:"trueValues"`
-	FalseValues []string `yaml:"falseValues"`
-	Logger      *logrus.Entry
+	Name        string        `yaml:"name"`
+	Type        string        `yaml:"type"`
+	TrueValues  []string      `yaml:"trueValues"`
+	FalseValues []string      `yaml:"falseValues"`
+	Logger      *logrus.Entry `yaml:"-"`
 }
 
 func (config *BooleanConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/float_config.go b/pkg/parser/float_config.go
index e92dca3..71f0e03 100644
--- a/pkg/parser/float_config.go
+++ b/pkg/parser/float_config.go
@@ -6,11 +6,11 @@ import (
 )
 
 type FloatConfig struct {
-	Name             string `yaml:"name"`
-	Type             string `yaml:"type"`
-	DecimalSeparator string `yaml:"decimalSeparator"`
-	IgnoreCharacters string `yaml:"ignoreCharacters"`
-	Logger           *logrus.Entry
+	Name             string        `yaml:"name"`
+	Type             string        `yaml:"type"`
+	DecimalSeparator string        `yaml:"decimalSeparator"`
+	IgnoreCharacters string        `yaml:"ignoreCharacters"`
+	Logger           *logrus.Entry `yaml:"-"`
 }
 
 func (config *FloatConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/integer_config.go b/pkg/parser/integer_config.go
index 3e003b7..d9613cc 100644
--- a/pkg/parser/integer_config.go
+++ b/pkg/parser/integer_config.go
@@ -6,10 +6,10 @@ import (
 )
 
 type IntegerConfig struct {
-	Name             string `yaml:"name"`
-	Type             string `yaml:"type"`
-	IgnoreCharacters string `yaml:"ignoreCharacters"`
-	Logger           *logrus.Entry
+	Name             string        `yaml:"name"`
+	Type             string        `yaml:"type"`
+	IgnoreCharacters string        `yaml:"ignoreCharacters"`
+	Logger           *logrus.Entry `yaml:"-"`
 }
 
 func (config *IntegerConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/json_config.go b/pkg/parser/json_config.go
index cd45846..4ae9e92 100644
--- a/pkg/parser/json_config.go
+++ b/pkg/parser/json_config.go
@@ -6,9 +6,9 @@ import (
 )
 
 type JsonConfig struct {
-	Name   string `yaml:"name"`
-	Type   string `yaml:"type"`
-	Logger *logrus.Entry
+	Name   string        `yaml:"name"`
+	Type   string        `yaml:"type"`
+	Logger *logrus.Entry `yaml:"-"`
 }
 
 func (config *JsonConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..dbf99f1 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -8,13 +8,13 @@ import (
 )
 
 type SplitConfig struct {
-	Name              string  `yaml:"name"`
-	Type              string  `yaml:"type"`
-	Delimiter         *string `yaml:"delimiter"`
-	DelimiterIsRegexp *bool   `yaml:"delimiterIsRegexp"`
-	Parser            string  `yaml:"parser"`
-	Logger            *logrus.Entry
-	DelimiterRegexp   *regexp.Regexp
+	Name              string         `yaml:"name"`
+	Type              string         `yaml:"type"`
+	Delimiter         *string        `yaml:"delimiter"`
+	DelimiterIsRegexp *bool          `yaml:"delimiterIsRegexp"`
+	Parser            string         `yaml:"parser"`
+	Logger            *logrus.Entry  `yaml:"-"`
+	DelimiterRegexp   *regexp.Regexp `yaml:"-"`
 }
 
 func (config *SplitConfig) GetName() string {
diff --git a/pkg/parser/string_config.go b/pkg/parser/string_config.go
index 99ef7a1..ee676ec 100644
--- a/pkg/parser/string_config.go
+++ b/pkg/parser/string_config.go
@@ -6,10 +6,10 @@ import (
 )
 
 type StringConfig struct {
-	Name               string `yaml:"name"`
-	Type               string `yaml:"type"`
-	ConvertFromCharset string `yaml:"convertFromCharset"`
-	Logger             *logrus.Entry
+	Name               string        `yaml:"name"`
+	Type               string        `yaml:"type"`
+	ConvertFromCharset string        `yaml:"convertFromCharset"`
+	Logger             *logrus.Entry `yaml:"-"`
 }
 
 func (config *StringConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 42c5417..286c15d 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -16,7 +16,7 @@ type HttpConfig struct {
 	Https      *HttpHttpsConfig   `yaml:"https"`
 	ErrorsType string             `yaml:"errorsType"`
 	Routes     []*HttpRouteConfig `yaml:"routes"`
-	Logger     *logrus.Entry
+	Logger     *logrus.Entry      `yaml:"-"`
 }
 
 type HttpHttpConfig struct {
-- 
2.43.0


From f327722ed48e22c8f48b579c6a8408d32e446ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 33/46] fix: refuse the split parsers using themselves

---
 pkg/parser/split_config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index dbf99f1..d85542b 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -62,6 +62,16 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	// Parsing any value would never end
+	visitedParsers := map[string]bool{config.Name: true}
+	for current := config; current != nil; {
+		if visitedParsers[current.Parser] {
+			return fmt.Errorf("split.parser: The parser '%v' is used recursively.", current.Parser)
+		}
+		visitedParsers[current.Parser] = true
+		current, _ = parsers[current.Parser].(*SplitConfig)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 916249bfd2dd8dcca71cdcee0278f5f278c85926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 34/46] fix: refuse the known but unsupported charsets instead
 of panicking

---
 pkg/parser/string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 41f2eb2..4bf6d36 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -23,6 +24,9 @@ func NewString(
 		if err != nil {
 			return nil, err
 		}
+		if encoding == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported", config.ConvertFromCharset)
+		}
 	}
 
 	return &String{
-- 
2.43.0


From ca7c2a4c0139f74d644c1521d76382d689e0f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 35/46] fix: refuse the same parameter for the limit and the
 offset

---
 pkg/output/json_array_config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/output/json_array_config.go b/pkg/output/json_array_config.go
index 9c36fe1..656847c 100644
--- a/pkg/output/json_array_config.go
+++ b/pkg/output/json_array_config.go
@@ -64,6 +64,10 @@ func (config *JsonArrayConfig) Validate(
 		return fmt.Errorf("jsonArray.offset.%v", err)
 	}
 
+	if config.Limit.Parameter == config.Offset.Parameter {
+		return fmt.Errorf("jsonArray.offset.parameter: Parameter '%v' is already used for the limit", config.Offset.Parameter)
+	}
+
 	for configParamName, configParam := range config.Parameters {
 		logPrefix := fmt.Sprintf("jsonArray.parameters.%v.", configParamName)
 		if err := configParam.Validate(indexes, parsers, log, logPrefix, input); err != nil {
-- 
2.43.0


From 2dd392576be1d96096bd809eb97af65caf482c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 36/46] fix: refuse an unusable https certificate instead of
 not serving https

---
 pkg/service/http.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 4906413..09b0780 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"context"
+	"crypto/tls"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -77,6 +78,14 @@ func NewHttp(
 	}
 
 	var err error
+	if config.Https != nil {
+		if _, err = tls.LoadX509KeyPair(
+			config.Https.CertificatePath,
+			config.Https.PrivateKeyPath,
+		); err != nil {
+			return nil, fmt.Errorf("Cannot load the https certificate: %w", err)
+		}
+	}
 	if config.Http != nil {
 		service.httpListener, service.httpServer, err = service.createServer(config.Http.Listen)
 		if err != nil {
-- 
2.43.0


From f7916a85c96cabefed2a9f99ba9b511115782243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 37/46] fix: report the xpath expressions that cannot be
 evaluated instead of panicking

---
 pkg/input/xml.go        | 16 +++++++++++--
 pkg/input/xml_record.go | 52 ++++++++++++++++++++++++++++++++++-------
 2 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..f182835 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -97,7 +97,7 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 		return nil, err
 	}
 
-	node, err := xmlInput.xmlParser.Read()
+	node, err := readXmlNode(xmlInput.xmlParser)
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -107,6 +107,18 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	return NewXmlRecord(xmlInput.config, node, xmlInput.parsers, position)
 }
 
+// The xpath library panics on the expressions that are syntactically
+// valid but cannot be evaluated (not returning nodes for example)
+func readXmlNode(parser *xmlquery.StreamParser) (node *xmlquery.Node, err error) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			err = fmt.Errorf("recordXpath cannot be evaluated: %v", recovered)
+		}
+	}()
+
+	return parser.Read()
+}
+
 func (xmlInput *Xml) Size() (int64, error) {
 	fileInfo, err := os.Stat(xmlInput.config.Path)
 	if err != nil {
@@ -153,7 +165,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 			return nil, fmt.Errorf("Error when getting xml offset: %v", err)
 		}
 
-		node, err := xmlParser.Read()
+		node, err := readXmlNode(xmlParser)
 		if err == io.EOF {
 			return nil, nil
 		}
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 6dccceb..a6ad5ac 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -90,13 +90,31 @@ func (record *XmlRecord) nodeIteratorToObject(
 func (record *XmlRecord) evaluate(
 	node *xmlquery.Node,
 	currentConfig *XmlPropertyConfig,
-) interface{} {
+) (result interface{}, err error) {
 	currentConfig.evaluationLock.Lock()
 	defer currentConfig.evaluationLock.Unlock()
+	defer record.recoverXpathError(currentConfig, &err)
 
 	return currentConfig.CompiledXPath.Evaluate(
 		xmlquery.CreateXPathNavigator(node),
-	)
+	), nil
+}
+
+func (record *XmlRecord) selectNodes(
+	node *xmlquery.Node,
+	currentConfig *XmlPropertyConfig,
+) (nodes []*xmlquery.Node, err error) {
+	defer record.recoverXpathError(currentConfig, &err)
+
+	return xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath), nil
+}
+
+// The xpath library panics on the expressions that are syntactically
+// valid but cannot be evaluated (wrong argument type for example)
+func (record *XmlRecord) recoverXpathError(config *XmlPropertyConfig, err *error) {
+	if recovered := recover(); recovered != nil {
+		*err = record.xpathError(config, fmt.Sprintf("cannot be evaluated: %v", recovered))
+	}
 }
 
 func (record *XmlRecord) getAllValues(
@@ -104,14 +122,23 @@ func (record *XmlRecord) getAllValues(
 	currentConfig *XmlPropertyConfig,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.nodeIteratorToArray(nodes, currentConfig)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := record.evaluate(node, currentConfig)
+	result, err := record.evaluate(node, currentConfig)
+	if err != nil {
+		return nil, err
+	}
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -279,14 +306,23 @@ func (record *XmlRecord) getSubValue(
 	path []string,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.getSubArrayValue(nodes, currentConfig, path)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := record.evaluate(node, currentConfig)
+	result, err := record.evaluate(node, currentConfig)
+	if err != nil {
+		return nil, err
+	}
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From 3e049d595fb0aa3db41d14f59fc6de6110c18bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 38/46] fix: report the errors met while iterating on the nodes
 of an xpath instead of panicking

---
 pkg/input/xml_record.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index a6ad5ac..5d620b1 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -163,7 +163,9 @@ func (record *XmlRecord) getAllValues(
 
 // Converts a node iterator result into a string containing the raw XmlRecord,
 // to facilitate debugging and setting-up the configuration
-func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, nodeIterator *xpath.NodeIterator) (interface{}, error) {
+func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, nodeIterator *xpath.NodeIterator) (value interface{}, err error) {
+	defer record.recoverXpathError(config, &err)
+
 	parser, parserExists := record.parsers[config.Parser]
 	if !parserExists {
 		return nil, fmt.Errorf("The parser '%v' was not found.", config.Parser)
-- 
2.43.0


From f8fa7f41e7e9b88e779b5d48d891056bf8abc602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 39/46] fix: do not overflow with the biggest values of the
 limits

---
 pkg/output/json_array.go  |  2 +-
 pkg/output/json_common.go | 13 +++++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 6a2b660..a911dbb 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -109,7 +109,7 @@ func (jsonArray *JsonArray) Handle(
 	}
 
 	rowsData := make([]interface{}, 0)
-	for len(rowsData) < int(limit) {
+	for uint(len(rowsData)) < limit {
 		position, err := nextPosition()
 		if err != nil {
 			return sendError(err)
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 592ae75..de4a236 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -153,16 +153,13 @@ func loadRelationships(
 			}
 		}
 
-		count := 0
+		count := len(relationshipRecords)
+		limit := uint(1)
 		if relationshipConfig.IsArray {
-			count = int(relationshipConfig.Limit)
-		} else {
-			count = 1
+			limit = relationshipConfig.Limit
 		}
-		if count == 0 {
-			count = len(relationshipRecords)
-		} else if len(relationshipRecords) < count {
-			count = len(relationshipRecords)
+		if limit != 0 && limit < uint(count) {
+			count = int(limit)
 		}
 
 		relationshipItems := make([]map[string]interface{}, 0, count)
-- 
2.43.0


From ce3a7f59c7d0511d03079fb76fbdefe03b0fc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 40/46] fix: load every relationship from the properties of the
 record itself

---
 pkg/output/json_common.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index de4a236..3df6ad3 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -96,6 +96,8 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// The relationships must only depend on the properties of the record itself
+	relationshipsData := make(map[string]interface{}, len(relationships))
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			data,
@@ -188,16 +190,20 @@ func loadRelationships(
 		}
 
 		if relationshipConfig.IsArray {
-			data[relationshipName] = relationshipItems
+			relationshipsData[relationshipName] = relationshipItems
 		} else {
 			if len(relationshipItems) == 0 {
-				data[relationshipName] = nil
+				relationshipsData[relationshipName] = nil
 			} else {
-				data[relationshipName] = relationshipItems[0]
+				relationshipsData[relationshipName] = relationshipItems[0]
 			}
 		}
 	}
 
+	for relationshipName, relationshipData := range relationshipsData {
+		data[relationshipName] = relationshipData
+	}
+
 	return data, nil
 }
 
-- 
2.43.0


From 205efbc611d2bfa20033395e12b0c92b51f5a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 41/46] fix: iterate over the parameters and filters in a
 stable order

---
 pkg/index/map.go          |  3 ++-
 pkg/index/noop.go         |  5 ++++-
 pkg/index/sqlite.go       |  3 ++-
 pkg/index/wildcard.go     |  3 ++-
 pkg/output/json_array.go  |  4 +++-
 pkg/output/json_common.go |  7 +++++--
 pkg/output/json_object.go |  4 +++-
 pkg/util/utils.go         | 14 ++++++++++++++
 8 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 3e7d3ce..010fce9 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -153,7 +153,8 @@ func (mapIndex *Map) GetRecordPositions(
 	}
 
 	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
-	for propertyName, filter := range filters {
+	for _, propertyName := range util.SortedKeys(filters) {
+		filter := filters[propertyName]
 		if !mapIndex.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 89cd11d..4b9be1b 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/input"
 	"github.com/rodb-io/rodb/pkg/input/record"
+	"github.com/rodb-io/rodb/pkg/util"
 	"reflect"
 )
 
@@ -38,6 +39,7 @@ func (noop *Noop) GetRecordPositions(
 	}
 
 	closed := false
+	properties := util.SortedKeys(filters)
 
 	return func() (*record.Position, error) {
 		for {
@@ -54,7 +56,8 @@ func (noop *Noop) GetRecordPositions(
 			}
 
 			matches := true
-			for propertyName, filter := range filters {
+			for _, propertyName := range properties {
+				filter := filters[propertyName]
 				value, err := record.Get(propertyName)
 				if err != nil {
 					return nil, err
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index f79ea23..58a0dcc 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -244,7 +244,8 @@ func (sqlite *Sqlite) GetRecordPositions(
 	for _, property := range sqlite.config.Properties {
 		collates[property.Name] = property.Collate
 	}
-	for propertyName, filter := range filters {
+	for _, propertyName := range util.SortedKeys(filters) {
+		filter := filters[propertyName]
 		if !sqlite.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 7272554..7edd18f 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -246,7 +246,8 @@ func (wildcard *Wildcard) GetRecordPositions(
 	}
 
 	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
-	for propertyName, filter := range filters {
+	for _, propertyName := range util.SortedKeys(filters) {
+		filter := filters[propertyName]
 		if !wildcard.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index a911dbb..6ffe5a1 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -9,6 +9,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 	"strconv"
 )
@@ -180,7 +181,8 @@ func (jsonArray *JsonArray) getOffset(params map[string]string) (uint, error) {
 
 func (jsonArray *JsonArray) getFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
 	filtersPerIndex := make(map[string]map[string]interface{})
-	for paramName, paramConfig := range jsonArray.config.Parameters {
+	for _, paramName := range util.SortedKeys(jsonArray.config.Parameters) {
+		paramConfig := jsonArray.config.Parameters[paramName]
 		paramValue, paramExists := params[paramName]
 		if !paramExists {
 			continue
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 3df6ad3..71843b2 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -7,6 +7,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"github.com/rodb-io/rodb/pkg/util"
 )
 
 func checkRelationshipMatches(
@@ -71,7 +72,8 @@ func getFilteredRecordPositionsPerIndex(
 	}
 
 	iterators := make([]recordPackage.PositionIterator, 0, len(filtersPerIndex))
-	for indexName, filters := range filtersPerIndex {
+	for _, indexName := range util.SortedKeys(filtersPerIndex) {
+		filters := filtersPerIndex[indexName]
 		index, indexExists := indexes[indexName]
 		if !indexExists {
 			return nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
@@ -98,7 +100,8 @@ func loadRelationships(
 ) (map[string]interface{}, error) {
 	// The relationships must only depend on the properties of the record itself
 	relationshipsData := make(map[string]interface{}, len(relationships))
-	for relationshipName, relationshipConfig := range relationships {
+	for _, relationshipName := range util.SortedKeys(relationships) {
+		relationshipConfig := relationships[relationshipName]
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			data,
 			relationshipConfig.Match,
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 782c8bc..07c3d23 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -9,6 +9,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 )
 
@@ -128,7 +129,8 @@ func (jsonObject *JsonObject) Handle(
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
 	filtersPerIndex := map[string]map[string]interface{}{}
-	for paramName, param := range jsonObject.config.Parameters {
+	for _, paramName := range util.SortedKeys(jsonObject.config.Parameters) {
+		param := jsonObject.config.Parameters[paramName]
 		indexFilters, indexFiltersExists := filtersPerIndex[param.Index]
 		if !indexFiltersExists {
 			indexFilters = make(map[string]interface{})
diff --git a/pkg/util/utils.go b/pkg/util/utils.go
index c297829..ed77c98 100644
--- a/pkg/util/utils.go
+++ b/pkg/util/utils.go
@@ -2,6 +2,8 @@ package util
 
 import (
 	"net"
+	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -36,3 +38,15 @@ func GetAddress(address net.Addr) string {
 
 	return result
 }
+
+// Gives the sorted keys of a map whose keys are strings
+func SortedKeys(stringMap interface{}) []string {
+	reflectKeys := reflect.ValueOf(stringMap).MapKeys()
+	keys := make([]string, 0, len(reflectKeys))
+	for _, reflectKey := range reflectKeys {
+		keys = append(keys, reflectKey.String())
+	}
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From be4db47b9cde6837c7f10ec603b8ee38f45fac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 42/46] fix: apply all of the parameters filtering the same
 property of an index

---
 pkg/output/json_array.go  | 31 ++++++++++++++++------------
 pkg/output/json_common.go | 41 +++++++++++++++++++++++++++++++++++++
 pkg/output/json_object.go | 43 ++++++++++++++++++++++++++-------------
 3 files changed, 88 insertions(+), 27 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 6ffe5a1..fc39796 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -81,22 +81,27 @@ func (jsonArray *JsonArray) Handle(
 		return sendError(err)
 	}
 
-	filtersPerIndex, err := jsonArray.getFiltersPerIndex(params)
-	if err != nil {
-		return sendError(err)
-	}
+	positionIterators := make([]recordPackage.PositionIterator, 0)
+	for _, groupParams := range groupParameters(jsonArray.config.Parameters, params) {
+		filtersPerIndex, err := jsonArray.getFiltersPerIndex(groupParams)
+		if err != nil {
+			return sendError(err)
+		}
 
-	positionsPerIndex, err := getFilteredRecordPositionsPerIndex(
-		jsonArray.defaultIndex,
-		jsonArray.indexes,
-		jsonArray.input,
-		filtersPerIndex,
-	)
-	if err != nil {
-		return sendError(err)
+		positionsPerIndex, err := getFilteredRecordPositionsPerIndex(
+			jsonArray.defaultIndex,
+			jsonArray.indexes,
+			jsonArray.input,
+			filtersPerIndex,
+		)
+		if err != nil {
+			return sendError(err)
+		}
+
+		positionIterators = append(positionIterators, positionsPerIndex...)
 	}
 
-	nextPosition := recordPackage.JoinPositionIterators(positionsPerIndex...)
+	nextPosition := recordPackage.JoinPositionIterators(positionIterators...)
 
 	// Skipping rows depending on the offset
 	for i := uint(0); i < offset; i++ {
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 71843b2..3b1996b 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -6,6 +6,7 @@ import (
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
+	parameterPackage "github.com/rodb-io/rodb/pkg/output/parameter"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
 	"github.com/rodb-io/rodb/pkg/util"
 )
@@ -53,6 +54,46 @@ func getRelationshipFiltersPerIndex(
 	return filtersPerIndex, nil
 }
 
+// An index only accepts one filter for each property: the parameters filtering
+// an already filtered property are put in another group, and all groups must match
+func groupParameters(
+	configs map[string]*parameterPackage.ParameterConfig,
+	params map[string]string,
+) []map[string]string {
+	groups := []map[string]string{{}}
+	for _, paramName := range util.SortedKeys(configs) {
+		paramValue, paramExists := params[paramName]
+		if !paramExists {
+			continue
+		}
+
+		groupIndex := 0
+		for groupIndex < len(groups) && isPropertyFiltered(configs, groups[groupIndex], configs[paramName]) {
+			groupIndex++
+		}
+		if groupIndex == len(groups) {
+			groups = append(groups, map[string]string{})
+		}
+		groups[groupIndex][paramName] = paramValue
+	}
+
+	return groups
+}
+
+func isPropertyFiltered(
+	configs map[string]*parameterPackage.ParameterConfig,
+	params map[string]string,
+	param *parameterPackage.ParameterConfig,
+) bool {
+	for paramName := range params {
+		if configs[paramName].Index == param.Index && configs[paramName].Property == param.Property {
+			return true
+		}
+	}
+
+	return false
+}
+
 func getFilteredRecordPositionsPerIndex(
 	defaultIndex indexPackage.Index,
 	indexes indexPackage.List,
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 07c3d23..e513ed7 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -79,22 +79,32 @@ func (jsonObject *JsonObject) Handle(
 	sendError func(err error) error,
 	sendSucces func() io.Writer,
 ) error {
-	filtersPerIndex, err := jsonObject.getRouteFiltersPerIndex(params)
-	if err != nil {
-		return sendError(err)
+	allParams := make(map[string]string, len(jsonObject.config.Parameters))
+	for paramName := range jsonObject.config.Parameters {
+		allParams[paramName] = params[paramName]
 	}
 
-	positionsPerIndex, err := getFilteredRecordPositionsPerIndex(
-		jsonObject.defaultIndex,
-		jsonObject.indexes,
-		jsonObject.input,
-		filtersPerIndex,
-	)
-	if err != nil {
-		return sendError(err)
+	positionIterators := make([]recordPackage.PositionIterator, 0)
+	for _, groupParams := range groupParameters(jsonObject.config.Parameters, allParams) {
+		filtersPerIndex, err := jsonObject.getRouteFiltersPerIndex(groupParams)
+		if err != nil {
+			return sendError(err)
+		}
+
+		positionsPerIndex, err := getFilteredRecordPositionsPerIndex(
+			jsonObject.defaultIndex,
+			jsonObject.indexes,
+			jsonObject.input,
+			filtersPerIndex,
+		)
+		if err != nil {
+			return sendError(err)
+		}
+
+		positionIterators = append(positionIterators, positionsPerIndex...)
 	}
 
-	nextPosition := recordPackage.JoinPositionIterators(positionsPerIndex...)
+	nextPosition := recordPackage.JoinPositionIterators(positionIterators...)
 
 	position, err := nextPosition()
 	if err != nil {
@@ -131,17 +141,22 @@ func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string)
 	filtersPerIndex := map[string]map[string]interface{}{}
 	for _, paramName := range util.SortedKeys(jsonObject.config.Parameters) {
 		param := jsonObject.config.Parameters[paramName]
+		paramValue, paramExists := params[paramName]
+		if !paramExists {
+			continue
+		}
+
 		indexFilters, indexFiltersExists := filtersPerIndex[param.Index]
 		if !indexFiltersExists {
 			indexFilters = make(map[string]interface{})
 			filtersPerIndex[param.Index] = indexFilters
 		}
 
-		paramValue, err := jsonObject.paramParsers[paramName].Parse(params[paramName])
+		parsedParamValue, err := jsonObject.paramParsers[paramName].Parse(paramValue)
 		if err != nil {
 			return nil, err
 		}
-		indexFilters[param.Property] = paramValue
+		indexFilters[param.Property] = parsedParamValue
 	}
 
 	return filtersPerIndex, nil
-- 
2.43.0


From 8c7aa2a30d89a3c0b36e44d290e7a1e95bdedb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 43/46] fix: close the file of a scan that cannot be started

---
 pkg/input/csv.go | 1 +
 pkg/input/xml.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 9a2cd91..d91ecf1 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -189,6 +189,7 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 			err = nil
 		}
 		if err != nil {
+			file.Close()
 			return nil, nil, err
 		}
 	}
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index f182835..ac550da 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -152,6 +152,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		xmlInput.config.RecordXPath,
 	)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From f5fdb13da1999cd2d42d1d5154d9ac1697830f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 44/46] fix: give NaN a place in the sort order

---
 pkg/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 14a1507..53e09a0 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"github.com/sirupsen/logrus"
+	"math"
 )
 
 type Parser interface {
@@ -96,10 +97,11 @@ func Compare(a interface{}, b interface{}) (*bool, error) {
 			return nil, fmt.Errorf("Cannot compare a float with '%#v'", b)
 		}
 
-		if aFloat == bFloat {
+		if aFloat == bFloat || (math.IsNaN(aFloat) && math.IsNaN(bFloat)) {
 			return nil, nil
 		}
-		result := aFloat < bFloat
+		// Not a number comes before all the numbers
+		result := aFloat < bFloat || math.IsNaN(aFloat)
 		return &result, nil
 	case bool:
 		aBool := a.(bool)
-- 
2.43.0


From fa7b98d8f515a8f1d24c55a54b955ee4bf01e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 45/46] fix: refuse the xml numbers that are not integers for
 an integer

---
 pkg/input/xml_record.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 5d620b1..4b166d7 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -6,6 +6,7 @@ import (
 	"github.com/antchfx/xpath"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -231,6 +232,11 @@ func (record *XmlRecord) handleNumericValue(config *XmlPropertyConfig, value flo
 	if _, isFloatParser := parser.(*parserPackage.Float); isFloatParser {
 		return value, nil
 	} else if _, isIntegerParser := parser.(*parserPackage.Integer); isIntegerParser {
+		// Converting anything out of these bounds gives an undefined value
+		if math.IsNaN(value) || value < -(1<<63) || value >= 1<<63 {
+			return nil, record.xpathError(config, fmt.Sprintf("got the number '%v', which is not an integer", value))
+		}
+
 		return int64(value), nil
 	} else {
 		return nil, record.xpathError(config, fmt.Sprintf("got a numeric value, but the property does not have a numeric parser"))
-- 
2.43.0


From 10478ce2c47ee5f0f79f9702e624dca290f11890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 46/46] fix: find a record once when a value is repeated in its
 nested arrays

---
 pkg/index/map.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 010fce9..1d91ee9 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -101,6 +101,7 @@ func (mapIndex *Map) addValueToIndex(
 	position record.Position,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
+		valueArray = flattenArray(valueArray)
 		for valueArrayIndex, valueArrayValue := range valueArray {
 			if isValueInArray(valueArray[:valueArrayIndex], valueArrayValue) {
 				// This record must only be found once for this value
@@ -130,6 +131,19 @@ func (mapIndex *Map) addValueToIndex(
 	return nil
 }
 
+func flattenArray(array []interface{}) []interface{} {
+	result := make([]interface{}, 0, len(array))
+	for _, value := range array {
+		if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
+			result = append(result, flattenArray(valueArray)...)
+		} else {
+			result = append(result, value)
+		}
+	}
+
+	return result
+}
+
 func isValueInArray(array []interface{}, value interface{}) bool {
 	for _, arrayValue := range array {
 		if reflect.DeepEqual(arrayValue, value) {
-- 
2.43.0

